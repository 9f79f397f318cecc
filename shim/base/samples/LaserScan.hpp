#ifndef VP_SHIM_LASERSCAN_HPP
#define VP_SHIM_LASERSCAN_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <vector>
#include <limits>
#include <cmath>
#include <Eigen/Geometry>
namespace base { namespace samples {
enum LASER_RANGE_ERRORS { TOO_FAR = 1, TOO_NEAR = 2, MEASUREMENT_ERROR = 3, OTHER_RANGE_ERRORS = 4, MAX_RANGE_ERROR = 5, END_LASER_RANGE_ERRORS = 6 };
struct LaserScan { Time time; double start_angle, angular_resolution, speed; std::vector<uint32_t> ranges; uint32_t minRange, maxRange; std::vector<float> remission;
 bool isRangeValid(uint32_t r) const { return r >= minRange && r <= maxRange && r >= END_LASER_RANGE_ERRORS; }
 std::vector<Eigen::Vector3d> convertScanToPointCloud(const Eigen::Affine3d& t = Eigen::Affine3d::Identity(), bool skipInvalidPoints = true) const { std::vector<Eigen::Vector3d> v; for(size_t i = 0; i < ranges.size(); i++) { if(!isRangeValid(ranges[i])) { if(!skipInvalidPoints) v.push_back(Eigen::Vector3d::Constant(std::numeric_limits<double>::quiet_NaN())); continue; } double a = start_angle + i*angular_resolution; v.push_back(t*Eigen::Vector3d(cos(a)*ranges[i]/1000.0, sin(a)*ranges[i]/1000.0, 0)); } return v; }
 LaserScan():start_angle(0),angular_resolution(0),speed(0),minRange(0),maxRange(0){} };
}}
#endif
