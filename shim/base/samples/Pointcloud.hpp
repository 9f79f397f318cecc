#ifndef VP_SHIM_POINTCLOUD_HPP
#define VP_SHIM_POINTCLOUD_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
namespace base { namespace samples { struct Pointcloud { Time time; std::vector<base::Point> points; std::vector<base::Vector4d> colors; }; }}
#endif
