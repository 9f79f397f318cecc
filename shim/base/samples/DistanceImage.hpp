#ifndef VP_SHIM_DISTANCEIMAGE_HPP
#define VP_SHIM_DISTANCEIMAGE_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
namespace base { namespace samples {
struct DistanceImage { typedef float scalar; Time time; uint16_t width, height; float scale_x, scale_y, center_x, center_y; std::vector<float> data;
 DistanceImage():width(0),height(0),scale_x(0),scale_y(0),center_x(0),center_y(0){} };
}}
#endif
