#ifndef VP_SHIM_SPLINE_HPP
#define VP_SHIM_SPLINE_HPP
#include <base/Eigen.hpp>
namespace base { namespace geometry {
template<int D> struct Spline { std::vector<base::Vector3d> pts;
  std::vector<base::Vector3d> sample(double) const { return pts; }
  void interpolate(const std::vector<base::Vector3d>& p) { pts = p; } };
typedef Spline<3> Spline3;
}}
#endif
