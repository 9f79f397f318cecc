// Stand-in for Rock's base-types <base/Eigen.hpp> (not installable offline).
#ifndef VP_SHIM_BASE_EIGEN_HPP
#define VP_SHIM_BASE_EIGEN_HPP
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <cassert>
#include <cstdint>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <stdexcept>
namespace base {
typedef Eigen::Matrix<double,2,1,Eigen::DontAlign> Vector2d;
typedef Eigen::Matrix<double,3,1,Eigen::DontAlign> Vector3d;
typedef Eigen::Matrix<double,4,1,Eigen::DontAlign> Vector4d;
typedef Eigen::Matrix<double,6,1,Eigen::DontAlign> Vector6d;
typedef Eigen::Matrix<double,Eigen::Dynamic,1,Eigen::DontAlign> VectorXd;
typedef Eigen::Matrix<double,2,2,Eigen::DontAlign> Matrix2d;
typedef Eigen::Matrix<double,3,3,Eigen::DontAlign> Matrix3d;
typedef Eigen::Matrix<double,4,4,Eigen::DontAlign> Matrix4d;
typedef Eigen::Matrix<double,6,6,Eigen::DontAlign> Matrix6d;
typedef Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::DontAlign> MatrixXd;
typedef Eigen::Quaternion<double,Eigen::DontAlign> Quaterniond;
typedef Eigen::AngleAxis<double> AngleAxisd;
typedef Eigen::Transform<double,3,Eigen::Affine,Eigen::DontAlign> Affine3d;
typedef Eigen::Transform<double,3,Eigen::Isometry,Eigen::DontAlign> Isometry3d;
typedef Affine3d Transform3d;
typedef Vector3d Point;
typedef Vector3d Position;
typedef Vector2d Position2D;
typedef Quaterniond Orientation;
typedef double Orientation2D;

template<typename T> inline T unset() { return std::numeric_limits<T>::quiet_NaN(); }
template<typename T> inline bool isUnset(T v) { return std::isnan(v); }
template<typename T> inline T unknown() { return std::numeric_limits<T>::quiet_NaN(); }
template<typename T> inline bool isUnknown(T v) { return std::isnan(v); }
template<typename T> inline T infinity() { return std::numeric_limits<T>::infinity(); }
template<typename T> inline bool isInfinity(T v) { return std::isinf(v); }
template<class D> inline bool isnotnan(const Eigen::MatrixBase<D>& x) { return ((x.array() == x.array())).all(); }
}
#endif
