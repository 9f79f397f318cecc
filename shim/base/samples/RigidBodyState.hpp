#ifndef VP_SHIM_RBS_HPP
#define VP_SHIM_RBS_HPP
#include <base/Eigen.hpp>
#include <base/Pose.hpp>
#include <base/Time.hpp>
namespace base { namespace samples {
struct RigidBodyState {
    Time time; std::string sourceFrame, targetFrame;
    Position position; Matrix3d cov_position; Orientation orientation; Matrix3d cov_orientation;
    Vector3d velocity; Matrix3d cov_velocity; Vector3d angular_velocity; Matrix3d cov_angular_velocity;
    RigidBodyState() : position(Position::Zero()), cov_position(Matrix3d::Zero()), orientation(Orientation::Identity()), cov_orientation(Matrix3d::Zero()) {}
    Eigen::Affine3d getTransform() const { Eigen::Affine3d r; r.setIdentity(); r.prerotate(Eigen::Quaterniond(orientation)); r.pretranslate(Eigen::Vector3d(position)); return r; }
    template<int Opt> operator Eigen::Transform<double,3,Eigen::Affine,Opt>() const { return Eigen::Transform<double,3,Eigen::Affine,Opt>(getTransform()); }
    template<class T> void setTransform(const T& t) { position = t.translation(); orientation = Orientation(Eigen::Quaterniond(Eigen::Matrix3d(t.linear()))); }
    double getYaw() const { return base::getYaw(orientation); }
};
}}
#endif
