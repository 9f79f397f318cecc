#ifndef VP_SHIM_BASE_POSE_HPP
#define VP_SHIM_BASE_POSE_HPP
#include <base/Eigen.hpp>
#include <base/Angle.hpp>
namespace base {
inline double getYaw(const Orientation& o) { return Eigen::Vector3d(o.toRotationMatrix().eulerAngles(2,1,0))[0]; }
struct Pose {
    Position position;
    Orientation orientation;
    Pose() : position(Position::Zero()), orientation(Orientation::Identity()) {}
    Pose(Position const& p, Orientation const& o) : position(p), orientation(o) {}
    template<int Mode, int Opt> explicit Pose(const Eigen::Transform<double,3,Mode,Opt>& t) { fromTransform(t); }
    explicit Pose(const Vector6d& v) { fromVector6d(v); }
    template<int Mode, int Opt> void fromTransform(const Eigen::Transform<double,3,Mode,Opt>& t) {
        position = t.translation(); Eigen::Matrix3d m = t.linear(); orientation = Orientation(Eigen::Quaterniond(m)); }
    Affine3d toTransform() const { Affine3d t; t.setIdentity(); t.prerotate(Eigen::Quaterniond(orientation)); t.pretranslate(Eigen::Vector3d(position)); return t; }
    void fromVector6d(const Vector6d& v) {
        const Eigen::Vector3d s(v.head<3>());
        if(s.norm() > 1e-9) orientation = Orientation(Eigen::Quaterniond(Eigen::AngleAxisd(s.norm(), s.normalized())));
        else orientation = Orientation::Identity();
        position = v.tail<3>();
    }
    Vector6d toVector6d() const { Vector6d r; Eigen::AngleAxisd aa((Eigen::Quaterniond(orientation))); r.head<3>() = aa.axis()*aa.angle(); r.tail<3>() = position; return r; }
    double getYaw() const { return base::getYaw(orientation); }
};
struct Pose2D {
    Position2D position; Orientation2D orientation;
    Pose2D() : position(Position2D::Zero()), orientation(0) {}
    Pose2D(const Position2D& p, double o) : position(p), orientation(o) {}
    explicit Pose2D(const Pose& p) : position(p.position.x(), p.position.y()), orientation(p.getYaw()) {}
};
}
#endif
