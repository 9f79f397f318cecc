// Stand-in for rock-slam numeric: incremental weighted least-squares plane z = a*x + b*y + c.
#ifndef VP_SHIM_PLANEFITTING_HPP
#define VP_SHIM_PLANEFITTING_HPP
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Cholesky>
namespace numeric {
template<class Scalar> class PlaneFitting {
public:
    typedef Eigen::Matrix<Scalar,3,1> Vector3; typedef Eigen::Matrix<Scalar,3,3> Matrix3;
    struct Result { Vector3 coeffs; Scalar residual; const Vector3& getCoeffs() const { return coeffs; } Scalar getResiduals() const { return residual; } };
    PlaneFitting() { clear(); }
    explicit PlaneFitting(const Vector3& p, Scalar weight = 1.0) { clear(); update(p, weight); }
    void clear() { x=y=z=xx=yy=xy=xz=yz=zz=n=0; }
    void update(const Vector3& p, Scalar w = 1.0) {
        x += p.x()*w; y += p.y()*w; z += p.z()*w; xx += p.x()*p.x()*w; yy += p.y()*p.y()*w; xy += p.x()*p.y()*w;
        xz += p.x()*p.z()*w; yz += p.y()*p.z()*w; zz += p.z()*p.z()*w; n += w; }
    void update(const PlaneFitting& o) { x+=o.x; y+=o.y; z+=o.z; xx+=o.xx; yy+=o.yy; xy+=o.xy; xz+=o.xz; yz+=o.yz; zz+=o.zz; n+=o.n; }
    void scale(Scalar f) { x*=f; y*=f; z*=f; xx*=f; yy*=f; xy*=f; xz*=f; yz*=f; zz*=f; n*=f; }
    Result solve() const {
        Matrix3 A; A << xx, xy, x, xy, yy, y, x, y, n; Vector3 b(xz, yz, z);
        Result r; r.coeffs = A.ldlt().solve(b); r.residual = zz - r.coeffs.dot(b); return r; }
    Vector3 getCoeffs() const { return solve().coeffs; }
    Scalar getResiduals() const { return solve().residual; }
    Scalar x, y, z, xx, yy, xy, xz, yz, zz, n;
};
}
#endif
