//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 60000
//@ thorough: 2000000
// Uncertainty of transforms is propagated to first order.
#include "envhist.hpp"
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
using namespace pbt; using namespace envire; using namespace eh;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Random poses (rotation angle up to 0.8, translations up to 5) with random covariances, composed, inverted, applied to uncertain points, decomposed, and chained through frame trees. Oracle: J C J' with central-difference Jacobians of the exact operations on (rotation vector, translation), within the fourth-order error of the small-angle series the code documents; recovering a factor from a composition gives back its covariance; for arbitrary rotations the transforms are exact, covariances stay symmetric and positive semidefinite, and the uncertain flag is the or of the operands'. Non-trivial: all operands uncertain and rotated by more than 0.05."; }
namespace {
typedef Eigen::Matrix<double,6,1> V6; typedef Eigen::Matrix<double,6,6> M6; typedef Eigen::Affine3d A3; using Eigen::Vector3d; using Eigen::Matrix3d;
Matrix3d expR(const Vector3d& r) { double t = r.norm(); if(t < 1e-12) return Matrix3d::Identity(); Vector3d k = r/t; Matrix3d K; K << 0, -k.z(), k.y(), k.z(), 0, -k.x(), -k.y(), k.x(), 0; return Matrix3d::Identity() + std::sin(t)*K + (1 - std::cos(t))*K*K; }
Vector3d logR(const Matrix3d& R) { double cs = std::min(1.0, std::max(-1.0, (R.trace() - 1)/2)); Vector3d w(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1)); double s = w.norm()/2, t = std::atan2(s, cs); return s < 1e-9 ? Vector3d(w/2) : Vector3d(w*(t/(2*s))); }
A3 T(const V6& v) { A3 t = A3::Identity(); t.linear() = expR(v.head<3>()); t.translation() = v.tail<3>(); return t; }
V6 P(const A3& t) { V6 v; v << logR(t.linear()), t.translation(); return v; }
A3 invT(const A3& t) { A3 r = A3::Identity(); r.linear() = t.linear().transpose(); r.translation() = -(t.linear().transpose()*t.translation()); return r; }
template<class F> M6 jac(F f, const V6& x) { M6 J; double h = 1e-5; for(int i = 0; i < 6; i++) { V6 a = x, b = x; a[i] += h; b[i] -= h; J.col(i) = (f(a) - f(b))/(2*h); } return J; }
V6 pose(Ctx& c, double ang) { V6 v; Vector3d ax(c.signedReal(1), c.signedReal(1), c.signedReal(1)); if(ax.norm() < 0.1) ax = Vector3d::UnitZ(); double a = c.chance(1, 6) ? 0 : c.real(0, ang); v << ax.normalized()*a, c.signedReal(5), c.signedReal(5), c.signedReal(5); return v; }
M6 covar(Ctx& c) { M6 L = M6::Zero(); double s = c.pick(std::vector<double>{0.1, 0.01, 1}); for(int i = 0; i < 6; i++) for(int j = 0; j <= i; j++) L(i, j) = i == j ? c.real(0.3, 1)*s : c.signedReal(0.3)*s; return L*L.transpose(); }
// entries relative to the deviations of their row and column
template<class M> double err(const M& x, const M& y) { double e = 0; for(int i = 0; i < y.rows(); i++) for(int j = 0; j < y.cols(); j++) e = std::max(e, std::fabs(x(i, j) - y(i, j))/std::sqrt(std::max(1e-300, y(i, i)*y(j, j)))); return e; }
double tol(double ang) { return 1e-4 + 1.0*std::pow(ang, 4); }
template<class M> void sound(const M& C, const char* what) { CHECK((C - C.transpose()).cwiseAbs().maxCoeff() <= 1e-9*(1e-12 + C.cwiseAbs().maxCoeff()), std::string("asymmetric covariance of ") + what); Eigen::MatrixXd half = 0.5*(C + C.transpose()); Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(half); CHECK(es.eigenvalues()[0] >= -1e-9*std::max(1e-12, es.eigenvalues()[C.rows() - 1]), std::string("the covariance of ") + what + " is not positive semidefinite"); }
bool nearT(const A3& a, const A3& b) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() <= 1e-9*(1 + a.matrix().cwiseAbs().maxCoeff()); }
}
PROP(compose, 2) {
    V6 a = pose(c, 0.8), b = pose(c, 0.8); bool ua = !c.chance(1, 4), ub = !c.chance(1, 4); M6 Ca = covar(c), Cb = covar(c); TransformWithUncertainty A = ua ? TransformWithUncertainty(T(a), Ca) : TransformWithUncertainty(T(a)), B = ub ? TransformWithUncertainty(T(b), Cb) : TransformWithUncertainty(T(b)); c.note("a " + vec(a) + (ua ? " uncertain" : "") + "\nb " + vec(b) + (ub ? " uncertain" : "")); if(!ua) Ca.setZero(); if(!ub) Cb.setZero();
    TransformWithUncertainty R = c.boolean() ? A*B : A.composition(B); CHECK(nearT(R.getTransform(), T(a)*T(b)), "composed transform"); CHECK_EQ(R.hasUncertainty(), ua || ub, "uncertainty of the composition");
    double ang = std::max(std::max(a.head<3>().norm(), b.head<3>().norm()), P(T(a)*T(b)).head<3>().norm());
    if(ua || ub) { M6 Ja = jac([&](const V6& x) { return P(T(x)*T(b)); }, a), Jb = jac([&](const V6& x) { return P(T(a)*T(x)); }, b); M6 E = Ja*Ca*Ja.transpose() + Jb*Cb*Jb.transpose(); double e = err(R.getCovariance(), E); CHECK(e <= tol(ang), fmt("covariance of a composition off by %.3g of its deviations (allowed %.3g), angle %.2f", e, tol(ang), ang)); sound(R.getCovariance(), "a composition"); }
    if(ua && ub && a.head<3>().norm() > 0.05 && b.head<3>().norm() > 0.05) c.nontrivial();
    // taking a factor out of the composition gives back the other one
    TransformWithUncertainty A2 = R.compositionInv(B), B2 = R.preCompositionInv(A); CHECK(nearT(A2.getTransform(), T(a)), "left factor of a composition"); CHECK(nearT(B2.getTransform(), T(b)), "right factor of a composition"); double sc = std::max(1e-9, R.getCovariance().cwiseAbs().maxCoeff()); if(ua || ub) { CHECK((A2.getCovariance() - Ca).cwiseAbs().maxCoeff() <= 1e-6*sc, "covariance of the left factor"); CHECK((B2.getCovariance() - Cb).cwiseAbs().maxCoeff() <= 1e-6*sc, "covariance of the right factor"); } else CHECK(!A2.hasUncertainty() && !B2.hasUncertainty(), "a factor of certain transforms is uncertain");
}
PROP(inverse, 1) {
    V6 a = pose(c, 0.8); bool ua = !c.chance(1, 4); M6 Ca = covar(c); TransformWithUncertainty A = ua ? TransformWithUncertainty(T(a), Ca) : TransformWithUncertainty(T(a)); c.note("a " + vec(a)); TransformWithUncertainty I = A.inverse(); CHECK(nearT(I.getTransform(), invT(T(a))), "inverse transform"); CHECK_EQ(I.hasUncertainty(), ua, "uncertainty of the inverse"); if(!ua) return; double ang = a.head<3>().norm(); M6 J = jac([&](const V6& x) { return P(invT(T(x))); }, a); double e = err(I.getCovariance(), M6(J*Ca*J.transpose())); CHECK(e <= tol(ang), fmt("covariance of an inverse off by %.3g of its deviations (allowed %.3g), angle %.2f", e, tol(ang), ang)); sound(I.getCovariance(), "an inverse"); double e2 = err(I.inverse().getCovariance(), Ca); CHECK(e2 <= 2*tol(ang), fmt("covariance after inverting twice off by %.3g", e2)); if(ang > 0.05) c.nontrivial();
}
PROP(point, 1) {
    V6 a = pose(c, 0.8); M6 Ca = covar(c); bool ua = !c.chance(1, 4), up = c.boolean(); Vector3d p(c.signedReal(5), c.signedReal(5), c.signedReal(5)); Matrix3d L; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) L(i, j) = j > i ? 0 : i == j ? c.real(0.1, 1) : c.signedReal(0.5); Matrix3d Cp = L*L.transpose(); TransformWithUncertainty A = ua ? TransformWithUncertainty(T(a), Ca) : TransformWithUncertainty(T(a)); PointWithUncertainty q = up ? PointWithUncertainty(p, Cp) : PointWithUncertainty(p); c.note("a " + vec(a) + " p " + vec(p)); if(!ua) Ca.setZero(); if(!up) Cp.setZero(); PointWithUncertainty r = A*q; CHECK((r.getPoint() - T(a)*p).norm() <= 1e-9*(1 + p.norm()), "transformed point"); Eigen::Matrix<double,3,6> J; for(int i = 0; i < 6; i++) { V6 x = a, y = a; x[i] += 1e-5; y[i] -= 1e-5; J.col(i) = (T(x)*p - T(y)*p)/2e-5; } Matrix3d E = J*Ca*J.transpose() + T(a).linear()*Cp*T(a).linear().transpose(); double ang = a.head<3>().norm(); if(ua || up) { double e = err(r.getCovariance(), E); CHECK(e <= tol(ang), fmt("covariance of a point off by %.3g of its deviations (allowed %.3g), angle %.2f", e, tol(ang), ang)); CHECK(r.hasUncertainty(), "a point of uncertain operands is certain"); sound(r.getCovariance(), "a point"); } else { CHECK(r.getCovariance().cwiseAbs().maxCoeff() == 0, "a covariance out of nothing"); CHECK(!r.hasUncertainty(), "a point of certain operands is uncertain"); } CHECK(up || q.getCovariance().isZero(), "covariance of a certain point"); if(ua && up && ang > 0.05) c.nontrivial();
}
PROP(chain, 2) {
    eu::Quiet q; Environment env; std::vector<FrameNode*> fs{env.getRootNode()}; std::map<FrameNode*, V6> v; std::map<FrameNode*, M6> C; size_t n = c.range(1, 6); for(size_t i = 0; i < n; i++) { V6 a = pose(c, 0.25); FrameNode* f = new FrameNode(); bool u = !c.chance(1, 3); M6 Ca = covar(c); if(u) f->setTransform(TransformWithUncertainty(T(a), Ca)); else { f->setTransform(T(a)); Ca.setZero(); } size_t k = c.chance(2, 3) ? fs.size() - 1 : c.draw(fs.size()); env.addChild(fs[k], f); c.note(fmt("frame %zu under %zu%s ", fs.size(), k, u ? " uncertain" : "") + vec(a)); v[f] = a; C[f] = Ca; fs.push_back(f); }
    FrameNode *a = c.pick(fs), *b = c.pick(fs); auto path = [&](FrameNode* f) { std::vector<FrameNode*> p; while(f->getParent()) { p.push_back(f); f = f->getParent(); } return p; }; std::vector<FrameNode*> pa = path(a), pb = path(b); while(!pa.empty() && !pb.empty() && pa.back() == pb.back()) { pa.pop_back(); pb.pop_back(); }
    TransformWithUncertainty R = env.relativeTransformWithUncertainty(a, b); bool unc = false; M6 E = M6::Zero(); double ang = 0; auto eval = [&](FrameNode* ch, const V6& x) { A3 ta = A3::Identity(), tb = A3::Identity(); for(auto f : pa) ta = T(f == ch ? x : v[f])*ta; for(auto f : pb) tb = T(f == ch ? x : v[f])*tb; return P(invT(tb)*ta); }; for(auto* p : {&pa, &pb}) { A3 acc = A3::Identity(); for(auto f : *p) { ang = std::max(ang, v[f].head<3>().norm()); acc = T(v[f])*acc; ang = std::max(ang, P(acc).head<3>().norm()); M6 J = jac([&](const V6& x) { return eval(f, x); }, v[f]); E += J*C[f]*J.transpose(); unc |= f->getTransformWithUncertainty().hasUncertainty(); } } ang = std::max(ang, (double)eval(0, V6::Zero()).head<3>().norm());
    c.note(fmt("from %d to %d, %zu transforms up and %zu down", (int)(std::find(fs.begin(), fs.end(), a) - fs.begin()), (int)(std::find(fs.begin(), fs.end(), b) - fs.begin()), pa.size(), pb.size())); CHECK_EQ(R.hasUncertainty(), unc, "whether the relative transform is uncertain"); if(unc && ang <= 0.9) { double e = err(R.getCovariance(), E), al = 1e-4 + 6*std::pow(ang, 4); CHECK(e <= al, fmt("covariance of a relative transform off by %.3g of its deviations (allowed %.3g), angle %.2f", e, al, ang)); if(pa.size() + pb.size() >= 2) c.nontrivial(); }
}
PROP(any_rotation, 1) {
    A3 a = eu::randomPose(c), b = eu::randomPose(c); M6 Ca = covar(c), Cb = covar(c); TransformWithUncertainty A(a, Ca), B(b, Cb), R = A*B; c.note("a\n" + mat(a.matrix()) + "\nb\n" + mat(b.matrix())); CHECK(nearT(R.getTransform(), a*b), "composed transform"); sound(R.getCovariance(), "a composition"); CHECK(R.getCovariance().allFinite(), "covariance not finite"); TransformWithUncertainty I = A.inverse(); CHECK(nearT(I.getTransform(), invT(a)), "inverse transform"); sound(I.getCovariance(), "an inverse"); PointWithUncertainty p = A*PointWithUncertainty(Vector3d(1, 2, 3)); sound(p.getCovariance(), "a point"); Eigen::Matrix3d lo = a.linear()*Cb.bottomRightCorner(3, 3)*a.linear().transpose();
    // the translational part of the right operand is only rotated, whatever the angle
    M6 only = M6::Zero(); only.bottomRightCorner(3, 3) = Cb.bottomRightCorner(3, 3); TransformWithUncertainty S = TransformWithUncertainty(a)*TransformWithUncertainty(b, only); CHECK((S.getCovariance().bottomRightCorner(3, 3) - lo).cwiseAbs().maxCoeff() <= 1e-9*(1e-9 + lo.cwiseAbs().maxCoeff()), "rotated translational covariance"); CHECK(S.getCovariance().topLeftCorner(3, 3).cwiseAbs().maxCoeff() <= 1e-12, "rotational covariance out of nothing");
    base::samples::RigidBodyState rbs; A.copyToRigidBodyState(rbs); CHECK((rbs.cov_orientation - Ca.topLeftCorner(3, 3)).norm() == 0 && (rbs.cov_position - Ca.bottomRightCorner(3, 3)).norm() == 0, "covariances of the rigid body state"); TransformWithUncertainty Q(rbs); CHECK(nearT(Q.getTransform(), a), "transform through a rigid body state"); CHECK(Q.hasUncertainty() && Q.getCovariance().topLeftCorner(3, 3) == Ca.topLeftCorner(3, 3) && Q.getCovariance().bottomRightCorner(3, 3) == Ca.bottomRightCorner(3, 3), "covariance through a rigid body state"); c.nontrivial();
}
PROP(fresh, 0.1) {
    // what is made without arguments is certain, and nothing moves
    TransformWithUncertainty d = TransformWithUncertainty(); PointWithUncertainty p = PointWithUncertainty(); CHECK(!d.hasUncertainty() && !p.hasUncertainty(), "an uncertainty out of nothing"); CHECK(nearT(d.getTransform(), A3::Identity()) && p.getPoint().isZero(), "a new transform moves, or a new point is not at the origin"); CHECK(d.getCovariance().isZero() && p.getCovariance().isZero(), "a covariance out of nothing");
    A3 a = eu::randomPose(c); M6 Ca = covar(c); TransformWithUncertainty A(a, Ca); bool l = c.boolean(); TransformWithUncertainty R = l ? d*A : A*d; c.note("a\n" + mat(a.matrix())); CHECK(nearT(R.getTransform(), a), "transform combined with a new one"); CHECK(R.hasUncertainty(), "uncertainty lost"); TransformWithUncertainty I = TransformWithUncertainty::Identity(); CHECK(!I.hasUncertainty() && nearT(I.getTransform(), A3::Identity()) && I.getCovariance().isZero(), "identity"); d.setCovariance(Ca); CHECK(d.hasUncertainty() && d.getCovariance() == Ca && nearT(d.getTransform(), A3::Identity()), "setCovariance"); d.setTransform(a); CHECK(d.hasUncertainty() && d.getCovariance() == Ca && nearT(d.getTransform(), a), "setTransform"); Eigen::Vector3d x(c.signedReal(3), c.signedReal(3), c.signedReal(3)); p.setPoint(x); CHECK(!p.hasUncertainty() && p.getPoint() == x, "setPoint"); p.setCovariance(Ca.topLeftCorner<3,3>()); CHECK(p.hasUncertainty() && p.getPoint() == x && p.getCovariance() == Ca.topLeftCorner(3, 3), "setCovariance of a point"); c.nontrivial();
}
