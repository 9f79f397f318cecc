//@ quick: 400000
//@ thorough: 10000000
// Surface patches: how two patches of a cell are merged in each of the three update models.
#include "pbt.hpp"
#include <Eigen/Core>
#include <Eigen/Dense>
#include <base/Eigen.hpp>
#include <envire/maps/MLSPatch.hpp>
#include <memory>
using namespace pbt; using envire::SurfacePatch; using envire::MLSConfiguration;
namespace pbt { const char* RULE = "Pairs of patches of all types (surface, vertical block, free space) with arbitrary heights, deviations (zero included), ages, colors and weights are merged with arbitrary thickness and gap size under each update model, in both directions, and histories of up to 14 measurements are merged one by one, in another order, or as two halves. The result is compared with a reference in double precision: precision weighted fusion, union of intervals, weighted moments and least squares planes. Pairs within rounding distance of a decision threshold are discarded. Non-trivial: the patches are merged (or cut), or a history of at least three measurements."; }
namespace {
typedef SurfacePatch P; const P::TYPE types[] = {P::HORIZONTAL, P::VERTICAL, P::NEGATIVE};
std::string show(const P& p) { return fmt("%s top %g height %g stdev %g n %g idx %zu color %d %d %d", p.isHorizontal() ? "surface" : p.isVertical() ? "block" : "free", p.mean, p.height, p.stdev, p.n, p.update_idx, p.color[0], p.color[1], p.color[2]); }
void tint(Ctx& c, P& p) { for(int i = 0; i < 3; i++) p.color[i] = c.boolean() ? c.draw(256) : c.draw(2)*255; p.update_idx = c.draw(3); }
double snap(Ctx& c, double m) { return c.boolean() ? c.rangeC(-20, 20)*m/20 : c.signedReal(m); }
P arb(Ctx& c, P::TYPE t, double m) { P p(snap(c, m), c.chance(1, 8) ? 0.0 : c.real(0.005, 0.4), t == P::HORIZONTAL ? 0.0 : c.chance(1, 6) ? 0.0 : c.real(0.05, 3), t); tint(c, p); p.n = c.range(1, 9); return p; }
bool sameGeom(const P& a, const P& b) { return a.mean == b.mean && a.height == b.height && a.stdev == b.stdev && a.isHorizontal() == b.isHorizontal() && a.isVertical() == b.isVertical() && a.n == b.n && a.update_idx == b.update_idx && std::equal(a.color, a.color + 3, b.color); }
void common(const P& p, const P& o, const P& r) { CHECK_EQ(r.update_idx, std::max(p.update_idx, o.update_idx), "age of the merged patch"); for(int i = 0; i < 3; i++) CHECK(std::fabs(r.color[i] - (p.color[i] + o.color[i])/2.0) <= 1.0, fmt("color channel %d of the merged patch is %d, the patches have %d and %d", i, r.color[i], p.color[i], o.color[i])); }
const double E = 2e-5;
}
PROP(kalman, 5) {
    double mag = c.pick(std::vector<double>{0.5, 2, 8}); P p0 = arb(c, types[c.draw(3)], mag), o0 = arb(c, types[c.draw(3)], mag); double th = c.real(0.01, 1), gap = c.chance(1, 6) ? 0.0 : c.real(0.05, 2); c.note("patch: " + show(p0)); c.note("other: " + show(o0)); c.note(fmt("thickness %g gap size %g", th, gap));
    P p(p0), o(o0); bool r = p.merge(o, th, gap, MLSConfiguration::KALMAN); c.note(fmt("merged: %d, ", r) + show(p) + ", other: " + show(o));
    double pt = p0.mean, pb = pt - p0.height, ot = o0.mean, ob = ot - o0.height, dev = std::sqrt((double)p0.stdev*p0.stdev + (double)o0.stdev*o0.stdev), reach = gap + dev, apart = std::max(pb - ot, ob - pt);
    if(std::fabs(apart - reach) < E) c.discard();
    if(apart > reach) { CHECK(!r, "patches which are further apart than the gap size and their deviation were merged"); CHECK(sameGeom(p, p0) && sameGeom(o, o0), "patches which are not merged were changed"); c.label("apart"); return; }
    bool hh = p0.isHorizontal() && o0.isHorizontal();
    if(p0.isNegative() != o0.isNegative()) { c.label("conflict");
        if(p0.update_idx == o0.update_idx) { CHECK(!r && sameGeom(p, p0) && sameGeom(o, o0), "occupied and free patch of the same age were changed"); return; }
        bool po = p0.update_idx < o0.update_idx; const P &old0 = po ? p0 : o0, &new0 = po ? o0 : p0; const P &od = po ? p : o, &nw = po ? o : p; c.nontrivial();
        double nt = new0.mean, nb = nt - new0.height, t = old0.mean, b = t - old0.height;
        bool encl = nt > t + E && nb < b - E, notEncl = nt < t - E || nb > b + E; if(!encl && !notEncl) c.label("touching");
        if(encl) CHECK(r, "the older patch, which is enclosed by the newer one, was kept"); if(notEncl) CHECK(!r, "an occupied and a free patch were merged although neither replaces the other");
        if(r) { CHECK_CLOSE(p.mean, nt, 0, E, "top of the newer patch"); CHECK_CLOSE(p.height, nt - nb, 0, E, "height of the newer patch"); CHECK(p.isNegative() == new0.isNegative() && p.isHorizontal() == new0.isHorizontal(), "type of the newer patch"); CHECK_EQ(p.update_idx, new0.update_idx, "age"); return; }
        CHECK(sameGeom(nw, new0), "the newer of an occupied and a free patch was changed"); CHECK(od.isNegative() == old0.isNegative() && od.isHorizontal() == old0.isHorizontal(), "type of the older patch was changed"); double t2 = od.mean, b2 = t2 - od.height;
        CHECK(od.height >= -E, "height of the older patch is negative"); CHECK(t2 <= t + E && b2 >= b - E, fmt("the older patch grew from %g..%g to %g..%g", b, t, b2, t2)); CHECK(std::min(t2, nt) - std::max(b2, nb) <= E, fmt("the older patch %g..%g still overlaps the newer one %g..%g", b2, t2, nb, nt)); if(std::min(t, nt) - std::max(b, nb) < -E) CHECK(std::fabs(t2 - t) < E && std::fabs(b2 - b) < E, "the older patch was cut although it does not overlap the newer one");
        if(old0.height > E && std::min(t, nt) - std::max(b, nb) > -E) { double keep = nt < t ? t - nt : nb > b ? nb - b : 0; CHECK_CLOSE(od.height, keep, 0, 2*E, "remaining height of the older patch"); }
        return; }
    CHECK(r, "patches within the gap size were not merged"); c.nontrivial(); common(p0, o0, p); CHECK_EQ(p.n, p0.n + o0.n, "number of measurements"); CHECK(sameGeom(o, o0), "the patch that was merged in was changed");
    double d = std::fabs(pt - ot); if(hh && std::fabs(d - th - dev) < E) c.discard();
    if(hh && d < th + dev) { c.label("fused"); double vp = (double)p0.stdev*p0.stdev, vo = (double)o0.stdev*o0.stdev, m, v; if(vp + vo == 0) { m = (pt + ot)/2; v = 0; } else { m = (pt*vo + ot*vp)/(vp + vo); v = vp*vo/(vp + vo); } CHECK(p.isHorizontal(), "the fusion of two surfaces is not a surface"); CHECK_CLOSE(p.mean, m, 1e-5, 1e-5, "fused mean"); CHECK_CLOSE(p.stdev, std::sqrt(v), 1e-4, 1e-5, "fused deviation"); CHECK_EQ(p.height, 0.0f, "height of a surface"); }
    else { c.label(p0.isNegative() ? "free union" : "vertical union"); CHECK(p0.isNegative() ? p.isNegative() : p.isVertical(), "type of the union"); CHECK_CLOSE(p.mean, std::max(pt, ot), 0, E, "top of the union"); CHECK_CLOSE(p.mean - p.height, std::min(pb, ob), 0, E, "bottom of the union"); if(std::fabs(pt - ot) > E) CHECK_CLOSE(p.stdev, pt > ot ? p0.stdev : o0.stdev, 1e-6, 0, "deviation of the top"); }
}
namespace {
struct M { double x, y, z, s; };
struct Ref { double W = 0, W2 = 0, zs = 0, mn = INFINITY, mx = -INFINITY; std::vector<M> v; std::vector<double> w; void add(const M& m, double f = 1) { double k = f/(m.s*m.s); v.push_back(m); w.push_back(k); W += k; W2 += k*k; zs += k*m.z; mn = std::min(mn, m.z); mx = std::max(mx, m.z); } double mean() const { return zs/W; } double scatter() const { double s = 0, mm = mean(); for(size_t i = 0; i < v.size(); i++) s += w[i]*(v[i].z - mm)*(v[i].z - mm); return s; } double zmag() const { return std::max(std::fabs(mn), std::fabs(mx)); } };
P mk(const M& m, bool plane) { P p = plane ? P(Eigen::Vector3f(m.x, m.y, m.z), m.s) : P(m.z, m.s); p.color[0] = p.color[1] = p.color[2] = 0; return p; }
// the measurements of a history: all within gap of each other
std::vector<M> history(Ctx& c, size_t n, double base, double spread, bool eq, double sl = 0, double sm = 0) { std::vector<M> v; double s0 = c.real(0.05, 0.5); for(size_t i = 0; i < n; i++) { M m; m.x = (float)c.real(0, 1); m.y = (float)c.real(0, 1); m.z = (float)(base + (spread > 0 ? c.signedReal(spread) : 0) + sl*m.x + sm*m.y); m.s = (float)(eq ? s0 : c.real(0.05, 0.5)); v.push_back(m); c.note(fmt("measurement at %g %g: %g stdev %g", m.x, m.y, m.z, m.s)); } return v; }
void cmpSum(const P& p, const Ref& r, const std::string& w) { double z = std::max(1.0, r.zmag()); CHECK_CLOSE(p.mean, r.mean(), 1e-5, 1e-5, w + ": mean"); CHECK_CLOSE(p.getWeight(), r.W, 1e-5, 0, w + ": weight"); CHECK_EQ(p.getMeasurementCount(), (float)r.v.size(), w + ": number of measurements"); CHECK(p.min == (float)r.mn && p.max == (float)r.mx, w + fmt(": range %g..%g instead of %g..%g", p.min, p.max, r.mn, r.mx));
    if(r.v.size() == 1) { CHECK_CLOSE(p.stdev, r.v[0].s, 1e-5, 0, w + ": deviation of a single measurement"); return; } double norm = r.W/(r.W*r.W - r.W2), var = std::max(1e-6, r.scatter()*norm - r.v.size()/r.W), tol = 4e-6*z*z*r.W*norm + 1e-5; CHECK(std::isfinite(p.stdev) && p.stdev > 0, w + ": deviation is not a positive number"); CHECK(std::fabs((double)p.stdev*p.stdev - var) <= tol + 1e-4*var, w + fmt(": variance %g instead of %g (scatter of the measurements less their own variance)", p.stdev*p.stdev, var)); }
}
PROP(sum, 4) {
    size_t n = c.range(1, 14); double base = c.chance(1, 3) ? 0 : c.signedReal(20), spread = c.real(0.01, 2), gap = 2*spread + 0.1; std::vector<M> v = history(c, n, base, spread, c.boolean()); if(n >= 3) c.nontrivial(); Ref r; P p = mk(v[0], false); r.add(v[0]); cmpSum(p, r, "single measurement");
    for(size_t i = 1; i < n; i++) { P o = mk(v[i], false), o0(o); CHECK(p.merge(o, 0.05, gap, MLSConfiguration::SUM), "a measurement within the gap size was not merged"); r.add(v[i]); cmpSum(p, r, fmt("after %zu measurements", i + 1)); }
    // the order and the grouping do not matter
    if(n >= 2) { size_t k = c.range(1, n - 1); P a = mk(v[k - 1], false), b = mk(v[n - 1], false); for(size_t i = k - 1; i-- > 0;) { P o = mk(v[i], false); a.merge(o, 0.05, gap, MLSConfiguration::SUM); } for(size_t i = n - 1; i-- > k;) { P o = mk(v[i], false); b.merge(o, 0.05, gap, MLSConfiguration::SUM); } bool s = c.boolean(); c.note(fmt("the first %zu and the others are merged separately", k)); P &x = s ? a : b, &y = s ? b : a; CHECK(x.merge(y, 0.05, gap, MLSConfiguration::SUM), fmt("patches covering %g..%g and %g..%g were not merged with gap size %g", x.min, x.max, y.min, y.max, gap)); cmpSum(x, r, "merged halves"); }
    // a measurement further away than the gap size stays apart
    double away = c.real(0.01, 3); M m = v[0]; m.z = c.boolean() ? r.mx + gap + away : r.mn - gap - away; P o = mk(m, false), q(p), o0(o); CHECK(!q.merge(o, 0.05, gap, MLSConfiguration::SUM), "a measurement further away than the gap size was merged"); cmpSum(q, r, "after a measurement that is too far away"); CHECK(sameGeom(o, o0), "a measurement which is too far away was changed");
    // scaling the weight of the past
    if(c.boolean()) { double f = c.real(0.1, 3); c.note(fmt("scale weight by %g", f)); P q(p); q.scaleWeight(f); CHECK(q.mean == p.mean && q.stdev == p.stdev, "scaling the weight changes mean or deviation"); CHECK_CLOSE(q.getWeight(), f*p.getWeight(), 1e-5, 0, "scaled weight"); M m = v[0]; m.z = r.mean() + c.signedReal(spread); P o = mk(m, false); double w = 1/(m.s*m.s); if(q.merge(o, 0.05, gap, MLSConfiguration::SUM)) CHECK_CLOSE(q.mean, (f*r.zs + w*m.z)/(f*r.W + w), 1e-5, 1e-5, "mean after scaling the weight of the past"); }
}
PROP(overlap, 1) {
    // patches that cover a range: joined exactly if the ranges are closer than the gap size
    bool plane = c.boolean(); double a1 = snap(c, 3), a2 = a1 + c.real(0, 3), b1 = snap(c, 3), b2 = b1 + c.real(0, 3), gap = c.real(0.05, 2), s = 0.1; M m{0.2, 0.3, a1, s}; auto range = [&](double l, double h) { M m{0.2, 0.3, l, s}; P p = mk(m, plane); m.z = h; m.x = 0.7; P o = mk(m, plane); p.merge(o, 1, 1e3, plane ? MLSConfiguration::SLOPE : MLSConfiguration::SUM); return p; };
    P p = range(a1, a2), o = range(b1, b2); c.note(fmt("%g..%g and %g..%g, gap size %g", p.min, p.max, o.min, o.max, gap)); double apart = std::max(p.min - o.max, o.min - p.max); if(std::fabs(apart - gap) < 1e-4) c.discard(); P p0(p); bool r = p.merge(o, 0.05, gap, plane ? MLSConfiguration::SLOPE : MLSConfiguration::SUM); CHECK_EQ(r, apart < gap, fmt("patches covering %g..%g and %g..%g with gap size %g merged", p0.min, p0.max, o.min, o.max, gap)); if(r) { c.nontrivial(); CHECK(p.min == std::min(p0.min, o.min) && p.max == std::max(p0.max, o.max), "range of the merged patch"); CHECK_EQ(p.n, 4.0f, "number of measurements"); }
}
PROP(slope, 3) {
    size_t n = c.range(1, 12); bool exact = c.boolean(); double base = c.signedReal(3), sl = c.signedReal(1.5), sm = c.signedReal(1.5), noise = exact ? 0 : c.real(0.01, 0.3), gap = 8; std::vector<M> v = history(c, n, base, noise, true, sl, sm); if(n >= 4) c.nontrivial(); P p = mk(v[0], true); Ref r; r.add(v[0]);
    for(size_t i = 1; i < n; i++) { P o = mk(v[i], true); CHECK(p.merge(o, 0.05, gap, MLSConfiguration::SLOPE), "a measurement within the gap size was not merged"); r.add(v[i]); }
    CHECK_EQ(p.getMeasurementCount(), (float)n, "number of measurements"); CHECK_CLOSE(p.getWeight(), r.W, 1e-5, 0, "weight"); CHECK(p.min == (float)r.mn && p.max == (float)r.mx, "range");
    if(n <= 3) { cmpSum(p, r, "up to three measurements"); return; }
    Eigen::MatrixXd A(n, 3); Eigen::VectorXd b(n); for(size_t i = 0; i < n; i++) { A.row(i) << v[i].x, v[i].y, 1; b(i) = v[i].z; } Eigen::Matrix3d N = A.transpose()*A/n; Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(N); double cond = es.eigenvalues()(2)/std::max(1e-300, es.eigenvalues()(0)); if(!(cond < 2000)) { c.label("degenerate positions"); c.discard(); }
    Eigen::Vector3d k = N.ldlt().solve(A.transpose()*b/n); double tol = 2e-6*cond*std::max(1.0, r.zmag()) + 1e-4; c.note(fmt("plane %g %g %g, condition %g", k(0), k(1), k(2), cond)); c.label(exact ? "exact plane" : "noisy plane"); CHECK_CLOSE(p.mean, k(2), 0, tol, "height of the plane at the corner of the cell");
    for(int i = 0; i < 3; i++) { double x = c.real(0, 1), y = c.real(0, 1); CHECK_CLOSE(p.getHeight(Eigen::Vector2f(x, y)), k(0)*x + k(1)*y + k(2), 0, 3*tol, "height of the plane in the cell"); }
    Eigen::Vector3d nrm = Eigen::Vector3d(-k(0), -k(1), 1).normalized(); CHECK((p.getNormal().cast<double>() - nrm).norm() < 3*tol, "normal of the plane"); CHECK_CLOSE(std::cos(p.getSlope()), nrm.z(), 0, 3*tol, "slope of the plane");
    double res = (A*k - b).squaredNorm(), var = std::max(1e-6, res/(n - 3)), vt = 1e-5*std::max(1.0, r.zmag()*r.zmag())*n/(n - 3.0) + 2e-3*var; CHECK(std::fabs((double)p.stdev*p.stdev - var) <= vt, fmt("variance %g about the plane instead of %g", p.stdev*p.stdev, var));
}
PROP(view, 1) {
    P p = arb(c, types[c.draw(3)], 3), o = arb(c, types[c.draw(3)], 3); double k = c.real(0, 4); c.note(show(p)); double b = p.mean - p.height; CHECK_CLOSE(p.getMaxZ(k), p.mean + k*p.stdev, 1e-5, 1e-5, "upper end"); CHECK_CLOSE(p.getMinZ(k), b - k*p.stdev, 1e-5, 1e-5, "lower end"); CHECK_EQ(p < o, p.mean < o.mean, "order"); c.nontrivial();
    P q(p); q.setColor(p.getColor()); CHECK(std::equal(q.color, q.color + 3, p.color), fmt("color %d %d %d set from its own value becomes %d %d %d", p.color[0], p.color[1], p.color[2], q.color[0], q.color[1], q.color[2]));
    CHECK_CLOSE(p.distance(o), o.distance(p), 1e-5, 1e-5, "distance seen from the other patch"); if(p.isHorizontal() || o.isHorizontal()) { double ob = o.mean - o.height, d = std::max(0.0, std::max(b - o.mean, ob - (double)p.mean)); CHECK_CLOSE(p.distance(o), d, 1e-5, 1e-5, "distance of a surface"); }
    { // storage of earlier use must not shine through
      alignas(P) unsigned char m1[sizeof(P)], m2[sizeof(P)]; memset(m1, 0x11, sizeof m1); memset(m2, 0xee, sizeof m2); float z = p.mean, s = 0.1; P *a = new(m1) P(z, s), *b = new(m2) P(z, s); CHECK(sameGeom(*a, *b), "two patches constructed from the same values differ: " + show(*a) + ", " + show(*b)); Eigen::Vector3f v(0.1, 0.2, z); a = new(m1) P(v, s); b = new(m2) P(v, s); CHECK(sameGeom(*a, *b), "two patches constructed from the same point differ: " + show(*a) + ", " + show(*b)); }
}
