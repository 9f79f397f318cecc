//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 200000
//@ thorough: 6000000
// Bringing two multi-level surface grids together: merge and match under a transform.
#include "mlsutil.hpp"
using namespace mu;
namespace pbt { const char* RULE = "Two grids of up to 6x6 cells, of different size, scale and offset, with up to 25 patches each (surfaces, blocks, free space, colors and ages), related by a transform (identity, whole-cell shifts, vertical shifts, arbitrary rotations) and an offset patch with its own deviation and age, with and without cell index, in the Kalman, sum and slope update models. Where every patch has to go, and with which height, deviation and age, is computed independently from the geometry; cells reached from one source cell are compared patch by patch with a grid to which these measurements are given one by one. Non-trivial: at least two source patches land in the target grid."; }
namespace {
struct Two { std::unique_ptr<MLSGrid> a, b; Eigen::Affine3d t; };
bool near(double a, double b) { return std::fabs(a - b) <= 2e-4*std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
std::string differ(const P& a, const P& b, bool stat) { if(!near(a.mean, b.mean)) return "top"; if(!near(a.height, b.height)) return "height"; if(!near(a.stdev*a.stdev, b.stdev*b.stdev)) return "deviation"; if(a.n != b.n) return "number of measurements"; if(a.update_idx != b.update_idx) return "age"; if(typeOf(a) != typeOf(b)) return "type"; for(int i = 0; i < 3; i++) if(std::abs(a.color[i] - b.color[i]) > 1) return "color"; if(stat) { if(!near(a.min, b.min) || !near(a.max, b.max)) return "range"; if(!near(a.plane.n, b.plane.n)) return "weight"; if(!near(a.plane.z/a.plane.n, b.plane.z/b.plane.n)) return "weighted mean"; } return ""; }
Two make(Ctx& c, MLSConfiguration::update_model um, bool neg, bool index) {
    Two w; size_t nx = c.range(1, 6), ny = c.range(1, 6), mx = c.range(1, 6), my = c.range(1, 6); double s = c.real(0.1, 1), s2 = c.chance(1, 3) ? c.real(0.1, 1) : s; w.a.reset(new MLSGrid(nx, ny, s, s, c.boolean() ? 0 : c.signedReal(3), c.boolean() ? 0 : c.signedReal(3))); w.b.reset(new MLSGrid(mx, my, s2, s2, c.boolean() ? 0 : c.signedReal(3), c.boolean() ? 0 : c.signedReal(3)));
    for(MLSGrid* g : {w.a.get(), w.b.get()}) { g->getConfig().gapSize = c.real(0.05, 0.6); g->getConfig().thickness = c.real(0.01, 0.3); g->getConfig().updateModel = um; g->getConfig().useColor = c.boolean(); if(g == w.b.get() && index) g->initIndex(); else if(c.boolean()) g->initIndex(); size_t n = c.range(0, 25); for(size_t i = 0; i < n; i++) { P p = patch(c, um, 2, neg); g->insertTail(c.draw(g->getCellSizeX()), c.draw(g->getCellSizeY()), p); } if(c.chance(1, 4)) { size_t x = c.draw(g->getCellSizeX()), y = c.draw(g->getCellSizeY()); while(g->beginCell(x, y) != g->endCell()) g->erase(g->beginCell(x, y)); } }
    w.t.setIdentity(); switch(c.draw(5)) { case 0: break; case 1: w.t.translation() = Eigen::Vector3d(s*c.rangeC(-4, 4), s*c.rangeC(-4, 4), 0); break; case 2: w.t.translation().z() = c.signedReal(3); break; case 3: w.t.linear() = Eigen::AngleAxisd(c.signedReal(M_PI), Eigen::Vector3d::UnitZ()).toRotationMatrix(); w.t.translation() = Eigen::Vector3d(c.signedReal(1), c.signedReal(1), c.signedReal(2)); break; default: w.t = eu::randomPose(c, 2); }
    if(um == MLSConfiguration::SLOPE) w.t.linear().setIdentity();
    c.note(fmt("target %zux%zu scale %g offset %g %g, source %zux%zu scale %g offset %g %g, model %d", nx, ny, s, w.a->getOffsetX(), w.a->getOffsetY(), mx, my, s2, w.b->getOffsetX(), w.b->getOffsetY(), (int)um)); c.note("transform\n" + mat(w.t.matrix())); return w; }
// cell of the target for a cell of the source; false: outside
bool target(Ctx& c, const Two& w, size_t x, size_t y, size_t& m, size_t& n, double& z) { Eigen::Vector3d p((x + 0.5)*w.b->getScaleX() + w.b->getOffsetX(), (y + 0.5)*w.b->getScaleY() + w.b->getOffsetY(), 0); p = w.t*p; z = p.z(); double u = (p.x() - w.a->getOffsetX())/w.a->getScaleX(), v = (p.y() - w.a->getOffsetY())/w.a->getScaleY(); if(std::fabs(u - std::round(u)) < 1e-6 || std::fabs(v - std::round(v)) < 1e-6) c.discard(); if(u < 0 || v < 0 || u >= w.a->getCellSizeX() || v >= w.a->getCellSizeY()) return false; m = u; n = v; return true; }
}
PROP(merge, 3) {
    MLSConfiguration::update_model um = c.pick(std::vector<MLSConfiguration::update_model>{MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE}); Two w = make(c, um, c.chance(1, 3), false); P off(c.boolean() ? 0 : c.signedReal(1), c.boolean() ? 1e-9 : c.real(0.01, 0.5)); off.update_idx = c.draw(5); if(um != MLSConfiguration::KALMAN) off.stdev = 0; c.note(fmt("offset %g stdev %g age %zu", off.mean, off.stdev, off.update_idx));
    Content sb = content(*w.b), sa = content(*w.a); size_t by = w.b->getCellSizeY(), ay = w.a->getCellSizeY(); MLSGrid ref(*w.a); std::map<size_t, std::set<size_t>> from; std::map<size_t, double> add; size_t landed = 0; bool neg = false; for(auto& v : sa) for(auto& p : v) neg = neg || p.isNegative();
    for(size_t i = 0; i < sb.size(); i++) { if(sb[i].empty()) continue; size_t m, n; double z; if(!target(c, w, i/by, i%by, m, n, z)) continue; for(auto& q : sb[i]) { P p(q); float dz = off.mean + z; p.mean += dz; p.stdev = std::sqrt(p.stdev*p.stdev + off.stdev*off.stdev); p.update_idx = off.update_idx; p.min += dz; p.max += dz; p.plane.zz += 2*dz*p.plane.z + dz*dz*p.plane.n; p.plane.z += dz*p.plane.n; p.plane.xz += dz*p.plane.x; p.plane.yz += dz*p.plane.y; from[m*ay + n].insert(i); add[m*ay + n] += p.n; ref.updateCell(m, n, p); landed++; neg = neg || p.isNegative(); } }
    c.note(fmt("%zu patches land in the target", landed)); if(landed >= 2) c.nontrivial(); c.label(fmt("model %d", (int)um)); bool ca = w.a->getConfig().useColor, cb = w.b->getConfig().useColor; w.a->merge(*w.b, w.t, off); CHECK_EQ(w.a->getConfig().useColor, ca || cb, "use of color after the merge"); cmp(content(*w.b), sb, by, "the source grid after the merge"); Content ra = content(*w.a), rr = content(ref); CHECK_EQ(w.a->getCellCount(), count(ra), "number of patches");
    for(size_t i = 0; i < ra.size(); i++) { std::string at = fmt("cell %zu %zu", i/ay, i%ay); if(!from.count(i)) { CHECK(sameCell(ra[i], sa[i]), at + ", where no patch of the source lands, was changed from " + show(sa[i]) + "\n to " + show(ra[i])); continue; } if(!neg) { double a = 0, b = 0; for(auto& p : ra[i]) a += p.n; for(auto& p : sa[i]) b += p.n; CHECK_EQ(a, b + add[i], at + ": number of measurements"); }
        if(from[i].size() > 1) { c.label("several source cells"); continue; } if(ra[i].size() != rr[i].size()) FAIL(at + " has " + show(ra[i]) + "\n instead of " + show(rr[i])); for(size_t j = 0; j < ra[i].size(); j++) { std::string d = differ(ra[i][j], rr[i][j], um != MLSConfiguration::KALMAN); if(!d.empty()) FAIL(at + ": " + d + " of a patch: " + show(ra[i][j]) + "\n instead of " + show(rr[i][j])); } }
}
PROP(match, 2) {
    Two w = make(c, MLSConfiguration::KALMAN, c.chance(1, 2), true); P off(c.boolean() ? 0 : c.signedReal(1), c.boolean() ? 1e-9 : c.real(0.01, 0.5)); double sigma = c.real(0.2, 4); c.note(fmt("offset %g stdev %g, %g sigma", off.mean, off.stdev, sigma)); Content sb = content(*w.b), sa = content(*w.a); size_t by = w.b->getCellSizeY(), ay = w.a->getCellSizeY(), n = 0, lo = 0, hi = 0;
    for(size_t i = 0; i < sb.size(); i++) { if(sb[i].empty()) continue; size_t m, k; double z; if(!target(c, w, i/by, i%by, m, k, z)) continue; n++; bool l = false, h = false; for(auto& q : sb[i]) { P p(q); p.mean += off.mean + z; double s2 = (double)p.stdev*p.stdev + (double)off.stdev*off.stdev; for(auto& t : sa[m*ay + k]) if(!t.isNegative()) { double d = t.distance(p), lim = std::sqrt(s2 + (double)t.stdev*t.stdev)*sigma; l = l || d < lim - 1e-4; h = h || d < lim + 1e-4; } } lo += l; hi += h; }
    if(n >= 2) c.nontrivial(); float r = w.a->match(*w.b, w.t, off, 1, sigma); c.note(fmt("%zu cells, %zu to %zu match, result %g", n, lo, hi, r)); if(n == 0) CHECK_EQ(r, 1.0f, "match without common cells"); else CHECK(r >= lo/(double)n - 1e-5 && r <= hi/(double)n + 1e-5, fmt("match is %g, but %zu of %zu cells match", r, lo, n)); if(hi == lo && n) c.label(lo == n ? "all" : lo == 0 ? "none" : "some"); cmp(content(*w.b), sb, by, "the source grid"); cmp(content(*w.a), sa, ay, "the target grid");
    float k = w.a->match(*w.b, w.t, off, c.range(2, 5), sigma); CHECK(k >= 0 && k <= 1, "match of a sample is not a ratio");
}
