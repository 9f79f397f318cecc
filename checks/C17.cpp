//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 60000
//@ thorough: 2500000
// Grid geometry: cells and positions, extents, frames, alignment, cells under rectangles.
#include "envutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <memory>
using namespace pbt; using namespace envire;
namespace pbt { const char* RULE = "Grids of 0 to 40 by 0 to 40 cells with equal and unequal scales (0.001 to 100) and offsets, of every registered cell type: positions on cell borders, inside cells, just and far outside (up to infinity and not-a-number) are looked up, also through chains of frames; pairs of grids in related frames are compared for alignment; rectangles of all orientations (exact multiples of 90 degrees, nearly axis aligned, arbitrary), thin and wide, inside and across the border, are rasterized, singly and as an inner and an outer one. The oracle is the cell geometry computed from the parameters the grid was made with. Non-trivial: a position inside the grid, an aligned pair of grids, or a rectangle inside the grid that covers more than one cell."; }
namespace {
struct Geo { size_t nx, ny; double sx, sy, ox, oy; };
double scale(Ctx& c) { switch(c.draw(4)) { case 0: return 1; case 1: return c.pick(std::vector<double>{0.1, 0.25, 0.5, 0.05, 2, 3, 0.001, 100}); case 2: return c.real(0.01, 2); default: return c.real(0.5, 20); } }
double offset(Ctx& c, double s) { switch(c.draw(4)) { case 0: return 0; case 1: return s*c.rangeC(-60, 60); case 2: return c.signedReal(10); default: return c.signedReal(1000); } }
Geo geo(Ctx& c, size_t lo = 0) { Geo g; g.nx = c.range(lo, c.boolean() ? 6 : 40); g.ny = c.range(lo, c.boolean() ? 6 : 40); g.sx = scale(c); g.sy = c.chance(1, 3) ? scale(c) : g.sx; g.ox = offset(c, g.sx); g.oy = offset(c, g.sy); c.note(fmt("grid %zux%zu scale %.17g %.17g offset %.17g %.17g", g.nx, g.ny, g.sx, g.sy, g.ox, g.oy)); return g; }
GridBase* make(Ctx& c, const Geo& g) { switch(c.draw(5)) { case 0: return new Grid<double>(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); case 1: return new ElevationGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); case 2: return new Grid<uint8_t>(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); case 3: return new TraversabilityGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); default: return new Grid<int32_t>(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); } }
// a coordinate, in cells
double coord(Ctx& c, size_t n) {
    switch(c.draw(9)) { case 0: return c.range(0, n); case 1: return c.range(0, n) + c.pick(std::vector<double>{1e-9, -1e-9, 1e-13, -1e-13}); case 2: case 3: case 4: return c.unit()*n; case 5: return c.signedReal(2.0*n + 3); case 6: return c.pick(std::vector<double>{1e9, -1e9, 4294967296.0, 4294967297.5, -4294967295.5, 9.3e18, -9.3e18, 18446744073709551616.0, 2e19, 4e19, 1e30, -1e30, 1e300, -1e300}); case 7: return c.pick(std::vector<double>{INFINITY, -INFINITY, NAN}); default: return c.pick(std::vector<double>{-0.5, -1, -1.5, -1e-7, 0.5}) + (c.boolean() ? n : 0); } }
// where the position lies relative to a dimension: 1 inside cell k, 0 outside, -1 too close to call
int where(double x, size_t n, double s, double o, size_t& k, double& frac, double& tol) {
    if(std::isnan(x) || std::isinf(x)) return 0; long double t = ((long double)x - o)/s; tol = 1e-12*(fabs(x) + fabs(o))/s + 1e-14*(double)fabsl(t) + 1e-15; if(t > 1e18L || t < -1e18L) return 0;
    long double r = roundl(t); bool edge = fabsl(t - r) < tol; if(edge && r >= 0 && r <= n) { k = (size_t)r; frac = 0; return -1; } long double f = floorl(t); if(f < 0 || f >= n) return 0; k = (size_t)f; frac = (double)(t - f)*s; return 1; }
const size_t UNSET = 0xdeadbeef;
}
PROP(cells, 4) {
    Geo g = geo(c); std::unique_ptr<GridBase> gp(make(c, g)); const GridBase& m = *gp;
    CHECK_EQ(m.getCellSizeX(), g.nx, "cells in x"); CHECK_EQ(m.getCellSizeY(), g.ny, "cells in y"); CHECK_EQ(m.getWidth(), g.nx, "width"); CHECK_EQ(m.getHeight(), g.ny, "height");
    CHECK_EQ(m.getScaleX(), g.sx, "scale"); CHECK_EQ(m.getScaleY(), g.sy, "scale"); CHECK_EQ(m.getOffsetX(), g.ox, "offset"); CHECK_EQ(m.getOffsetY(), g.oy, "offset");
    CHECK_CLOSE(m.getSizeX(), g.nx*g.sx, 1e-12, 0, "size"); CHECK_CLOSE(m.getSizeY(), g.ny*g.sy, 1e-12, 0, "size");
    double ax = 1e-12*(fabs(g.ox) + g.nx*g.sx), ay = 1e-12*(fabs(g.oy) + g.ny*g.sy);
    CHECK_CLOSE(m.getCenterPoint().x(), g.ox + 0.5*g.nx*g.sx, 0, ax, "center"); CHECK_CLOSE(m.getCenterPoint().y(), g.oy + 0.5*g.ny*g.sy, 0, ay, "center");
    { GridBase::Extents e = m.getExtents(); CHECK_CLOSE(e.min().x(), g.ox, 0, ax, "extents"); CHECK_CLOSE(e.min().y(), g.oy, 0, ay, "extents"); CHECK_CLOSE(e.max().x(), g.ox + g.nx*g.sx, 0, ax, "extents"); CHECK_CLOSE(e.max().y(), g.oy + g.ny*g.sy, 0, ay, "extents"); }
    for(int i = 0; i < 6; i++) {
        double x = g.ox + coord(c, g.nx)*g.sx, y = g.oy + coord(c, g.ny)*g.sy; size_t kx = 0, ky = 0; double fx = 0, fy = 0, tx = 0, ty = 0; int wx = where(x, g.nx, g.sx, g.ox, kx, fx, tx), wy = where(y, g.ny, g.sy, g.oy, ky, fy, ty);
        size_t xi = UNSET, yi = UNSET; double xm = -7, ym = -7; bool r = m.toGrid(x, y, xi, yi, xm, ym); std::string at = fmt("position %.17g %.17g -> %d cell %zu %zu", x, y, (int)r, xi, yi);
        size_t xi2 = UNSET, yi2 = UNSET; CHECK_EQ(m.toGrid(x, y, xi2, yi2), r, at); GridBase::Position p(UNSET, UNSET); CHECK_EQ(m.toGrid(GridBase::Point2D(x, y), p), r, at); size_t xi3 = UNSET, yi3 = UNSET; CHECK_EQ(m.toGrid(Eigen::Vector3d(x, y, 3), xi3, yi3), r, at);
        CHECK(xi2 == xi && yi2 == yi && p.x == xi && p.y == yi && xi3 == xi && yi3 == yi, "lookups of one position disagree: " + at);
        if(wx == 0 || wy == 0) { CHECK(!r, "a position outside of the grid was found: " + at); }
        else if(wx == 1 && wy == 1) { CHECK(r, "a position in the grid was not found: " + at); c.nontrivial(); }
        if(!r) { CHECK(xi == UNSET && yi == UNSET, "a failed lookup set the cell: " + at); continue; }
        CHECK(xi < g.nx && yi < g.ny, "cell outside of the grid: " + at); CHECK(wx == 1 ? xi == kx : xi == kx || xi + 1 == kx, "wrong cell: " + at); CHECK(wy == 1 ? yi == ky : yi == ky || yi + 1 == ky, "wrong cell: " + at);
        if(wx == 1) CHECK_CLOSE(xm, fx, 0, 4*tx*g.sx, "position in the cell: " + at); if(wy == 1) CHECK_CLOSE(ym, fy, 0, 4*ty*g.sy, "position in the cell: " + at);
        CHECK(m.contains(p), at);
    }
    for(int i = 0; i < 3; i++) {
        size_t xi = c.boolean() && g.nx ? c.draw(g.nx) : c.draw(50), yi = c.boolean() && g.ny ? c.draw(g.ny) : c.draw(50); bool in = xi < g.nx && yi < g.ny; CHECK_EQ(m.contains(GridBase::Position(xi, yi)), in, fmt("contains %zu %zu", xi, yi));
        double x, y; m.fromGrid(xi, yi, x, y); CHECK_CLOSE(x, g.ox + (xi + 0.5)*g.sx, 1e-13, ax, "cell center"); CHECK_CLOSE(y, g.oy + (yi + 0.5)*g.sy, 1e-13, ay, "cell center");
        GridBase::Point2D q; m.fromGrid(GridBase::Position(xi, yi), q); CHECK(q.x() == x && q.y() == y && m.fromGrid(GridBase::Position(xi, yi)) == q && m.fromGrid(xi, yi) == Eigen::Vector3d(x, y, 0), "cell centers disagree");
        size_t bx, by; if(fabs(g.ox) < 1e6*g.sx && fabs(g.oy) < 1e6*g.sy) { CHECK_EQ(m.toGrid(x, y, bx, by), in, "the center of a cell is in the grid exactly if the cell is"); if(in) CHECK(bx == xi && by == yi, "the center of a cell is in another cell"); }
    }
    CHECK(!m.contains(GridBase::Position(g.nx, 0)) && !m.contains(GridBase::Position(0, g.ny)) && !m.contains(GridBase::Position((size_t)-1, 0)), "contains");
    GridBase::Position a(c.draw(4), c.draw(4)), b(c.draw(4), c.draw(4)); bool lt = a.x != b.x ? a.x < b.x : a.y < b.y; CHECK_EQ(a < b, lt, "order of positions"); CHECK_EQ(a == b, a.x == b.x && a.y == b.y, "equal positions"); CHECK_EQ(a != b, !(a.x == b.x && a.y == b.y), "unequal positions");
}
PROP(frames, 2) {
    eu::Quiet q; Geo g = geo(c, 1); Environment env; std::vector<FrameNode*> f(1, env.getRootNode()); std::vector<Eigen::Affine3d> w(1, Eigen::Affine3d::Identity()); size_t n = c.range(1, 5);
    for(size_t i = 0; i < n; i++) { size_t p = c.draw(f.size()); Eigen::Affine3d t = eu::randomPose(c); FrameNode* k = new FrameNode(t); env.addChild(f[p], k); f.push_back(k); w.push_back(w[p]*t); }
    size_t mi = c.draw(f.size()), fi = c.draw(f.size()); GridBase* m = make(c, g); env.attachItem(m, f[mi]); Eigen::Affine3d t = w[fi].inverse()*w[mi]; // map -> frame
    for(int i = 0; i < 4; i++) {
        size_t xi = c.draw(g.nx), yi = c.draw(g.ny); Eigen::Vector3d e = t*Eigen::Vector3d(g.ox + (xi + 0.5)*g.sx, g.oy + (yi + 0.5)*g.sy, 0), r = m->fromGrid(xi, yi, f[fi]); CHECK((e - r).norm() < 1e-10*(1 + e.norm() + fabs(g.ox) + fabs(g.oy)), "cell center in a frame " + vec(r) + " expected " + vec(e));
        Eigen::Vector3d local(g.ox + (xi + c.real(0.02, 0.98))*g.sx, g.oy + (yi + c.real(0.02, 0.98))*g.sy, c.signedReal(5)), pos = t*local; size_t bx, by; double big = fabs(g.ox) + fabs(g.oy) + 100; if(1e-10*big > 0.01*std::min(g.sx, g.sy)) continue;
        CHECK(m->toGrid(pos, bx, by, f[fi]), "a position in a frame was not found"); CHECK(bx == xi && by == yi, fmt("wrong cell for a position in a frame: %zu %zu instead of %zu %zu", bx, by, xi, yi)); c.nontrivial();
        Eigen::Vector3d out(local); out[c.draw(2)] += (c.boolean() ? 1 : -1)*(std::max(g.nx*g.sx, g.ny*g.sy) + 1); CHECK(!m->toGrid(t*out, bx, by, f[fi]), "a position outside was found in a frame");
    }
}
PROP(create, 1) {
    eu::Quiet q; Geo g = geo(c); const char* names[] = {"envire::Grid_d", "envire::Grid_f", "envire::Grid_h", "envire::Grid_s", "envire::Grid_t", "envire::Grid_i", "envire::Grid_j", "envire::ElevationGrid", "envire::OccupancyGrid", "envire::ConfidenceGrid", "envire::DistanceGrid", "envire::ImageRGB24", "envire::TraversabilityGrid"};
    std::string n = names[c.draw(13)]; c.note(n); GridBase::Ptr p = GridBase::create(n, g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); CHECK(p, "no grid created"); CHECK_EQ(p->getClassName(), n, "class"); c.label(n);
    CHECK_EQ(p->getCellSizeX(), g.nx, "cells"); CHECK_EQ(p->getCellSizeY(), g.ny, "cells"); CHECK_EQ(p->getScaleX(), g.sx, "scale"); CHECK_EQ(p->getScaleY(), g.sy, "scale"); CHECK_EQ(p->getOffsetX(), g.ox, "offset"); CHECK_EQ(p->getOffsetY(), g.oy, "offset"); CHECK(!p->isAttached(), "attached");
    Environment env; env.setFrameNode(p.get(), env.getRootNode()); CHECK(p->isAttached() && p->getFrameNode() == env.getRootNode(), "attaching a created grid"); if(g.nx && g.ny) c.nontrivial();
}
PROP(alignment, 2) {
    eu::Quiet q; Geo g = geo(c, 1), h = g; double s = std::min(g.sx, g.sy); if(fabs(g.ox) > 1e4*s || fabs(g.oy) > 1e4*s) { g.ox = h.ox = 0; g.oy = h.oy = 0; }
    Environment env; FrameNode* base = new FrameNode(eu::randomPose(c)); env.addChild(env.getRootNode(), base); FrameNode *fa = base, *fb = base; Eigen::Affine3d rel = Eigen::Affine3d::Identity(); // b -> a
    // the second grid: moved by whole cells, by a fraction, rotated, or with other parameters; "shift" is its cell coordinate in the first grid
    bool sameDim = true, sameScale = true, sameOffset = true;
    if(c.chance(1, 4)) { if(c.boolean()) h.nx = c.range(1, 40); else h.ny = c.range(1, 40); sameDim = h.nx == g.nx && h.ny == g.ny; }
    if(c.chance(1, 6)) { double k = c.pick(std::vector<double>{2, 0.5, 1.1, 0.9}); if(c.boolean()) h.sx *= k; else h.sy *= k; sameScale = false; }
    Eigen::Vector2d shift(0, 0); switch(c.draw(4)) { case 0: break; case 1: shift = Eigen::Vector2d(c.rangeC(-30, 30), c.rangeC(-30, 30)); break; case 2: shift = Eigen::Vector2d(c.rangeC(-3, 3) + c.signedReal(0.49), c.rangeC(-3, 3)); if(c.boolean()) std::swap(shift.x(), shift.y()); break; default: shift = Eigen::Vector2d(c.signedReal(0.49), c.signedReal(0.49)); }
    double ang = 0; if(c.chance(1, 4)) ang = c.boolean() ? c.signedReal(0.05) : c.signedReal(M_PI);
    Eigen::Affine3d mv = Eigen::Affine3d::Identity(); mv.linear() = Eigen::AngleAxisd(ang, Eigen::Vector3d::UnitZ()).toRotationMatrix(); bool viaOffset = ang == 0 && c.chance(1, 4);
    if(viaOffset) { h.ox += shift.x()*g.sx; h.oy += shift.y()*g.sy; sameOffset = h.ox == g.ox && h.oy == g.oy; } else { mv.translation() = Eigen::Vector3d(shift.x()*g.sx, shift.y()*g.sy, 0); fb = new FrameNode(mv); if(c.boolean()) { env.addChild(base, fb); } else { fb->setTransform(Eigen::Affine3d(base->getTransform())*mv); env.addChild(env.getRootNode(), fb); } }
    GridBase *a = make(c, g), *b = make(c, h); env.attachItem(a, fa); env.attachItem(b, fb); c.note(fmt("second grid %zux%zu scale %g %g offset %g %g, moved by %g %g cells, turned by %g", h.nx, h.ny, h.sx, h.sy, h.ox, h.oy, shift.x(), shift.y(), ang));
    // oracle: displacement of the corners of b, in cells of a
    double maxd = 0, maxi = 0; Eigen::Vector2d ref; for(int i = 0; i < 4; i++) { double ix = i & 1 ? h.nx : 0, iy = i & 2 ? h.ny : 0; Eigen::Vector3d p = mv*Eigen::Vector3d(h.ox + ix*h.sx, h.oy + iy*h.sy, 0); Eigen::Vector2d d((p.x() - g.ox)/g.sx - ix, (p.y() - g.oy)/g.sy - iy); if(i == 0) ref = Eigen::Vector2d(rint(d.x()), rint(d.y())); maxd = std::max(maxd, d.cwiseAbs().maxCoeff()); maxi = std::max(maxi, (d - ref).cwiseAbs().maxCoeff()); }
    bool ca = a->isCellAlignedWith(*b), cb = b->isCellAlignedWith(*a);
    if(!sameScale) CHECK(!ca && !cb, "grids of different scales are cell aligned"); else if(maxi < 1e-8) { CHECK(ca && cb, "grids moved by whole cells are not cell aligned"); c.label("cell aligned"); c.nontrivial(); } else if(maxi > 0.01) CHECK(!ca && !cb, fmt("grids whose cells are displaced by %g of a cell are cell aligned", maxi));
    bool al = a->isAlignedWith(*b), bl = b->isAlignedWith(*a); double maxr = maxd; { Eigen::Affine3d inv = mv.inverse(); for(int i = 0; i < 4; i++) { double ix = i & 1 ? g.nx : 0, iy = i & 2 ? g.ny : 0; Eigen::Vector3d p = inv*Eigen::Vector3d(g.ox + ix*g.sx, g.oy + iy*g.sy, 0); maxr = std::max(maxr, std::max(fabs((p.x() - h.ox)/g.sx - ix), fabs((p.y() - h.oy)/g.sy - iy))); } }
    if(!sameScale || !sameDim) CHECK(!al && !bl, "grids of different dimensions are aligned");
    else if(maxd > 0.51 && maxr > 0.51 && (ang == 0)) CHECK(!al && !bl, fmt("grids displaced by %g cells are aligned", maxd));
    else if(maxd > 0.75) CHECK(!al && !bl, fmt("grids displaced by %g cells are aligned", maxd));
    else if(maxr < 0.49 && sameOffset) { CHECK(al && bl, fmt("grids displaced by %g cells are not aligned", maxr)); c.label("aligned"); c.nontrivial(); }
}
namespace {
// distance (in cells) by which the square of a cell and a convex quadrilateral overlap (>0) or are apart (<0), by the separating axis theorem
double depth(const Eigen::Vector2d* q, double x, double y) {
    Eigen::Vector2d s[4] = {{x, y}, {x + 1, y}, {x + 1, y + 1}, {x, y + 1}}; std::vector<Eigen::Vector2d> ax = {{1, 0}, {0, 1}}; for(int i = 0; i < 2; i++) { Eigen::Vector2d e = q[i + 1] - q[i]; if(e.norm() > 1e-9) ax.push_back(Eigen::Vector2d(-e.y(), e.x()).normalized()); }
    double best = 1e9; for(auto& a : ax) { double l0 = 1e9, h0 = -1e9, l1 = 1e9, h1 = -1e9; for(int i = 0; i < 4; i++) { double u = a.dot(q[i]), v = a.dot(s[i]); l0 = std::min(l0, u); h0 = std::max(h0, u); l1 = std::min(l1, v); h1 = std::max(h1, v); } best = std::min(best, std::min(h0 - l1, h1 - l0)); }
    return best; }
double angle(Ctx& c) { switch(c.draw(4)) { case 0: return c.rangeC(-4, 4)*M_PI/2; case 1: return c.rangeC(-8, 8)*M_PI/4; case 2: return c.rangeC(-2, 2)*M_PI/2 + c.signedReal(0.06); default: return c.signedReal(2*M_PI); } }
struct Rect { base::Pose2D pose; double lx, ly; };
void corners(const Geo& g, const Rect& r, Eigen::Vector2d* q) { double co = cos(r.pose.orientation), si = sin(r.pose.orientation); double dx[4] = {1, 1, -1, -1}, dy[4] = {-1, 1, 1, -1}; for(int i = 0; i < 4; i++) { double u = dx[i]*r.lx/2, v = dy[i]*r.ly/2; q[i] = Eigen::Vector2d((r.pose.position.x() + co*u - si*v - g.ox)/g.sx, (r.pose.position.y() + si*u + co*v - g.oy)/g.sy); } }
// 1 all corners inside, 0 one outside, -1 too close to call
int inside(const Geo& g, const Eigen::Vector2d* q) { int r = 1; for(int i = 0; i < 4; i++) { double d = std::min(std::min(q[i].x(), g.nx - q[i].x()), std::min(q[i].y(), g.ny - q[i].y())); if(d < -1e-6) return 0; if(d < 1e-6) r = -1; } return r; }
// the tolerance of the documented "aliasing artifacts at the border": the outline is drawn at a tenth of a cell
const double TOL = 0.25;
}
PROP(rectangles, 3) {
    Geo g = geo(c, 1); if(c.chance(3, 4)) g.sy = g.sx; if(fabs(g.ox) > 1e5*g.sx || fabs(g.oy) > 1e5*g.sy) g.ox = g.oy = 0; std::unique_ptr<GridBase> m(make(c, g)); bool two = c.boolean(); Rect r; double L = std::min(g.nx*g.sx, g.ny*g.sy);
    bool fit = c.chance(4, 5); r.pose.position = base::Vector2d(g.ox + c.real(fit ? 0.2 : -0.3, fit ? 0.8 : 1.3)*g.nx*g.sx, g.oy + c.real(fit ? 0.2 : -0.3, fit ? 0.8 : 1.3)*g.ny*g.sy); r.pose.orientation = angle(c); r.lx = c.real(0, fit ? 0.6 : 2)*L; r.ly = c.chance(1, 4) ? c.real(0, 0.1)*L : c.real(0, fit ? 0.6 : 2)*L;
    Rect in = r; if(two) { in.lx = r.lx*(c.boolean() ? c.unit() : c.pick(std::vector<double>{1, 0, 0.5})); in.ly = r.ly*(c.boolean() ? c.unit() : c.pick(std::vector<double>{1, 0, 0.5})); }
    c.note(fmt("rectangle at %.17g %.17g (cells %.6g %.6g) turned by %.17g size %.17g %.17g", r.pose.position.x(), r.pose.position.y(), (r.pose.position.x() - g.ox)/g.sx, (r.pose.position.y() - g.oy)/g.sy, r.pose.orientation, r.lx, r.ly) + (two ? fmt(" inner %.17g %.17g", in.lx, in.ly) : ""));
    Eigen::Vector2d q[4], qi[4]; corners(g, r, q); corners(g, in, qi); int w = inside(g, q); std::map<std::pair<size_t, size_t>, int> got, goti; auto cb = [&](size_t x, size_t y) { got[std::make_pair(x, y)]++; }; auto cbi = [&](size_t x, size_t y) { goti[std::make_pair(x, y)]++; };
    bool ret = two ? m->forEachInRectangles(r.pose, in.lx, in.ly, cbi, r.lx, r.ly, cb) : m->forEachInRectangle(r.pose, r.lx, r.ly, cb);
    { GridBase::Position a, b, d, e; int mult = c.pick(std::vector<int>{1, 10, 4}); bool rr = m->getRectPoints(r.pose, r.lx, r.ly, a, b, d, e, mult); if(w >= 0) CHECK_EQ(rr, w == 1, "getRectPoints"); if(rr) { GridBase::Position ps[4] = {a, b, e, d}; double cx = 0, cy = 0; for(int i = 0; i < 4; i++) { bool found = false; for(int j = 0; j < 4; j++) if(fabs(ps[i].x + 0.5 - q[j].x()*mult) < 0.51 && fabs(ps[i].y + 0.5 - q[j].y()*mult) < 0.51) found = true; CHECK(found, fmt("corner %d of the rectangle is in cell %zu %zu (times %d)", i, ps[i].x, ps[i].y, mult)); cx += ps[i].x + 0.5; cy += ps[i].y + 0.5; } CHECK(fabs(cx/4 - mult*(r.pose.position.x() - g.ox)/g.sx) < 0.51 && fabs(cy/4 - mult*(r.pose.position.y() - g.oy)/g.sy) < 0.51, "the corners of the rectangle are not around its center"); CHECK(a.x >= d.x && b.x >= e.x && b.y >= a.y && e.y >= d.y, "up is not in positive x, or right not in positive y"); } }
    if(w >= 0) CHECK_EQ(ret, w == 1, "whether the rectangle is inside the grid");
    if(!ret) { CHECK(got.empty() && goti.empty(), "cells were visited for a rectangle which is not inside the grid"); c.label("outside"); return; }
    if(got.size() + goti.size() > 1) c.nontrivial(); if(two) c.label("two rectangles");
    for(auto& k : got) { CHECK(k.first.first < g.nx && k.first.second < g.ny, fmt("cell %zu %zu outside of the grid", k.first.first, k.first.second)); CHECK_EQ(k.second, 1, fmt("visits of cell %zu %zu", k.first.first, k.first.second)); CHECK(!goti.count(k.first), fmt("cell %zu %zu was visited as inner and outer", k.first.first, k.first.second)); }
    for(auto& k : goti) { CHECK(k.first.first < g.nx && k.first.second < g.ny, fmt("inner cell %zu %zu outside of the grid", k.first.first, k.first.second)); CHECK_EQ(k.second, 1, fmt("visits of inner cell %zu %zu", k.first.first, k.first.second)); }
    for(size_t y = 0; y < g.ny; y++) for(size_t x = 0; x < g.nx; x++) { auto k = std::make_pair(x, y); double d = depth(q, x, y); std::string cell = fmt("cell %zu %zu (overlap %.3g)", x, y, d);
        bool any = got.count(k) || goti.count(k); if(d > TOL) CHECK(any, cell + " is under the rectangle but was not visited"); if(d < -TOL) CHECK(!any, cell + " is not under the rectangle but was visited");
        if(two) { double di = depth(qi, x, y); if(di > TOL) CHECK(goti.count(k), cell + fmt(" is under the inner rectangle (overlap %.3g) but was not visited as inner", di)); if(di < -TOL) CHECK(!goti.count(k), cell + fmt(" is not under the inner rectangle (overlap %.3g) but was visited as inner", di)); } }
}
