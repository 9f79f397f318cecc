//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/maps/MLSMap.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/tools/PlyFile.cpp src/tools/BresenhamLine.cpp src/operators/MLSToGrid.cpp src/operators/MLSSlope.cpp src/operators/GridFloatToMLS.cpp src/operators/MergeMLS.cpp src/operators/MLSToPointCloud.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 200000
//@ thorough: 4000000
// Operators that turn multi-level surface grids into other maps and back.
#include "mlsutil.hpp"
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/MergeMLS.hpp>
#include <envire/operators/MLSToPointCloud.hpp>
using namespace mu;
namespace pbt { const char* RULE = "Multi-level surface grids of up to 8 x 8 cells with up to three patches of all kinds per cell, elevation grids with bands, cells without data and both number types; grids of different layouts and resolutions anywhere in the world (shifted and turned). Highest surface, slope and step, merging of several grids and maps in both modes, making a grid of elevations and a point cloud of a grid are compared with a direct evaluation cell by cell; the operators run again after the input has changed. Non-trivial: at least four cells with content, of which one lies at another place in the output, or (slope) a cell with a known slope."; }
namespace {
Eigen::Affine3d yaw(Ctx& c, double mag) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); if(c.boolean()) t.linear() = Eigen::AngleAxisd(c.boolean() ? c.rangeC(-2, 2)*M_PI/2 : c.signedReal(M_PI), Eigen::Vector3d::UnitZ()).toRotationMatrix(); t.translation() = Eigen::Vector3d(c.signedReal(mag), c.signedReal(mag), c.signedReal(1)); return t; }
Eigen::Affine3d toWorld(const FrameNode* f) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); for(; f && f->getParent(); f = f->getParent()) t = Eigen::Affine3d(f->getTransform())*t; return t; }
FrameNode* frame(Ctx& c, Environment& e, double mag, bool tilt = false) { if(c.chance(1, 3)) return e.getRootNode(); FrameNode* f = new FrameNode(tilt ? eu::randomPose(c, mag) : yaw(c, mag)); e.addChild(e.getRootNode(), f); return f; }
MLSGrid* grid(Ctx& c, size_t mx = 8) { return new MLSGrid(c.range(1, mx), c.range(1, mx), c.pick(std::vector<double>{1, 0.5, 0.3}), c.pick(std::vector<double>{1, 0.5, 0.4}), c.boolean() ? 0 : c.signedReal(4), c.boolean() ? 0 : c.signedReal(4)); }
struct Place { bool in, edge; size_t x, y; }; Place place(const GridBase& g, const Eigen::Vector3d& p) { double u = (p.x() - g.getOffsetX())/g.getScaleX(), v = (p.y() - g.getOffsetY())/g.getScaleY(); Place r; r.in = u >= 0 && v >= 0 && u < g.getCellSizeX() && v < g.getCellSizeY(); r.edge = fabs(u - round(u)) < 1e-6 || fabs(v - round(v)) < 1e-6; r.x = r.in ? (size_t)u : 0; r.y = r.in ? (size_t)v : 0; return r; }
Eigen::Vector3d centre(const GridBase& g, size_t x, size_t y, double z) { return Eigen::Vector3d((x + 0.5)*g.getScaleX() + g.getOffsetX(), (y + 0.5)*g.getScaleY() + g.getOffsetY(), z); }
const P* highest(const Cell& v) { const P* b = 0; for(auto& p : v) if(!b || b->mean < p.mean) b = &p; return b; }
}
PROP(highest, 2) {
    eu::Quiet q; Environment env; MLSGrid* g = grid(c); env.setFrameNode(g, env.getRootNode()); size_t nx = g->getCellSizeX(), ny = g->getCellSizeY(); Grid<double>* o = c.boolean() ? new ElevationGrid(nx, ny, g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY()) : new Grid<double>(nx, ny, g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY()); env.setFrameNode(o, env.getRootNode()); MLSToGrid* op = new MLSToGrid(); env.attachItem(op); op->setInput(g); std::string band = c.boolean() ? ElevationGrid::ELEVATION : "top"; if(band == "top" || c.boolean()) op->setOutput(o, band); else env.addOutput(op, o);
    if(c.chance(1, 10)) { c.label("other shape"); int k = c.draw(3); Grid<double>* d = new Grid<double>(k == 0 ? nx + 1 : nx, k == 1 ? ny + 1 : ny, k == 2 ? g->getScaleX()*2 : g->getScaleX(), g->getScaleY()); env.setFrameNode(d, env.getRootNode()); op->setOutput(d, band); CHECK_THROWS(op->updateAll(), "an output of another shape"); return; }
    auto& data = o->getGridData(band); std::vector<double> exp(nx*ny); for(size_t i = 0; i < exp.size(); i++) data.data()[i] = exp[i] = -100.0 - i; size_t filled = 0;
    for(size_t r = 0, n = c.range(1, 3); r < n; r++) { for(size_t i = 0, k = c.draw(2*nx*ny + 1); i < k; i++) g->insertHead(c.draw(nx), c.draw(ny), patch(c, MLSConfiguration::KALMAN, 3, true)); CHECK(op->updateAll(), "result of the operator"); filled = 0; for(size_t x = 0; x < nx; x++) for(size_t y = 0; y < ny; y++) { Cell v = cell((const MLSGrid&)*g, x, y); if(const P* p = highest(v)) { exp[y*nx + x] = p->mean; filled++; } CHECK_EQ(data[y][x], exp[y*nx + x], fmt("highest surface in cell %zu %zu of ", x, y) + show(v)); } }
    if(filled >= 4) c.nontrivial();
}
PROP(slope, 4) {
    eu::Quiet q; Environment env; MLSGrid* g = grid(c); env.setFrameNode(g, env.getRootNode()); size_t nx = g->getCellSizeX(), ny = g->getCellSizeY(); Grid<float>* o = new Grid<float>(nx, ny, g->getScaleX(), g->getScaleY()); env.setFrameNode(o, env.getRootNode());
    double thr = c.pick(std::vector<double>{0.25, 0.1, 1}); bool dev = false; uint32_t req = 0; int ws = 1; MLSSlope* op; switch(c.draw(3)) { case 0: op = new MLSSlope(); thr = 0.25; break; case 1: dev = c.boolean(); op = new MLSSlope(thr, dev); break; default: dev = c.boolean(); req = c.draw(4); op = new MLSSlope(thr, dev, req); } if(c.boolean()) { req = c.draw(4); op->setRequiredMeasurementsPerPatch(req); } if(c.chance(1, 3)) { ws = c.range(1, 2); op->setWindowSize(ws); } CHECK_EQ(op->getRequiredMeasurementsPerPatch(), req, "required measurements"); env.attachItem(op); env.addInput(op, g); env.addOutput(op, o); c.note(fmt("%zux%zu, threshold %g, stdev %d, required measurements %u, window %d", nx, ny, thr, (int)dev, req, ws));
    if(c.chance(1, 10)) { c.label("other shape"); int k = c.draw(3); Grid<float>* d = new Grid<float>(k == 0 ? nx + 1 : nx, k == 1 ? ny + 1 : ny, k == 2 ? g->getScaleX()*2 : g->getScaleX(), g->getScaleY()); env.setFrameNode(d, env.getRootNode()); op->Operator::setOutput(d); CHECK_THROWS(op->updateAll(), "an output of another shape"); return; }
    const double inf = std::numeric_limits<double>::infinity(); bool known = false;
    for(size_t r = 0, n = c.range(1, 2); r < n; r++) {
        int mode = c.draw(3); double a = c.signedReal(1), b = c.signedReal(1); uint32_t holes = c.draw(6); g->clear(); std::vector<const P*> top(nx*ny, nullptr); std::vector<Cell> cells(nx*ny); for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { if(c.draw(20) < holes) continue; P p(mode == 0 ? 1 : mode == 1 ? a*x*g->getScaleX() + b*y*g->getScaleY() : c.signedReal(0.5), c.real(0.001, 0.2)); p.n = c.range(1, 4); bool low = c.chance(1, 4); if(low && c.boolean()) { P l(p.mean - c.real(0.5, 3), 0.1); g->insertTail(x, y, l); } g->insertTail(x, y, p); if(low && c.boolean()) { P l(p.mean - c.real(0.5, 3), 0.1); l.n = 5; g->insertTail(x, y, l); } cells[y*nx + x] = cell((const MLSGrid&)*g, x, y); }
        for(size_t i = 0; i < nx*ny; i++) { top[i] = highest(cells[i]); if(top[i] && top[i]->n < req) top[i] = 0; }
        CHECK(op->updateAll(), "result of the operator"); auto& an = o->getGridData("mean_slope"); auto& ms = o->getGridData("max_step"); auto& cs = o->getGridData("corrected_max_step"); for(const char* b : {"mean_slope", "max_step", "corrected_max_step"}) CHECK(o->getNoData(b) == std::make_pair((float)-inf, true), "value of unknown cells");
        for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) {
            std::string w = fmt("cell %zu %zu: ", x, y); const P* t = top[y*nx + x]; bool border = !x || !y || x == nx - 1 || y == ny - 1; double step = -inf; int cnt = 0, pc = 0; Eigen::Matrix3d A = Eigen::Matrix3d::Zero(); Eigen::Vector3d bb = Eigen::Vector3d::Zero(); A(2, 2) = 1;
            if(t && !border) for(int dy = -ws; dy <= ws; dy++) for(int dx = -ws; dx <= ws; dx++) { long u = (long)x + dx, v = (long)y + dy; if((!dx && !dy) || u < 0 || v < 0 || u >= (long)nx || v >= (long)ny) continue; const P* o = top[v*nx + u]; if(!o) continue; double d = (double)o->mean - t->mean; if(abs(dx) < 2 && abs(dy) < 2) { cnt++; step = std::max(step, fabs(d) + (dev ? (double)o->stdev + t->stdev : 0)); } pc++; Eigen::Vector3d k(dx*g->getScaleX(), dy*g->getScaleY(), 1); A += k*k.transpose(); bb += k*d; }
            if(cnt < 5) { CHECK_EQ(ms[y][x], -inf, w + fmt("step with %d neighbours", cnt)); CHECK_EQ(cs[y][x], -inf, w + "corrected step"); } else { CHECK_CLOSE(ms[y][x], step, 1e-4, 1e-5, w + "largest step"); if(fabs(step - thr) > 1e-4) { if(step > thr) CHECK_EQ(cs[y][x], ms[y][x], w + "corrected step above the threshold"); else { CHECK(cs[y][x] <= ms[y][x] + 1e-5, w + fmt("corrected step %g larger than the step %g", cs[y][x], ms[y][x])); CHECK(cs[y][x] > -inf, w + "corrected step"); } } }
            if(pc < 5) { CHECK_EQ(an[y][x], -inf, w + fmt("slope with %d neighbours", pc)); continue; } Eigen::FullPivLU<Eigen::Matrix3d> lu(A); if(lu.rcond() < 1e-3) continue; Eigen::Vector3d f = lu.solve(bb); CHECK_CLOSE(an[y][x], atan(hypot(f.x(), f.y())), 1e-3, 2e-3, w + "slope"); known = true; } }
    if(known) c.nontrivial();
}
PROP(fromgrid, 2) {
    eu::Quiet q; Environment env; bool dbl = c.boolean(), nodata = c.boolean(), named = c.boolean(); size_t nx = c.range(1, 8), ny = c.range(1, 8); double sx = c.pick(std::vector<double>{1, 0.5, 0.1}), sy = c.pick(std::vector<double>{1, 0.5, 0.7}), ox = c.boolean() ? 0 : c.signedReal(3), oy = c.boolean() ? 0 : c.signedReal(3); GridBase* in; FrameNode* fi = frame(c, env, 2); Grid<double>* gd = 0; Grid<float>* gf = 0; if(dbl) in = gd = new Grid<double>(nx, ny, sx, sy, ox, oy); else in = gf = new Grid<float>(nx, ny, sx, sy, ox, oy); env.setFrameNode(in, fi); std::string band = c.boolean() ? "heights" : "aa"; std::vector<double> h(nx*ny); const double nd = -77;
    bool same = c.boolean(); MLSGrid* m = same ? new MLSGrid(nx, ny, sx, sy, ox, oy) : grid(c); env.setFrameNode(m, same ? fi : frame(c, env, 2)); Eigen::Affine3d T = toWorld(m->getFrameNode()).inverse()*toWorld(fi); GridFloatToMLS* op = new GridFloatToMLS(); env.attachItem(op); switch(c.draw(2)) { case 0: op->setInput(in, named ? band : ""); break; default: if(gd) op->setInput(gd, named ? band : ""); else op->setInput(gf, named ? band : ""); } op->setOutput(m); CHECK_THROWS(op->setOutput(m), "a second output"); if(c.chance(1, 10)) { GridFloatToMLS* x = new GridFloatToMLS(); env.attachItem(x); Grid<uint8_t>* t = new Grid<uint8_t>(2, 2, 1, 1); env.attachItem(t); CHECK_THROWS(x->setInput((GridBase*)t), "a grid of another type"); }
    size_t filled = 0; bool moved = !same; for(size_t r = 0, n = c.range(1, 2); r < n; r++) { m->clear(); for(size_t i = 0; i < h.size(); i++) { h[i] = nodata && c.chance(1, 4) ? nd : c.signedReal(5); if(gd) { if(!named) gd->getGridData().data()[i] = h[i]; else { gd->getGridData(band).data()[i] = h[i]; gd->getGridData("second").data()[i] = 55; } } else { h[i] = (float)h[i]; if(!named) gf->getGridData().data()[i] = h[i]; else { gf->getGridData(band).data()[i] = h[i]; gf->getGridData("second").data()[i] = 55; } } } if(nodata) { if(gd) gd->setNoData(nd); else gf->setNoData(nd); }
        filled = 0; size_t runs = c.range(1, 2); for(size_t i = 0; i < runs; i++) CHECK(op->updateAll(), "result of the operator"); if(!named && (gd ? gd->getBands().size() : gf->getBands().size()) != 1) FAIL("bands of the input");
        for(size_t x = 0; x < m->getCellSizeX(); x++) for(size_t y = 0; y < m->getCellSizeY(); y++) { Eigen::Vector3d s = T.inverse()*centre(*m, x, y, 0); Place p = place(*in, s); if(p.edge) continue; Cell v = cell((const MLSGrid&)*m, x, y); std::string w = fmt("cell %zu %zu: ", x, y); if(!p.in || (nodata && h[p.y*nx + p.x] == nd)) { CHECK(v.empty(), w + (p.in ? "a surface where the grid has no data: " : "a surface outside of the grid: ") + show(v)); continue; } filled++; CHECK_EQ(v.size(), (size_t)1, w + "number of surfaces"); double e = (T*Eigen::Vector3d(s.x(), s.y(), h[p.y*nx + p.x])).z(); CHECK(v[0].isHorizontal(), w + "kind of the surface"); CHECK_CLOSE(v[0].mean, e, 1e-5, 1e-5, w + "height of the surface"); CHECK_EQ(v[0].stdev, 0.0f, w + "uncertainty of the surface"); } }
    if(moved && filled >= 4) c.nontrivial();
}
PROP(merge, 4) {
    eu::Quiet q; Environment env; bool rev = c.boolean(), sum = c.boolean(); MergeMLS* op = new MergeMLS(); env.attachItem(op); if(rev || c.boolean()) op->setReverse(rev); MLSGrid* o = grid(c); o->getConfig().updateModel = sum ? MLSConfiguration::SUM : MLSConfiguration::KALMAN; o->getConfig().gapSize = 0.1; o->getConfig().thickness = 0.05; env.setFrameNode(o, frame(c, env, 2)); env.addOutput(op, o); size_t n = c.range(1, 3); int id = 0; std::vector<MLSGrid*> gs; size_t filled = 0;
    // patches of different measurements are ten metres apart, so that each must show up on its own
    auto fill = [&](MLSGrid* g) { size_t N = g->getCellSizeX()*g->getCellSizeY(); for(size_t i = 0, k = c.range(1, N); i < k; i++) { P p(0, c.real(0.02, 0.3), 0); if(!sum) { p = patch(c, MLSConfiguration::KALMAN, 1, true); } float z = 10*id++ + c.signedReal(1); p.mean = 0; P f(z, p.stdev, p.height, (P::TYPE)typeOf(p)); std::copy(p.color, p.color + 3, f.color); f.update_idx = p.update_idx; f.n = c.range(1, 5); g->insertHead(c.draw(g->getCellSizeX()), c.draw(g->getCellSizeY()), f); } };
    for(size_t i = 0; i < n; i++) { bool viaMap = c.chance(1, 3); MLSMap* m = 0; if(viaMap) { m = new MLSMap(); env.setFrameNode(m, frame(c, env, 2)); env.addInput(op, m); c.label("map"); } for(size_t k = 0, kn = viaMap ? c.range(0, 2) : 1; k < kn; k++) { MLSGrid* g = grid(c, 5); env.setFrameNode(g, frame(c, env, 2)); if(m) m->addGrid(g); else env.addInput(op, g); gs.push_back(g); fill(g); } }
    if(c.boolean()) fill(o); Content before = content(*o); std::vector<std::vector<P>> exp(before.begin(), before.end()); size_t oy = o->getCellSizeY();
    for(auto g : gs) { Eigen::Affine3d T = toWorld(o->getFrameNode()).inverse()*toWorld(g->getFrameNode()); double dz = T.translation().z(); if(!rev) { for(size_t x = 0; x < g->getCellSizeX(); x++) for(size_t y = 0; y < g->getCellSizeY(); y++) { Cell v = cell((const MLSGrid&)*g, x, y); if(v.empty()) continue; Place p = place(*o, T*centre(*g, x, y, 0)); if(p.edge) c.discard(); if(p.in) for(auto& s : v) { P t(s); t.translate(dz); exp[p.x*oy + p.y].push_back(t); filled++; } } }
        else for(size_t x = 0; x < o->getCellSizeX(); x++) for(size_t y = 0; y < oy; y++) { Place p = place(*g, T.inverse()*centre(*o, x, y, 0)); if(p.edge) c.discard(); if(p.in) for(auto& s : cell((const MLSGrid&)*g, p.x, p.y)) { P t(s); t.translate(dz); exp[x*oy + y].push_back(t); filled++; } } }
    Content ins; for(auto g : gs) for(auto& v : content(*g)) ins.push_back(v);
    CHECK(op->updateAll(), "result of the operator"); Content got = content(*o); auto less = [](const P& a, const P& b) { return a.mean < b.mean; };
    for(size_t i = 0; i < got.size(); i++) { std::string w = fmt("cell %zu %zu: ", i/oy, i%oy); std::sort(got[i].begin(), got[i].end(), less); std::sort(exp[i].begin(), exp[i].end(), less); CHECK_EQ(got[i].size(), exp[i].size(), w + "number of patches"); for(size_t k = 0; k < got[i].size(); k++) { P &a = got[i][k], &b = exp[i][k]; CHECK_CLOSE(a.mean, b.mean, 1e-5, 1e-3, w + "height"); CHECK(a.stdev == b.stdev && a.height == b.height && typeOf(a) == typeOf(b) && a.n == b.n && std::equal(a.color, a.color + 3, b.color), w + "patch " + show(a) + "\n instead of " + show(b)); CHECK_CLOSE(a.min, b.min, 1e-5, 1e-3, w + "lower end"); CHECK_CLOSE(a.max, b.max, 1e-5, 1e-3, w + "upper end"); CHECK_CLOSE(a.plane.z/a.plane.n, b.plane.z/b.plane.n, 1e-5, 1e-2, w + "weighted sum of heights"); } }
    Content ins2; for(auto g : gs) for(auto& v : content(*g)) ins2.push_back(v); CHECK(ins.size() == ins2.size(), "inputs"); for(size_t i = 0; i < ins.size(); i++) CHECK(sameCell(ins[i], ins2[i]), "the inputs were changed");
    if(c.chance(1, 20)) { Grid<double>* x = new Grid<double>(2, 2, 1, 1); env.setFrameNode(x, env.getRootNode()); env.addInput(op, x); CHECK_THROWS(op->updateAll(), "an input of another type"); }
    if(filled >= 4) c.nontrivial();
}
PROP(points, 3) {
    eu::Quiet q; Environment env; MLSGrid* g = grid(c); env.setFrameNode(g, frame(c, env, 3, true)); Pointcloud* pc = new Pointcloud(); env.setFrameNode(pc, c.boolean() ? g->getFrameNode() : frame(c, env, 3, true)); if(c.boolean()) { pc->vertices.resize(3); pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).resize(3); } Eigen::Affine3d T = toWorld(g->getFrameNode()).inverse()*toWorld(pc->getFrameNode()); MLSToPointCloud* op = new MLSToPointCloud(); env.attachItem(op); if(c.boolean()) { op->setInput(g); op->setOutput(pc); } else { env.addInput(op, g); env.addOutput(op, pc); }
    size_t nx = g->getCellSizeX(), ny = g->getCellSizeY(); double vd = (g->getScaleX() + g->getScaleY())/2; size_t filled = 0;
    for(size_t r = 0, n = c.range(1, 2); r < n; r++) { if(c.boolean()) g->clear(); for(size_t i = 0, k = c.draw(nx*ny + 1); i < k; i++) g->insertHead(c.draw(nx), c.draw(ny), patch(c, MLSConfiguration::KALMAN, 3, true)); CHECK(op->updateAll(), "result of the operator"); std::vector<std::vector<double>> z(nx*ny); for(auto& v : pc->vertices) { Eigen::Vector3d p = T*v; Place l = place(*g, p); CHECK(l.in, "a point outside of the grid"); Eigen::Vector3d m = centre(*g, l.x, l.y, p.z()); CHECK((m - p).norm() < 1e-6, "a point that is not in the middle of a cell: " + vec(p)); z[l.y*nx + l.x].push_back(p.z()); }
        if(pc->hasData(Pointcloud::VERTEX_VARIANCE)) CHECK(pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE).empty(), "data of earlier points"); filled = 0;
        for(size_t x = 0; x < nx; x++) for(size_t y = 0; y < ny; y++) { auto& l = z[y*nx + x]; Cell v = cell((const MLSGrid&)*g, x, y); std::vector<char> used(l.size(), 0); std::string w = fmt("cell %zu %zu: ", x, y); std::string all; for(double d : l) all += fmt("%g ", d); all += "\n of " + show(v); if(v.size()) filled++; for(auto& p : v) if(p.isHorizontal()) { bool f = false; for(size_t i = 0; i < l.size(); i++) if(fabs(l[i] - p.mean) < 1e-5) { used[i] = 1; f = true; } CHECK(f, w + "no point for a surface " + show(p)); } else if(p.isVertical()) { double lo = (double)p.mean - p.height, hi = p.mean, last = lo; bool first = false; std::vector<double> s; for(size_t i = 0; i < l.size(); i++) if(l[i] > lo - 1e-4 && l[i] < hi + 1e-4) { used[i] = 1; s.push_back(l[i]); if(fabs(l[i] - lo) < 1e-4) first = true; } std::sort(s.begin(), s.end()); CHECK(first, w + "no point at the bottom of a block; " + all); for(double d : s) { CHECK(d - last < vd + 1e-4, w + "a gap in a block; " + all); last = d; } CHECK(hi - last < vd + 1e-4, w + "a block is not covered up to its top; " + all); } for(size_t i = 0; i < l.size(); i++) CHECK(used[i], w + fmt("a point at %g that belongs to no surface or block; ", l[i]) + all);
            size_t horiz = 0, most = 0; for(auto& p : v) { if(p.isHorizontal()) horiz++; else if(p.isVertical()) most += (size_t)floor(p.height/vd + 1e-3) + 1; } CHECK(l.size() <= horiz + most, w + "too many points; " + all); } }
    if(filled >= 4) c.nontrivial();
}
