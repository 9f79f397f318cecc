//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/MLSGrid.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/tools/PlyFile.cpp src/tools/BresenhamLine.cpp src/operators/MLSProjection.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 60000
//@ thorough: 2500000
// Point clouds projected into multi-level surface grids.
#include "mlsutil.hpp"
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/tools/BresenhamLine.hpp>
using namespace pbt; using namespace envire; using namespace mu; typedef Eigen::Vector3d V3;
namespace pbt { const char* RULE = "Up to three clouds (with and without variances and colors, points inside and outside of the grid and the area of interest) in random frames with and without uncertainty are projected up to three times into grids of all three update models, with and without content, with and without the uncertainty of the frames and free space; compared with a grid that is updated point by point with points transformed by the check. For free space, the surfaces have to be those without it, free patches lie on the lines to the sensor and cover them, at the height of the line, and content elsewhere in the grid makes no difference. Non-trivial: at least three points inside of the grid and two cells with patches."; }
namespace {
struct Cloud { Pointcloud* p; FrameNode* f; };
bool nearf(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= 1e-4*(1e-2 + std::max(fabs(a), fabs(b))); }
bool nearP(const P& a, const P& b, bool color) { if(typeOf(a) != typeOf(b) || !nearf(a.mean, b.mean) || !nearf(a.stdev, b.stdev) || !nearf(a.height, b.height) || !nearf(a.min, b.min) || !nearf(a.max, b.max) || !nearf(a.n, b.n) || a.update_idx != b.update_idx) return false; if(color) for(int i = 0; i < 3; i++) if(abs((int)a.color[i] - (int)b.color[i]) > 1) return false; return true; }
void near(const Cell& a, const Cell& b, bool color, const std::string& w) { Cell r = b; bool ok = a.size() == b.size(); for(auto& p : a) { bool f = false; for(size_t i = 0; i < r.size() && !f; i++) if(nearP(p, r[i], color)) { f = true; r.erase(r.begin() + i); } ok = ok && f; } if(!ok) FAIL(w + " has " + mu::show(a) + "\n instead of " + mu::show(b)); }
void near(const Content& a, const Content& b, size_t ny, bool color, const std::string& w) { CHECK_EQ(a.size(), b.size(), "cells"); for(size_t i = 0; i < a.size(); i++) near(a[i], b[i], color, w + fmt(": cell %zu %zu", i/ny, i%ny)); }
struct Setup { Environment env; MLSGrid* g; FrameNode* fg; std::vector<Cloud> in; MLSProjection* op; double sx, sy, ox, oy; size_t nx, ny;
    std::vector<FrameNode*> fs; std::map<FrameNode*, FrameNode*> up;
    Eigen::Affine3d at(FrameNode* f) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); while(f != env.getRootNode()) { t = f->getTransform()*t; f = up[f]; } return t; }
    Eigen::Affine3d toGrid(FrameNode* f) { return at(fg).inverse()*at(f); }
    Setup(Ctx& c) : fs(1, env.getRootNode()) { for(int i = 0; i < 3; i++) { FrameNode* f = c.boolean() ? new FrameNode(eu::randomPose(c, 3)) : new FrameNode(TransformWithUncertainty(eu::randomPose(c, 3), eu::randomCov(c, 0.05))); FrameNode* p = fs[c.draw(fs.size())]; env.addChild(p, f); up[f] = p; fs.push_back(f); }
        nx = c.range(1, 7); ny = c.range(1, 7); sx = c.real(0.1, 1); sy = c.real(0.1, 1); ox = c.boolean() ? -sx*nx/2 : c.signedReal(3); oy = c.boolean() ? -sy*ny/2 : c.signedReal(3); g = new MLSGrid(nx, ny, sx, sy, ox, oy); fg = fs[c.draw(4)]; env.setFrameNode(g, fg); g->getConfig().gapSize = 0.1371 + 0.08173*c.draw(11); g->getConfig().thickness = 0.0213 + 0.01819*c.draw(11); op = new MLSProjection(); env.attachItem(op); }
    V3 pt(Ctx& c, size_t x, size_t y) { return V3(ox + (x + 0.1 + 0.8*c.unit())*sx, oy + (y + 0.1 + 0.8*c.unit())*sy, c.boolean() ? c.rangeC(-8, 8)*0.25 : c.signedReal(2)); }
    void fill(Ctx& c, Pointcloud& p, FrameNode* f, size_t n, bool color, bool var) { p.clear(); Eigen::Affine3d i = toGrid(f).inverse(); size_t hx = c.draw(nx), hy = c.draw(ny); for(size_t k = 0; k < n; k++) { V3 v = c.chance(1, 8) ? V3(c.signedReal(10) + 20, c.signedReal(10), 0) : c.boolean() ? pt(c, hx, hy) : pt(c, c.draw(nx), c.draw(ny)); p.vertices.push_back(i*v); } p.removeData(Pointcloud::VERTEX_COLOR); p.removeData(Pointcloud::VERTEX_VARIANCE); if(color) { auto& k = p.getVertexData<V3>(Pointcloud::VERTEX_COLOR); for(size_t a = 0; a < n; a++) k.push_back(V3(c.unit(), c.unit(), c.unit())); } if(var) { auto& k = p.getVertexData<double>(Pointcloud::VERTEX_VARIANCE); for(size_t a = 0; a < n; a++) k.push_back(c.real(0.001, 0.05)); } }
};
void content(Ctx& c, MLSGrid& g, size_t n) { for(size_t i = 0; i < n; i++) { P p = patch(c, g.getConfig().updateModel, 2, false); p.update_idx = 0; g.updateCell(c.draw(g.getCellSizeX()), c.draw(g.getCellSizeY()), p); } }
void notes(Ctx& c, Setup& s) { if(!c.isRendering()) return; c.note(fmt("grid %zu x %zu cells of %g x %g at %g %g, gap %g thickness %g model %d", s.nx, s.ny, s.sx, s.sy, s.ox, s.oy, s.g->getConfig().gapSize, s.g->getConfig().thickness, (int)s.g->getConfig().updateModel)); for(auto& k : s.in) { c.note("cloud"); for(auto& p : k.p->vertices) c.note("  in the grid " + vec(V3(s.toGrid(k.f)*p))); } }
}
PROP(surfaces, 3) {
    eu::Quiet q; Setup s(c); MLSGrid& g = *s.g; g.getConfig().updateModel = c.pick(std::vector<MLSConfiguration::update_model>{MLSConfiguration::KALMAN, MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE}); if(c.chance(1, 8)) CHECK(!s.op->updateAll(), "updateAll without an output"); s.op->addOutput(&g); { MLSGrid* x = new MLSGrid(1, 1, 1, 1); s.env.setFrameNode(x, s.fg); CHECK_THROWS(s.op->addOutput(x), "second output"); }
    size_t n = c.range(1, 3); bool colors = c.boolean(); for(size_t i = 0; i < n; i++) { FrameNode* f = s.fs[c.draw(4)]; Pointcloud* p = c.boolean() ? new Pointcloud() : new TriMesh(); s.env.setFrameNode(p, f); s.in.push_back({p, f}); s.op->addInput(p); }
    MLSGrid::Ptr ref = new MLSGrid(s.nx, s.ny, s.sx, s.sy, s.ox, s.oy); if(c.boolean()) content(c, g, c.size(0, 5)); ref->getConfig() = g.getConfig(); for(size_t x = 0; x < s.nx; x++) for(size_t y = 0; y < s.ny; y++) for(auto& p : mu::cell(g, x, y)) ref->insertTail(x, y, p); ref->getConfig() = g.getConfig();
    bool unc = true, box = false; double def = 0.01; Eigen::AlignedBox3d aoi; size_t rounds = c.size(1, 3), inside = 0; bool hasColor = g.getHasCellColor(), allColored = g.empty();
    for(size_t r = 0; r < rounds; r++) {
        for(auto& k : s.in) if(!r || c.boolean()) s.fill(c, *k.p, k.f, c.size(0, 10), colors && !c.chance(1, 4), c.boolean()); if(c.boolean()) s.op->useUncertainty(unc = c.boolean()); if(c.chance(1, 3)) s.op->setDefaultUncertainty(def = c.real(0.001, 0.1));
        if(c.chance(1, 3)) { V3 a = s.pt(c, c.draw(s.nx), c.draw(s.ny)), b = s.pt(c, c.draw(s.nx), c.draw(s.ny)); aoi.setEmpty(); aoi.extend(a); aoi.extend(b); box = true; s.op->setAreaOfInterest(aoi.min()[0], aoi.max()[0], aoi.min()[1], aoi.max()[1], aoi.min()[2], aoi.max()[2]); } else if(c.chance(1, 3)) { box = false; s.op->unsetAreaOfInterest(); }
        if(!r) notes(c, s); c.note(fmt("project, uncertainty %d, default %g, area %d", (int)unc, def, (int)box));
        for(Layer* l : s.env.getInputs(s.op)) { Cloud k{0, 0}; for(auto& i : s.in) if(i.p == l) k = i; CHECK(k.p, "unknown input"); Pointcloud& p = *k.p; Eigen::Affine3d T = s.env.relativeTransformWithUncertainty(k.f, s.fg).getTransform(); CHECK((T.matrix() - s.toGrid(k.f).matrix()).norm() < 1e-9, "pose of the pointcloud in the grid"); bool col = p.hasData(Pointcloud::VERTEX_COLOR), var = p.hasData(Pointcloud::VERTEX_VARIANCE) && p.getVertexData<double>(Pointcloud::VERTEX_VARIANCE).size() == p.vertices.size(); MLSGrid::Ptr t = ref; bool direct = !unc || ref->empty(); if(!direct) { t = new MLSGrid(s.nx, s.ny, s.sx, s.sy, s.ox, s.oy); t->getConfig() = ref->getConfig(); } if(col) hasColor = true; else if(p.vertices.size()) allColored = false;
            for(size_t i = 0; i < p.vertices.size(); i++) { V3 v = T*p.vertices[i]; if(box) { for(int a = 0; a < 3; a++) if(fabs(v[a] - aoi.min()[a]) < 1e-9 || fabs(v[a] - aoi.max()[a]) < 1e-9) { c.label("on the border of the area"); return; } if(!aoi.contains(v)) continue; } P x(v[2], sqrt(var ? p.getVertexData<double>(Pointcloud::VERTEX_VARIANCE)[i] : def)); if(col) x.setColor(p.getVertexData<V3>(Pointcloud::VERTEX_COLOR)[i]); if(t->update(v.head<2>(), x)) inside++; }
            if(unc) { TransformWithUncertainty u = s.env.relativeTransformWithUncertainty(k.f, s.fg); for(size_t x = 0; x < s.nx; x++) for(size_t y = 0; y < s.ny; y++) for(auto it = t->beginCell(x, y); it != t->endCell(); it++) { V3 ctr(s.ox + (x + 0.5)*s.sx, s.oy + (y + 0.5)*s.sy, it->mean); double z = (u*PointWithUncertainty(T.inverse()*ctr, Eigen::Matrix3d::Zero())).getCovariance()(2, 2); it->stdev = sqrt((double)it->stdev*it->stdev + z); } if(!direct) for(size_t x = 0; x < s.nx; x++) for(size_t y = 0; y < s.ny; y++) for(auto& o : mu::cell(*t, x, y)) ref->updateCell(x, y, o); } }
        CHECK(s.op->updateAll(), "updateAll"); near(mu::content(g), mu::content(*ref), s.ny, allColored && hasColor, "the grid"); CHECK_EQ(g.getHasCellColor(), hasColor, "presence of colors"); CHECK_EQ(g.getCellCount(), ref->getCellCount(), "number of patches"); }
    size_t cells = 0; for(auto& v : mu::content(g)) cells += !v.empty(); if(inside > 2 && cells > 1) c.nontrivial();
}
PROP(freespace, 2) {
    eu::Quiet q; Setup s(c); MLSGrid& g = *s.g; s.op->addOutput(&g); bool unc = c.boolean(); s.op->useUncertainty(unc); s.op->useNegativeInformation(true); FrameNode* f = s.fs[c.draw(4)]; Pointcloud* p = new Pointcloud(); s.env.setFrameNode(p, f); s.in.push_back({p, f}); s.op->addInput(p); bool single = c.chance(1, 3); s.fill(c, *p, f, single ? 1 : c.size(0, 8), false, c.boolean());
    V3 o = s.pt(c, c.draw(s.nx), c.draw(s.ny)); bool out = c.chance(1, 10); if(out) o[0] += 100; Eigen::Affine3d so = eu::randomPose(c); so.translation() = s.toGrid(f).inverse()*o; p->setSensorOrigin(so); notes(c, s); c.note("sensor at " + vec(o));
    if(out) { CHECK_THROWS(s.op->updateAll(), "the sensor is outside of the grid"); return; }
    // the same without free space
    MLSGrid* g2 = new MLSGrid(s.nx, s.ny, s.sx, s.sy, s.ox, s.oy); g2->getConfig() = g.getConfig(); s.env.setFrameNode(g2, s.fg); MLSProjection* op2 = new MLSProjection(); s.env.attachItem(op2); op2->addInput(p); op2->addOutput(g2); op2->useUncertainty(unc); op2->updateAll(); Content base = mu::content(*g2);
    // and with some content in one cell
    bool one = true; size_t measured = 0; for(auto& v : base) { if(v.size() > 1) one = false; measured += !v.empty(); } size_t rx = c.draw(s.nx), ry = c.draw(s.ny); MLSGrid* g3 = 0; if(one && base[rx*s.ny + ry].empty()) { g3 = new MLSGrid(s.nx, s.ny, s.sx, s.sy, s.ox, s.oy); g3->getConfig() = g.getConfig(); s.env.setFrameNode(g3, s.fg); g3->updateCell(rx, ry, P(50, 0.1)); MLSProjection* op3 = new MLSProjection(); s.env.attachItem(op3); op3->addInput(p); op3->addOutput(g3); op3->useUncertainty(unc); op3->useNegativeInformation(true); op3->updateAll(); }
    CHECK(s.op->updateAll(), "updateAll"); Content r = mu::content(g); Pos org; CHECK(g.toGrid(Eigen::Vector2d(o.head<2>()), org), "cell of the sensor");
    std::set<std::pair<size_t, size_t>> lines; for(size_t x = 0; x < s.nx; x++) for(size_t y = 0; y < s.ny; y++) { Cell pos; for(auto& k : r[x*s.ny + y]) if(!k.isNegative()) pos.push_back(k); near(pos, base[x*s.ny + y], false, fmt("surfaces of cell %zu %zu with free space", x, y)); if(base[x*s.ny + y].empty()) continue; std::vector<Pos> ps; lineBresenham(Pos(x, y), org, ps); for(auto& l : ps) if(!(l == Pos(x, y))) lines.insert({l.x, l.y}); }
    for(size_t x = 0; x < s.nx; x++) for(size_t y = 0; y < s.ny; y++) { bool neg = false; for(auto& k : r[x*s.ny + y]) neg = neg || k.isNegative(); CHECK(neg == (lines.count({x, y}) > 0), fmt("cell %zu %zu is%s on a line to the sensor at %zu %zu, and has%s free space", x, y, lines.count({x, y}) ? "" : " not", org.x, org.y, neg ? "" : " no")); }
    if(measured > 1 && lines.size() > 1) c.nontrivial();
    if(measured == 1 && one) for(size_t x = 0; x < s.nx; x++) for(size_t y = 0; y < s.ny; y++) for(auto& b : base[x*s.ny + y]) { if(b.height != 0) continue; double dz = o[2] - b.mean; int xd = (int)x - (int)org.x, yd = (int)y - (int)org.y; double dist = hypot(xd*s.sx, yd*s.sy); for(auto& l : lines) { double t = abs(xd) >= abs(yd) ? ((int)l.first - (int)org.x)/(double)xd : ((int)l.second - (int)org.y)/(double)yd, z = b.mean + dz*(1 - t), h = fabs(s.sx/dist*dz); for(auto& k : r[l.first*s.ny + l.second]) if(k.isNegative()) { c.label("one line"); CHECK_CLOSE(k.stdev, b.stdev*t, 1e-4, 1e-5, "deviation of free space"); CHECK_CLOSE(k.mean - k.height, z - (dz < 0 ? h*t : 0), 1e-4, 1e-4, fmt("lower end of the free space in cell %zu %zu, where the line is at %g", l.first, l.second, z)); CHECK_CLOSE(k.mean, z + (dz < 0 ? 0 : h*t), 1e-4, 1e-4, fmt("upper end of the free space in cell %zu %zu, where the line is at %g", l.first, l.second, z)); } } }
    if(g3) { c.label("content elsewhere"); Content e = mu::content(*g3); for(size_t i = 0; i < e.size(); i++) if(i != rx*s.ny + ry) near(e[i], r[i], false, fmt("content in cell %zu %zu changes cell %zu %zu, which", rx, ry, i/s.ny, i%s.ny)); }
}
