//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 120000
//@ thorough: 3000000
// The multi-level surface grid as a container: a history of operations against a model of its cells.
#include "mlsutil.hpp"
using namespace mu;
namespace pbt { const char* RULE = "Histories of up to 40 operations (insert, erase, measurement updates by cell, by position and by value, inside and outside of the grid, clear, move, copy, assignment between grids of other sizes, shallow clone, index creation, weight scaling) on grids of up to 7x7 cells in all update models, with several patches per cell. After every operation each patch of each cell, the patch count, the extents and the cell index are compared with the model. Measurements must only touch their cell; how the cell changes is derived from which of its patches accept the measurement, and no measurement is lost or counted twice. Non-trivial: at least three patches and one merge, move, copy or erase."; }
namespace {
struct Model { Content m; std::set<std::pair<int,int>> used; bool indexed = false; size_t nx, ny; MLSConfiguration cfg; void use(size_t x, size_t y) { used.insert({(int)x, (int)y}); } Cell& at(size_t x, size_t y) { return m[x*ny + y]; } };
bool mrg(P& a, P& b, const MLSConfiguration& k) { return a.merge(b, k.thickness, k.gapSize, k.updateModel); }
double sumN(const Cell& v) { double s = 0; for(auto& p : v) s += p.n; return s; } double sumW(const Cell& v) { double s = 0; for(auto& p : v) s += p.plane.n; return s; } double sumZ(const Cell& v) { double s = 0; for(auto& p : v) s += p.plane.z; return s; }
// the cell after a measurement; takes over the new content
void measured(Ctx& c, Model& k, size_t x, size_t y, const P& o, MLSGrid& g) {
    Cell before = k.at(x, y), after = cell((const MLSGrid&)g, x, y); k.use(x, y); std::vector<size_t> acc; bool sure = true, cut = false, neg = o.isNegative(); double top = o.mean, bot = o.mean - o.height; for(size_t i = 0; i < before.size(); i++) { P a(before[i]), b(o); bool r = mrg(a, b, k.cfg); { MLSConfiguration less = k.cfg; less.gapSize -= 1e-4f*(1 + std::fabs(o.mean)); P a2(before[i]), b2(o); if(mrg(a2, b2, less) != r) sure = false; } if(r) acc.push_back(i); else if(!same(a, before[i]) || !same(b, o)) cut = true; neg = neg || before[i].isNegative(); top = std::max(top, (double)before[i].mean); bot = std::min(bot, (double)before[i].mean - before[i].height); }
    c.note(fmt("  %zu of %zu patches accept it", acc.size(), before.size())); std::string w = "measurement " + show(o) + " into " + show(before) + "\n gives " + show(after) + "\n";
    if(!neg) CHECK_EQ(sumN(after), sumN(before) + o.n, w + "number of measurements of the cell");
    if(k.cfg.updateModel == MLSConfiguration::SUM) { CHECK_CLOSE(sumW(after), sumW(before) + o.plane.n, 1e-4, 0, w + "weight of the cell"); double mag = 0; for(auto& p : before) mag += std::fabs(p.plane.z); CHECK(std::fabs(sumZ(after) - sumZ(before) - o.plane.z) < 1e-4*(mag + std::fabs(o.plane.z)) + 1e-6, w + "weighted sum of the heights of the cell"); if(!acc.empty() && sure) CHECK_EQ(after.size(), before.size() + 1 - acc.size(), w + "patches which were bridged by the measurement"); }
    if(!cut && acc.empty()) { Cell e = before; e.insert(e.begin(), o); CHECK(sameCell(after, e), w + "a measurement away from all patches must become a patch of its own"); c.label("new patch"); }
    else if(!cut && acc.size() == 1) { Cell e = before; P b(o); mrg(e[acc[0]], b, k.cfg); CHECK(sameCell(after, e), w + "a measurement accepted by one patch must be merged into that patch only, expected " + show(e)); c.label("merged"); }
    else { c.label(cut ? "cut" : "bridged"); CHECK(after.size() <= before.size() + 1 && !after.empty(), w + "number of patches"); if(k.cfg.updateModel != MLSConfiguration::SLOPE) for(auto& p : after) CHECK(p.mean <= top + 1e-3 && p.mean - p.height >= bot - 1e-3, w + "a patch reaches beyond the measurement and the patches of the cell"); if(!cut) for(size_t i = 0, j = 0; i < before.size(); i++) if(!std::count(acc.begin(), acc.end(), i)) { bool f = false; for(auto& p : after) f = f || same(p, before[i]); CHECK(f, w + "a patch which does not accept the measurement was changed"); } }
    k.at(x, y) = after; }
}
PROP(history, 6) {
    Model k; k.nx = c.range(1, 7); k.ny = c.range(1, 7); double sx = c.real(0.1, 2), sy = c.boolean() ? sx : c.real(0.1, 2), ox = c.signedReal(5), oy = c.signedReal(5); k.m.resize(k.nx*k.ny); std::unique_ptr<MLSGrid> g(new MLSGrid(k.nx, k.ny, sx, sy, ox, oy)); g->getConfig().gapSize = c.real(0.05, 1); g->getConfig().thickness = c.real(0.01, 0.5); g->getConfig().updateModel = c.pick(std::vector<MLSConfiguration::update_model>{MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE}); k.cfg = g->getConfig(); bool neg = c.chance(1, 3); double zm = c.pick(std::vector<double>{0.5, 2, 6}); size_t hx = c.draw(k.nx), hy = c.draw(k.ny); c.note(fmt("grid %zux%zu model %d gap %g thickness %g", k.nx, k.ny, (int)k.cfg.updateModel, k.cfg.gapSize, k.cfg.thickness)); c.label(fmt("model %d", (int)k.cfg.updateModel));
    if(c.boolean()) { g->initIndex(); k.indexed = true; } size_t n = c.range(1, 40); bool nt = false; invariants(*g, k.m, k.used, k.indexed, "new grid");
    for(size_t i = 0; i < n; i++) { bool hot = c.boolean(); size_t x = hot ? hx : c.draw(k.nx), y = hot ? hy : c.draw(k.ny); std::string w;
        switch(c.weighted({6, 8, 6, 2, 2, 2, 2, 1, 1, 2, 1})) {
        case 0: { P p = patch(c, k.cfg.updateModel, zm, neg); bool h = c.boolean(); w = fmt("insert%s %zu %zu ", h ? "Head" : "Tail", x, y) + show(p); if(h) { g->insertHead(x, y, p); k.at(x, y).insert(k.at(x, y).begin(), p); } else { g->insertTail(x, y, p); k.at(x, y).push_back(p); } k.use(x, y); break; }
        case 1: { P p = patch(c, k.cfg.updateModel, zm, neg); w = fmt("updateCell %zu %zu ", x, y) + show(p); c.note(w); P q(p); switch(c.draw(3)) { case 0: g->updateCell(x, y, p); break; case 1: g->updateCell(Pos(x, y), p); break; default: p = P(p.mean, p.stdev); q = p; g->updateCell(x, y, p.mean, p.stdev); } CHECK(same(p, q), "the measurement itself was changed"); measured(c, k, x, y, q, *g); nt = true; break; }
        case 2: { P p = patch(c, k.cfg.updateModel, zm, neg); double fx = c.real(-0.5, k.nx + 0.5), fy = c.boolean() ? c.real(-0.5, k.ny + 0.5) : y + 0.5; Eigen::Vector2d pos(ox + fx*sx, oy + fy*sy); double gx = (pos.x() - ox)/sx, gy = (pos.y() - oy)/sy; if(std::fabs(gx - std::round(gx)) < 1e-6 || std::fabs(gy - std::round(gy)) < 1e-6) break; bool in = gx > 0 && gx < k.nx && gy > 0 && gy < k.ny; w = fmt("update at %g %g (cell %g %g) ", pos.x(), pos.y(), gx, gy) + show(p); c.note(w); CHECK_EQ(g->update(pos, p), in, "whether the position is in the grid"); if(in) { size_t cx = gx, cy = gy; if(k.cfg.updateModel == MLSConfiguration::SLOPE) { P s(Eigen::Vector3f(pos.x() - (cx*sx + ox), pos.y() - (cy*sy + oy), p.mean), p.stdev); s.update_idx = p.update_idx; std::copy(p.color, p.color + 3, s.color); p = s; } measured(c, k, cx, cy, p, *g); nt = true; } break; }
        case 3: { Cell& v = k.at(x, y); if(v.empty()) break; size_t j = c.draw(v.size()); w = fmt("erase patch %zu of %zu %zu", j, x, y); MLSGrid::iterator it = g->beginCell(x, y); for(size_t q = 0; q < j; q++) it++; it = g->erase(it); v.erase(v.begin() + j); for(size_t q = j; q < v.size(); q++, it++) CHECK(it != g->endCell() && same(*it, v[q]), w + ": the iterator returned does not lead through the patches behind the erased one"); CHECK(it == g->endCell(), w + ": patches behind the last one"); nt = true; break; }
        case 4: { int dx = c.rangeC(-(int)k.nx, k.nx), dy = c.rangeC(-(int)k.ny, k.ny); w = fmt("move %d %d", dx, dy); g->move(dx, dy); Content m(k.m.size()); std::set<std::pair<int,int>> u; for(int a = 0; a < (int)k.nx; a++) for(int b = 0; b < (int)k.ny; b++) { int p = a + dx, q = b + dy; if(p < 0 || q < 0 || p >= (int)k.nx || q >= (int)k.ny) continue; m[p*k.ny + q] = k.at(a, b); if(k.used.count({a, b})) u.insert({p, q}); } k.m = m; k.used = u; nt = true; break; }
        case 5: { w = "copy"; std::unique_ptr<MLSGrid> h(new MLSGrid(*g)); invariants(*g, k.m, k.used, k.indexed, "the grid after it was copied"); k.indexed = h->getIndex() != 0; CHECK(h->getConfig().gapSize == k.cfg.gapSize && h->getConfig().thickness == k.cfg.thickness && h->getConfig().updateModel == k.cfg.updateModel, "configuration of the copy"); CHECK(h->getScaleX() == sx && h->getScaleY() == sy && h->getOffsetX() == ox && h->getOffsetY() == oy, "geometry of the copy"); if(c.boolean()) { c.note("the original is cleared"); g->clear(); } g.swap(h); nt = true; break; }
        case 6: { size_t mx = c.range(1, 7), my = c.range(1, 7); std::unique_ptr<MLSGrid> h(new MLSGrid(mx, my, 1, 1)); w = fmt("assign to a grid of %zux%zu", mx, my); bool ix = c.boolean(); size_t q = c.draw(4); if(ix) { h->initIndex(); w += " with index"; } for(size_t j = 0; j < q; j++) h->insertHead(c.draw(mx), c.draw(my), patch(c, k.cfg.updateModel, zm, neg)); if(c.chance(1, 4)) { w += ", self first"; *h = *h; CHECK_EQ(h->getCellCount(), q, "patches after self assignment"); } *h = *g; CHECK(h->getCellSizeX() == k.nx && h->getCellSizeY() == k.ny && h->getScaleX() == sx && h->getScaleY() == sy && h->getOffsetX() == ox && h->getOffsetY() == oy, "geometry after the assignment"); CHECK(h->getConfig().gapSize == k.cfg.gapSize && h->getConfig().thickness == k.cfg.thickness && h->getConfig().updateModel == k.cfg.updateModel, "configuration after the assignment"); k.indexed = h->getIndex() != 0; if(c.boolean()) g->clear(); g.swap(h); nt = true; break; }
        case 7: { w = "cloneShallow"; std::unique_ptr<MLSGrid> h(g->cloneShallow()); CHECK(h->empty() && count(content(*h)) == 0, "the shallow clone has content"); CHECK(h->getCellSizeX() == k.nx && h->getCellSizeY() == k.ny && h->getScaleX() == sx && h->getOffsetY() == oy && h->getConfig().gapSize == k.cfg.gapSize && h->getConfig().updateModel == k.cfg.updateModel && h->getConfig().thickness == k.cfg.thickness, "properties of the shallow clone"); break; }
        case 8: { w = "clear"; g->clear(); for(auto& v : k.m) v.clear(); k.used.clear(); break; }
        case 9: { w = "initIndex"; g->initIndex(); k.indexed = true; std::set<std::pair<int,int>> occ; for(size_t j = 0; j < k.m.size(); j++) if(!k.m[j].empty()) occ.insert({(int)(j/k.ny), (int)(j%k.ny)}); CHECK_EQ(g->getIndex()->cells.size(), occ.size(), "cells in a new index"); break; }
        case 10: { double f = c.real(0.2, 3); w = fmt("scalePatchWeights %g", f); Content b = content(*g); g->scalePatchWeights(f); Content a = content(*g); for(size_t j = 0; j < a.size(); j++) { CHECK_EQ(a[j].size(), b[j].size(), w + ": patches"); for(size_t q = 0; q < a[j].size(); q++) { CHECK_CLOSE(a[j][q].getWeight(), f*b[j][q].getWeight(), 1e-5, 0, w + ": weight"); CHECK(a[j][q].mean == b[j][q].mean && a[j][q].stdev == b[j][q].stdev && a[j][q].n == b[j][q].n, w + ": another value was changed"); } } k.m = a; break; } }
        if(!w.empty()) { c.note(w); invariants(*g, k.m, k.used, k.indexed, "after " + w); } }
    if(nt && count(k.m) >= 3) c.nontrivial();
}
PROP(lookup, 2) {
    size_t nx = c.range(1, 5), ny = c.range(1, 5); double s = c.real(0.1, 2), ox = c.signedReal(5), oy = c.signedReal(5); MLSGrid g(nx, ny, s, s, ox, oy); MLSConfiguration::update_model um = c.pick(std::vector<MLSConfiguration::update_model>{MLSConfiguration::KALMAN, MLSConfiguration::SLOPE}); g.getConfig().updateModel = um; bool neg = um == MLSConfiguration::KALMAN; size_t q = c.range(1, 12); if(q > 2) c.nontrivial(); for(size_t i = 0; i < q; i++) { size_t x = c.draw(nx), y = c.draw(ny); if(um == MLSConfiguration::SLOPE) { double b = c.signedReal(3), k = c.signedReal(0.5); P p(Eigen::Vector3f(0.1*s, 0.1*s, b), 0.1); for(int j = 1; j < 5; j++) { double u = (j%2 ? 0.9 : 0.2)*s, v = (j/2 ? 0.8 : 0.15)*s; P o(Eigen::Vector3f(u, v, b + k*u), 0.1); p.merge(o, 1, 10, um); } g.insertHead(x, y, p); } else g.insertHead(x, y, patch(c, um, 3, neg)); }
    for(int rep = 0; rep < 4; rep++) { size_t x = c.draw(nx), y = c.draw(ny); Cell v = cell(g, x, y); P probe = c.boolean() && !v.empty() ? v[c.draw(v.size())] : P(c.signedReal(3), c.real(0.02, 0.5)); double k = c.real(0.1, 5); bool ign = c.boolean(), byval = c.boolean(); if(byval) probe = P(probe.mean + c.signedReal(0.5), probe.stdev); c.note(fmt("get in cell %zu %zu, %g sigma, %s free patches: ", x, y, k, ign ? "without" : "with") + show(probe)); SurfacePatch* r = byval ? g.get(Pos(x, y), probe.mean, probe.stdev, k, ign) : g.get(Pos(x, y), probe, k, ign);
        auto fits = [&](const P& p, double e) { return p.distance(probe) < std::sqrt((double)p.stdev*p.stdev + (double)probe.stdev*probe.stdev)*k + e && !(ign && p.isNegative()); };
        if(r) { bool in = false; for(MLSGrid::iterator it = g.beginCell(x, y); it != g.endCell(); it++) in = in || &*it == r; CHECK(in, "the patch found is not of this cell"); CHECK(fits(*r, 1e-5), "the patch found does not match: " + show(*r)); } else for(auto& p : v) CHECK(!fits(p, -1e-5), "a matching patch was not found: " + show(p));
        double fx = c.real(0.05, 0.95), fy = c.real(0.05, 0.95), z0 = probe.mean, sd0 = probe.stdev, z = z0, sd = sd0; Eigen::Vector2d at(ox + (x + fx)*s, oy + (y + fy)*s); SurfacePatch* p; if(c.boolean()) p = g.get(at, z, sd); else { z = 1e6; p = g.get(Eigen::Vector3d(at.x(), at.y(), z0), z, sd); } SurfacePatch* e = g.get(Pos(x, y), z0, sd0); CHECK_EQ(p != 0, e != 0, "whether a patch is found at the position of the cell"); if(p) { CHECK(p == e, "patch found at the position of the cell"); CHECK_EQ((float)sd, p->stdev, "deviation at the position"); CHECK_CLOSE(z, um == MLSConfiguration::SLOPE ? (double)p->getHeight(Eigen::Vector2f(fx*s, fy*s)) : (double)p->mean, 1e-5, 1e-4, "height at the position"); }
        z = 0; sd = 1; CHECK(!g.get(Eigen::Vector2d(ox - s*c.real(0.01, 3), at.y()), z, sd) && !g.get(Eigen::Vector2d(at.x(), oy + s*(ny + c.real(0.01, 3))), z, sd), "a patch was found outside of the grid"); }
    // heights along a path
    std::vector<Pos> path; size_t n = c.range(1, 8); for(size_t i = 0; i < n; i++) path.push_back(Pos(c.draw(nx), c.draw(ny))); double h = c.signedReal(4), off = c.signedReal(1); c.note(fmt("project %zu points from height %g, offset %g", n, h, off)); auto r = g.projectPointsOnSurface(h, path, off); CHECK_EQ(r.size(), n, "projected points"); double last = h; for(size_t i = 0; i < n; i++) { double best = INFINITY, z = last; bool tie = false; for(auto& p : cell(g, path[i].x, path[i].y)) { double d = std::fabs(last - p.getMaxZ()); if(std::fabs(d - best) < 1e-5 && p.getMaxZ() != z) tie = true; if(d < best) { best = d; z = p.getMaxZ(); } } if(tie) break; last = z; CHECK(r[i].x() == path[i].x && r[i].y() == path[i].y, "position of a projected point"); CHECK_CLOSE(r[i].z(), last + off, 1e-6, 1e-6, fmt("height of projected point %zu", i)); }
}
