//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/tools/BresenhamLine.cpp src/operators/GridIllumination.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 60000
//@ thorough: 2500000
// Lines through grids: Bresenham lines, ray traversal, illumination.
#include "envutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/tools/BresenhamLine.hpp>
#include <envire/tools/VoxelTraversal.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <memory>
using namespace pbt; using namespace envire;
namespace pbt { const char* RULE = "Bresenham lines between random end points (all octants, axis parallel, diagonal, single points, up to 2000 cells, negative coordinates) against the ideal line; rays from positions inside grids of arbitrary scale and offset in all directions (axis parallel and nearly so, vertical) against the exact crossings of the cell borders, computed in extended precision, up to the first crossing of a corner; illumination of random height fields by lights inside and outside of the grid, in the rows and columns of cells, above and below, with and without extent, against a brute-force intersection of the light ray with every cell. Non-trivial: a line of more than three cells, a ray that crosses at least two borders, or a cell that is neither fully lit nor alone."; }
PROP(bresenham, 3) {
    int m = c.pick(std::vector<int>{3, 20, 200, 2000}); bool neg = c.boolean(); auto co = [&] { return neg ? (int)c.rangeC(-m, m) : (int)c.range(0, m); }; int x0 = co(), y0 = co(), x1 = co(), y1 = co(); switch(c.draw(6)) { case 0: x1 = x0; break; case 1: y1 = y0; break; case 2: y1 = y0 + (x1 - x0); if(!neg && y1 < 0) y1 = 0; break; } c.note(fmt("line from %d %d to %d %d", x0, y0, x1, y1));
    std::vector<Eigen::Vector2i> l; Bresenham b(Eigen::Vector2i(x0, y0), Eigen::Vector2i(x1, y1)); if(c.boolean()) { b.init(3, 4, 9, 1); Eigen::Vector2i p; b.getNextPoint(p); b.getNextPoint(p); b.init(x0, y0, x1, y1); } int dx = x1 - x0, dy = y1 - y0, n = std::max(abs(dx), abs(dy)); Eigen::Vector2i p; while(b.getNextPoint(p)) { l.push_back(p); CHECK((int)l.size() <= n + 1, "the line is too long"); } CHECK(!b.getNextPoint(p), "the line goes on after its end");
    CHECK_EQ((int)l.size(), n + 1, "cells of the line"); CHECK(l[0] == Eigen::Vector2i(x0, y0), "the line does not begin at its start"); CHECK(l.back() == Eigen::Vector2i(x1, y1), "the line does not end at its end");
    for(size_t i = 0; i < l.size(); i++) { if(i) { Eigen::Vector2i d = l[i] - l[i - 1]; CHECK(std::max(abs(d.x()), abs(d.y())) == 1, fmt("cells %zu and %zu of the line are not neighbours", i - 1, i)); CHECK(d.x()*dx >= 0 && d.y()*dy >= 0 && (dx || !d.x()) && (dy || !d.y()), "the line goes backwards"); if(abs(dx) >= abs(dy)) CHECK(d.x(), "no advance along the longer axis"); if(abs(dy) >= abs(dx)) CHECK(d.y(), "no advance along the longer axis"); }
        if(n) { double t = abs(dx) >= abs(dy) ? double(l[i].x() - x0)/dx : double(l[i].y() - y0)/dy; double e = std::max(fabs(x0 + t*dx - l[i].x()), fabs(y0 + t*dy - l[i].y())); CHECK(e <= 0.5 + 1e-9, fmt("cell %zu is %g cells away from the line", i, e)); } }
    if(!neg && x1 >= 0 && y1 >= 0) { std::vector<GridBase::Position> v(1, GridBase::Position(7, 7)), w; lineBresenham(GridBase::Position(x0, y0), GridBase::Position(x1, y1), v); CHECK_EQ(v.size(), l.size() + 1, "points appended"); CHECK(v[0] == GridBase::Position(7, 7), "the points before were changed"); Bresenham k(GridBase::Position(x0, y0), GridBase::Position(x1, y1)); if(c.boolean()) k.init(GridBase::Position(x0, y0), GridBase::Position(x1, y1)); k.getLine(w); for(size_t i = 0; i < l.size(); i++) CHECK((int)v[i + 1].x == l[i].x() && (int)v[i + 1].y == l[i].y() && v[i + 1] == w[i], "the forms of the line differ"); }
    if(n > 3) c.nontrivial();
}
PROP(traversal, 3) {
    size_t nx = c.range(1, 30), ny = c.range(1, 30); double sx = c.boolean() ? 1 : c.real(0.05, 3), sy = c.boolean() ? sx : c.real(0.05, 3), ox = c.boolean() ? 0 : c.signedReal(20), oy = c.boolean() ? 0 : c.signedReal(20); ElevationGrid g(nx, ny, sx, sy, ox, oy); size_t kx = c.draw(nx), ky = c.draw(ny); double fx = c.real(0.05, 0.95), fy = c.real(0.05, 0.95); Eigen::Vector3d o(ox + (kx + fx)*sx, oy + (ky + fy)*sy, c.signedReal(3)), d(0, 0, 0);
    switch(c.draw(4)) { case 0: d[c.draw(2)] = c.boolean() ? 1 : -1; if(c.boolean()) d.z() = c.signedReal(1); break; case 1: { double a = c.signedReal(M_PI); d = Eigen::Vector3d(cos(a), sin(a), c.signedReal(1)); break; } case 2: d = Eigen::Vector3d(c.rangeC(-3, 3), c.rangeC(-3, 3), 1); break; default: d = Eigen::Vector3d(c.signedReal(1), c.signedReal(1), 0)*c.pick(std::vector<double>{1, 1e-3, 100}); if(d.norm() == 0) d.x() = 1; }
    bool outside = c.chance(1, 10); if(outside) o[c.draw(2)] += 1000; c.note(fmt("grid %zux%zu scale %g %g offset %g %g, from cell %zu %zu + %g %g%s, direction ", nx, ny, sx, sy, ox, oy, kx, ky, fx, fy, outside ? " moved outside" : "") + vec(d)); VoxelTraversal v(g); if(c.boolean()) { v.init(Eigen::Vector3d(ox + sx/2, oy + sy/2, 0), Eigen::Vector3d(1, 0.3, 0)); GridBase::Position p; v.step(p); } v.init(o, d); GridBase::Position p;
    if(outside) { CHECK(!v.step(p), "a ray that begins outside of the grid has cells"); c.label("outside"); return; } if(d.x() == 0 && d.y() == 0) { CHECK(!v.step(p), "a vertical ray leaves its cell"); c.label("vertical"); return; }
    long x = kx, y = ky; long double INF = INFINITY; int steps = 0; while(true) { long double bx = ox + (long double)(d.x() > 0 ? x + 1 : x)*sx, by = oy + (long double)(d.y() > 0 ? y + 1 : y)*sy, tx = d.x() ? (bx - o.x())/d.x() : INF, ty = d.y() ? (by - o.y())/d.y() : INF; long double scale = std::max(sx/fabs(d.x() ? d.x() : 1e-300), 0.0), sc2 = sy/fabs(d.y() ? d.y() : 1e-300); long double tol = 1e-9L*std::min(scale, (long double)sc2)*(1 + steps) + 1e-12L*(fabsl(tx) < INF ? fabsl(tx) : 0); if(fabsl(tx - ty) < tol) { c.label("corner"); break; }
        if(tx < ty) x += d.x() > 0 ? 1 : -1; else y += d.y() > 0 ? 1 : -1; bool in = x >= 0 && y >= 0 && x < (long)nx && y < (long)ny; bool r = v.step(p); steps++; CHECK_EQ(r, in, fmt("whether the ray is still in the grid after %d steps", steps)); if(!in) { CHECK(!v.step(p), "a ray came back into the grid"); break; } CHECK(p.x == (size_t)x && p.y == (size_t)y, fmt("cell %d of the ray is %zu %zu instead of %ld %ld", steps, p.x, p.y, x, y)); }
    if(steps > 2) c.nontrivial();
}
PROP(illumination, 2) {
    eu::Quiet q; Environment env; size_t nx = c.range(1, 9), ny = c.range(1, 9); double sx = c.boolean() ? 1 : c.real(0.1, 2), sy = c.boolean() ? sx : c.real(0.1, 2), ox = c.boolean() ? 0 : c.signedReal(5), oy = c.boolean() ? 0 : c.signedReal(5); ElevationGrid* g = new ElevationGrid(nx, ny, sx, sy, ox, oy); env.setFrameNode(g, env.getRootNode());
    std::vector<std::vector<double>> h(ny, std::vector<double>(nx)); for(auto& r : h) for(auto& v : r) v = c.chance(1, 3) ? c.signedReal(3) : 0; { auto& a = g->getGridData(ElevationGrid::ELEVATION_MAX); for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) a[y][x] = h[y][x]; }
    // light in cell coordinates, never on a cell border
    auto lc = [&](size_t n) { double k = c.boolean() ? c.range(0, n - 1) : c.rangeC(-5, 5 + n); return k + (c.boolean() ? 0.5 : c.real(0.05, 0.95)); }; double lx = lc(nx), ly = lc(ny), lz = c.boolean() ? 2 : c.signedReal(6), dia = c.boolean() ? c.real(0.1, 2) : 0; Eigen::Vector3d light(ox + lx*sx, oy + ly*sy, lz); c.note(fmt("%zux%zu scale %g %g offset %g %g, light in cell %g %g at height %g, diameter %g", nx, ny, sx, sy, ox, oy, lx, ly, lz, dia));
    GridIllumination* op = new GridIllumination(); env.attachItem(op); CHECK(op->addOutput(g), "adding the output"); op->setLightSource(light, dia); std::string band = ElevationGrid::ILLUMINATION; if(c.boolean()) { band = ElevationGrid::VISIBILITY; op->setOutputBand(band); } CHECK(op->updateAll(), "the operator failed"); const ElevationGrid& cg = *g; long cx = (long)floor(lx), cy = (long)floor(ly); bool lin = cx >= 0 && cy >= 0 && cx < (long)nx && cy < (long)ny; bool shadow = false;
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { CHECK_EQ(cg.getFromRaster(ElevationGrid::ELEVATION_MAX, x, y), h[y][x], "the elevation was changed"); double r = cg.getFromRaster(band, x, y); Eigen::Vector2d a(x + 0.5, y + 0.5), b(lx, ly); std::string at = fmt("illumination %g of cell %zu %zu", r, x, y); CHECK(r >= 0 && r <= 1, at + " is not between 0 and 1"); double must = 0, may = 0; if(lin && cx == (long)x && cy == (long)y) { CHECK(r == 1, at + ", which the light is in"); continue; }
        Eigen::Vector2d dm((b.x() - a.x())*sx, (b.y() - a.y())*sy); double dn = dm.norm(), dz = lz - h[y][x]; if(dn < 1e-9) continue; double lo = (dz - dia/2)/dn, hi = (dz + dia/2)/dn;
        for(size_t v = 0; v < ny; v++) for(size_t u = 0; u < nx; u++) { if(u == x && v == y) continue; if(lin && cx == (long)u && cy == (long)v) continue; double t0 = 0, t1 = 1; auto clip = [&](double p, double dd, double l, double hh) { if(fabs(dd) < 1e-12) { if(p < l - 1e-9 || p > hh + 1e-9) t1 = -1; else if(p < l + 1e-9 || p > hh - 1e-9) t1 = std::min(t1, t0 + 1e-7); } else { double s = (l - p)/dd, e = (hh - p)/dd; if(s > e) std::swap(s, e); t0 = std::max(t0, s); t1 = std::min(t1, e); } }; clip(a.x(), b.x() - a.x(), u, u + 1); clip(a.y(), b.y() - a.y(), v, v + 1); if(t1 < t0 - 1e-9) continue; bool sure = t1 > t0 + 1e-6; double dist = std::hypot((u - (double)x)*sx, (v - (double)y)*sy), sl = (h[v][u] - h[y][x])/dist; double z0, z1; if(dia > 0) z0 = z1 = (sl - lo)/(hi - lo); else { z0 = sl > lo + 1e-9 ? 1 : 0; z1 = sl > lo - 1e-9 ? 1 : 0; } if(sure) must = std::max(must, z0); may = std::max(may, z1); }
        double up = 1 - std::min(1.0, must), dn2 = 1 - std::min(1.0, std::max(may, 0.0)); CHECK(r <= up + 1e-7 && r >= dn2 - 1e-7, at + fmt(", expected between %g and %g", dn2, up)); if(up < 1) shadow = true; }
    if(shadow) c.nontrivial();
}
