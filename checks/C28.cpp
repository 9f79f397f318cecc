//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/tools/BresenhamLine.cpp src/tools/RadialLookUpTable.cpp src/tools/BoxLookUpTable.cpp src/operators/TraversabilityGrassfire.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 60000
//@ thorough: 800000
// The grassfire: which terrain a robot can reach, and how well it can drive there.
#include "mlsutil.hpp"
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/TraversabilityGrassfire.hpp>
using namespace pbt; using namespace envire;
namespace pbt { const char* RULE = "MLS grids of up to 14 x 14 cells with terrain whose reachability does not depend on the order of the search: smooth or bumpy ground without steps above the limit, walls of all heights a robot cannot climb, holes, low and high ceilings, layers below the ground and measurements to be filtered out; the grid lies anywhere in the world (shifted in all directions and turned), the robot starts on ground or in a hole near some. The classes, probabilities and registered classes of the output are compared with connected components, steps to neighbours and a least squares plane, also when the operator runs again after the terrain or the start has changed, and when it cannot find any ground. Non-trivial: at least one cell of a drivable class and one of another class."; }
namespace {
enum Kind { GROUND, WALL, TALL, HOLE, LOWCEIL };
struct Cfg { double S, R, slope; int n, nominal, fmin; double fstd; };
struct Terrain { size_t nx, ny; double sx, sy, ox, oy; std::vector<int> kind; std::vector<double> h, top; std::vector<std::vector<SurfacePatch>> p; std::vector<int> cnt; };
void build(Ctx& c, Terrain& t, const Cfg& k) {
    size_t N = t.nx*t.ny; t.kind.assign(N, GROUND); t.h.assign(N, 0); t.top.assign(N, 0); t.p.assign(N, {}); t.cnt.assign(N, 0); int mode = c.draw(4); double a = mode == 1 ? c.signedReal(0.9)*k.S/t.sx/2 : 0, b = mode == 1 ? c.signedReal(0.9)*k.S/t.sy/2 : 0, z0 = c.signedReal(3); int dens = c.draw(4);
    for(size_t i = 0; i < N; i++) { size_t x = i%t.nx, y = i/t.nx; double h = z0; if(mode == 1) h += a*x*t.sx + b*y*t.sy; if(mode == 2) h += c.unit()*0.45*k.S; if(mode == 3) h += 0.3*k.S*sin(x*0.9)*cos(y*1.1) + c.unit()*0.1*k.S; t.h[i] = h; if(c.draw(12) < (uint32_t)dens) t.kind[i] = 1 + c.draw(4); }
    auto around = [&](size_t i, double& lo, double& hi) { lo = hi = t.h[i]; for(int dy = -1; dy <= 1; dy++) for(int dx = -1; dx <= 1; dx++) { long x = (long)(i%t.nx) + dx, y = (long)(i/t.nx) + dy; if(x < 0 || y < 0 || x >= (long)t.nx || y >= (long)t.ny) continue; lo = std::min(lo, t.h[y*t.nx + x]); hi = std::max(hi, t.h[y*t.nx + x]); } };
    const double m = 0.02; for(size_t i = 0; i < N; i++) { double lo, hi; around(i, lo, hi); double sd = c.pick(std::vector<double>{0.001, 0.01, 0.005}); auto add = [&](double bottom, double top, int n) { double s = (top - bottom)/2; SurfacePatch p((bottom + top)/2, s); p.n = n; t.p[i].push_back(p); }; int n = c.range(1, 12); if(t.kind[i] != GROUND && n < k.fmin) n = k.fmin; t.cnt[i] = n; if(t.kind[i] == LOWCEIL && k.R < 3*k.S) t.kind[i] = WALL;
        double first = c.chance(1, 6) ? 1 : 0;
        if(t.kind[i] != HOLE && first && t.kind[i] != TALL && c.boolean()) { add(lo - 3 - 2*k.R, lo - 3 - k.R, 3); c.label("layer below"); }
        if(t.kind[i] == HOLE && c.chance(1, 3) && k.fmin) { add(t.h[i] - 2*sd, t.h[i] - 2*sd + 2*k.fstd*1.2, k.fmin - 1); c.label("filtered"); }
        if(t.kind[i] == GROUND && c.chance(1, 6) && k.fmin) { add(hi + k.S*0.5, hi + k.S*0.5 + 2*k.fstd*1.2, k.fmin - 1); c.label("filtered"); }
        switch(t.kind[i]) {
        case GROUND: case LOWCEIL: if(c.chance(1, 5)) { sd = 1 + 4*c.unit(); if(n < k.fmin) t.cnt[i] = n = k.fmin; c.label("thick ground"); } add(t.h[i] - 2*sd, t.h[i], n); t.top[i] = t.h[i]; if(t.kind[i] == LOWCEIL) { double cb = t.h[i] + std::max(2.2*k.S, 0.1) + c.unit()*(k.R - std::max(2.2*k.S, 0.1) - m); if(cb < hi + k.S + m) cb = hi + k.S + m; if(cb - t.h[i] > k.R - m || cb < t.h[i] + 2.1*k.S) { t.kind[i] = GROUND; } else { t.top[i] = cb + 0.1 + c.unit(); n = c.range(1, 12); if(n < k.fmin) n = k.fmin; t.cnt[i] = n; add(cb, t.top[i], n); c.label("low ceiling"); } }
            if(t.kind[i] == GROUND && c.chance(1, 6)) { double cb = hi + k.R + k.S + m + c.unit(); add(cb, cb + 0.2, 4); c.label("high ceiling"); } break;
        case WALL: { double top = hi + k.S + m + c.unit()*(c.boolean() ? 0.1 : 2), bot = c.boolean() ? lo - 0.01 : top - 0.01; if(bot > lo + k.R + k.S - m) bot = lo; t.top[i] = top; add(bot, top, n); break; }
        case TALL: { double bot = hi + k.R + k.S + m + c.unit(); add(bot, bot + 0.3, n); break; }
        default: break; } }
}
}
PROP(terrain, 1) {
    eu::Quiet q; Cfg k; k.S = c.pick(std::vector<double>{0.2, 0.1, 0.3}); k.R = c.pick(std::vector<double>{1, 0.5, 2}); k.slope = c.pick(std::vector<double>{0.5, 0.3, 1.0, 0.1}); k.n = c.range(1, 20); k.nominal = c.range(1, 10); k.fmin = c.boolean() ? c.range(2, 4) : 0; k.fstd = k.fmin ? 0.05 : 0; if(k.fmin && c.boolean()) k.fstd = 0.1;
    Terrain t; t.nx = c.range(1, 14); t.ny = c.range(1, 14); t.sx = c.pick(std::vector<double>{0.5, 0.1, 1}); t.sy = c.chance(1, 4) ? t.sx*1.5 : t.sx; t.ox = c.signedReal(5); t.oy = c.signedReal(5); Environment env; MLSGrid* g = new MLSGrid(t.nx, t.ny, t.sx, t.sy, t.ox, t.oy); Eigen::Affine3d T = Eigen::Affine3d::Identity(); if(c.boolean()) { T.linear() = Eigen::AngleAxisd(c.boolean() ? c.signedReal(M_PI) : 0, Eigen::Vector3d::UnitZ()).toRotationMatrix(); T.translation() = Eigen::Vector3d(c.signedReal(10), c.signedReal(10), c.boolean() ? c.signedReal(10) : 0); FrameNode* f = new FrameNode(T); env.addChild(env.getRootNode(), f); env.setFrameNode(g, f); c.label("own frame"); } else env.setFrameNode(g, env.getRootNode());
    TraversabilityGrid* o = new TraversabilityGrid(t.nx, t.ny, t.sx, t.sy, t.ox, t.oy); env.setFrameNode(o, g->getFrameNode()); TraversabilityGrassfire* op = new TraversabilityGrassfire(); env.attachItem(op); op->addInput(g); op->addOutput(o); TraversabilityGrassfire::Config cf; cf.maxStepHeight = k.S; cf.maxSlope = k.slope; cf.robotHeight = k.R; cf.numTraversabilityClasses = k.n; cf.numNominalMeasurements = k.nominal; cf.outliertFilterMinMeasurements = k.fmin; cf.outliertFilterMaxStdDev = k.fstd; op->setConfig(cf);
    size_t rounds = c.range(1, 3), N = t.nx*t.ny;
    for(size_t r = 0; r < rounds; r++) {
        if(r == 0 || c.boolean()) { build(c, t, k); g->clear(); for(size_t i = 0; i < N; i++) { bool rev = c.chance(1, 4); if(rev) std::reverse(t.p[i].begin(), t.p[i].end()); for(auto& p : t.p[i]) g->insertTail(i%t.nx, i/t.nx, p); } c.note("terrain"); }
        std::string rows; if(c.isRendering()) { for(size_t y = 0; y < t.ny; y++) { for(size_t x = 0; x < t.nx; x++) rows += ".#T c"[t.kind[y*t.nx + x]]; rows += "\n"; } c.note(rows); }
        // where the robot is: in a cell, close to its ground
        bool outside = c.chance(1, 15); size_t st = c.draw(N); double z = t.h[st] + c.signedReal(0.4)*k.S; Eigen::Vector3d pos(t.ox + (st%t.nx + c.real(0.05, 0.95))*t.sx, t.oy + (st/t.nx + c.real(0.05, 0.95))*t.sy, z); if(outside) pos.x() = t.ox + (c.boolean() ? -0.5 : t.nx + 0.5)*t.sx; Eigen::Vector3d w = T*pos; op->setStartPosition(w); c.note(fmt("%zux%zu scale %g %g, start in cell %zu %zu at %g (grid frame), outside %d; step %g robot %g slope %g classes %d nominal %d filter %d %g", t.nx, t.ny, t.sx, t.sy, st%t.nx, st/t.nx, z, (int)outside, k.S, k.R, k.slope, k.n, k.nominal, k.fmin, k.fstd));
        // expected start
        std::set<size_t> starts; if(!outside) for(int ring = 0; ring < 10 && starts.empty(); ring++) for(int dy = -ring; dy <= ring; dy++) for(int dx = -ring; dx <= ring; dx++) { if(abs(dx) != ring && abs(dy) != ring) continue; long x = (long)(st%t.nx) + dx, y = (long)(st/t.nx) + dy; if(x < 0 || y < 0 || x >= (long)t.nx || y >= (long)t.ny) continue; size_t i = y*t.nx + x; if(t.kind[i] != HOLE && t.kind[i] != TALL) starts.insert(i); else if(t.kind[i] == TALL) { double b = t.p[i][0].getMean() - t.p[i][0].getStdev(); if(b < z + k.R + k.S + 0.01) c.discard(); } }
        for(size_t i : starts) { if(t.kind[i] != GROUND) { c.label("start undecided"); c.discard(); } if(fabs(t.h[i] - z) > k.S*0.9) c.discard(); }
        std::vector<char> reach(N, 0), asg(N, 0); std::vector<size_t> stack; if(starts.size()) { stack.push_back(*starts.begin()); } bool found = !starts.empty();
        while(stack.size()) { size_t i = stack.back(); stack.pop_back(); if(reach[i]) continue; reach[i] = asg[i] = 1; for(int dy = -1; dy <= 1; dy++) for(int dx = -1; dx <= 1; dx++) { long x = (long)(i%t.nx) + dx, y = (long)(i/t.nx) + dy; if(x < 0 || y < 0 || x >= (long)t.nx || y >= (long)t.ny) continue; size_t j = y*t.nx + x; if(t.kind[j] == GROUND) stack.push_back(j); else if(t.kind[j] == WALL || t.kind[j] == LOWCEIL) asg[j] = 1; } }
        for(size_t i : starts) if(!reach[i]) c.discard(); // the search may begin in either part
        bool ret = op->updateAll(); CHECK_EQ(ret, found, "result of the operator");
        auto& tr = o->getGridData(TraversabilityGrid::TRAVERSABILITY); auto& pr = o->getGridData(TraversabilityGrid::PROBABILITY); bool drivable = false, other = false;
        for(size_t i = 0; i < N; i++) {
            int got = tr.data()[i]; std::string nm = fmt("cell %zu %zu: ", i%t.nx, i/t.nx); double ep = asg[i] ? std::min(1.0, t.cnt[i]/(double)k.nominal) : 0; CHECK_CLOSE(pr.data()[i]/255.0, ep, 0, 1.01/255, nm + "probability");
            if(!asg[i]) { CHECK_EQ(got, 0, nm + "class of terrain that was not reached"); other = true; continue; }
            int cnt = 0; bool step = false; double amb = 1; Eigen::Matrix3d A = Eigen::Matrix3d::Zero(); Eigen::Vector3d b = Eigen::Vector3d::Zero(); auto upd = [&](double x, double y, double z) { Eigen::Vector3d v(x, y, 1); A += v*v.transpose(); b += v*z; }; upd(0, 0, 0);
            for(int dy = -1; dy <= 1; dy++) for(int dx = -1; dx <= 1; dx++) { long x = (long)(i%t.nx) + dx, y = (long)(i/t.nx) + dy; if((!dx && !dy) || x < 0 || y < 0 || x >= (long)t.nx || y >= (long)t.ny || !asg[y*t.nx + x]) continue; double d = t.top[y*t.nx + x] - t.top[i]; cnt++; amb = std::min(amb, fabs(fabs(d) - k.S)); if(fabs(d) > k.S) step = true; upd(dx*t.sx, dy*t.sy, d); }
            if(amb < 1e-5) continue; if(step) { CHECK_EQ(got, 1, nm + "class of terrain with a step"); other = true; continue; } if(cnt < 5) { CHECK_EQ(got, 0, nm + fmt("class with %d neighbours", cnt)); other = true; continue; }
            Eigen::Vector3d f = A.fullPivLu().solve(b); double slope = atan(hypot(f.x(), f.y())), dr = 1 - slope/k.slope; if(fabs(slope - k.slope) < 1e-4) continue; if(slope > k.slope) { CHECK_EQ(got, 1, nm + fmt("class of a slope of %g", slope)); other = true; continue; }
            double e = dr*k.n; int lo = 1 + std::max(0, (int)ceil(e - 0.003*k.n)), hi = 1 + (int)ceil(e + 0.0005*k.n); if(hi > 1 + k.n) hi = 1 + k.n; CHECK(got >= lo && got <= hi, nm + fmt("class %d, the slope is %g", got, slope)); if(got > 1) drivable = true; else other = true;
        }
        if(found) { c.label("ground found"); if(drivable && other) c.nontrivial(); } else c.label(outside ? "start outside" : "no ground");
        if(found) { CHECK_EQ(o->getTraversabilityClass(1).getDrivability(), 0.0, "drivability of obstacles"); CHECK_EQ(o->getTraversabilityClass(0).getDrivability(), 1.0, "drivability of unknown terrain"); for(int i = 1; i <= k.n; i++) CHECK_CLOSE(o->getTraversabilityClass(1 + i).getDrivability(), i/(double)k.n, 1e-9, 0, fmt("drivability of class %d", 1 + i)); }
    }
    if(c.chance(1, 30)) { c.label("other size"); TraversabilityGrid* d = new TraversabilityGrid(t.nx + 1, t.ny, t.sx, t.sy); env.setFrameNode(d, g->getFrameNode()); op->setOutput(d); CHECK_THROWS(op->updateAll(), "the output has another size than the input"); }
}
