//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/tools/BresenhamLine.cpp src/tools/RadialLookUpTable.cpp src/tools/BoxLookUpTable.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 40000
//@ thorough: 1500000
// Traversability grids: classes, values, statistics of rectangles, persistence.
#include "envutil.hpp"
#include <envire/maps/TraversabilityGrid.hpp>
#include <boost/filesystem.hpp>
#include <memory>
using namespace pbt; using namespace envire;
namespace pbt { const char* RULE = "Histories of up to 50 operations on up to four traversability grids: registering classes under chosen numbers (0 to 255) and new ones, setting traversability and probability by cell and through the bands, copying, cloning, assigning and setting grids and then changing either side, loading another state; compared with a plain model. Statistics of arbitrary measurements (all 256 classes) and of the cells under oriented rectangles (with and without a border, cells of any proportion, in rectangles from less than a cell to the whole grid) are compared with a count over the visited cells. Grids are saved and loaded and sent as binary events. Non-trivial: two classes and two differing cells, or a rectangle that covers at least two cells of different classes."; }
namespace {
struct Model { size_t nx, ny; std::map<int, double> cls; int top; std::vector<uint8_t> tr, pr; };  // cls: number -> drivability of set classes
double drivability(Ctx& c) { switch(c.draw(3)) { case 0: return c.draw(11)/10.0; case 1: return c.pick(std::vector<double>{0, 1, 0.5, 1e-9, 1.0000005}); default: return c.unit(); } }
void checkGrid(TraversabilityGrid& g, const Model& m, const std::string& w) {
    CHECK_EQ(g.getTraversabilityClasses().size(), (size_t)(m.top + 1), w + ": number of classes");
    if(m.top < 255) CHECK_THROWS(g.getTraversabilityClass(m.top + 1), w + fmt(": class %d", m.top + 1)); for(int i = 0; i <= m.top; i++) { const TraversabilityClass& k = g.getTraversabilityClass(i); auto it = m.cls.find(i); bool set = it != m.cls.end(); CHECK(k.isSet() == set, w + fmt(": class %d is set: %d", i, (int)k.isSet())); CHECK(k.getDrivability() == (set ? it->second : 0.0), w + fmt(": drivability of class %d is %g", i, k.getDrivability())); CHECK(k.isTraversable() == (set && it->second > 0), w + fmt(": class %d is traversable", i)); }
    const TraversabilityGrid& cg = g;
    for(size_t y = 0; y < m.ny; y++) for(size_t x = 0; x < m.nx; x++) { size_t i = y*m.nx + x; CHECK_CLOSE(cg.getProbability(x, y), m.pr[i]/255.0, 0, 1e-12, w + fmt(": probability of cell %zu %zu", x, y)); CHECK_EQ((int)g.getGridData(TraversabilityGrid::TRAVERSABILITY)[y][x], (int)m.tr[i], w + fmt(": class of cell %zu %zu", x, y)); CHECK_EQ((int)g.getGridData(TraversabilityGrid::PROBABILITY)[y][x], (int)m.pr[i], w + fmt(": probability value of cell %zu %zu", x, y));
        if(m.tr[i] <= m.top) { CHECK(&cg.getTraversability(x, y) == &cg.getTraversabilityClass(m.tr[i]), w + fmt(": cell %zu %zu has another class than %d", x, y, m.tr[i])); } else if(m.nx*m.ny < 4 || i == 0) CHECK_THROWS(cg.getTraversability(x, y), w + fmt(": cell %zu %zu has class %d, which does not exist", x, y, m.tr[i])); }
}
struct E { TraversabilityGrid::Ptr g; Model m; };
E fresh(Ctx& c, size_t nx, size_t ny, double sx, double sy, double ox, double oy) { E e; e.g = new TraversabilityGrid(nx, ny, sx, sy, ox, oy); e.m = Model{nx, ny, {}, -1, std::vector<uint8_t>(nx*ny), std::vector<uint8_t>(nx*ny)}; (void)c; return e; }
void step(Ctx& c, E& e) {
    TraversabilityGrid& g = *e.g; Model& m = e.m; size_t x = c.draw(m.nx), y = c.draw(m.ny), i = y*m.nx + x; int k = c.boolean() ? c.draw(8) : c.pick(std::vector<int>{255, 254, 0, 100, 1}); double p = c.boolean() ? c.draw(256)/255.0 : c.pick(std::vector<double>{0, 1, 1.5, 0.5, 0.003}); if(c.boolean()) p = c.unit();
    uint8_t pv; { TraversabilityGrid* gp = &g; switch(c.weighted({3, 2, 5, 3, 3, 1, 1})) {
    case 0: { double d = drivability(c); c.note(fmt("class %d = %g", k, d)); g.setTraversabilityClass(k, TraversabilityClass(d)); m.cls[k] = d; m.top = std::max(m.top, k); return; }
    case 1: { double d = drivability(c); uint8_t id = 77; bool r = g.registerNewTraversabilityClass(id, TraversabilityClass(d)); c.note(fmt("new class %g: %d as %d", d, (int)r, id)); if(!r) { CHECK(m.top >= 254, "no new class, though there are free numbers above all others"); return; } CHECK(!m.cls.count(id), fmt("the new class got number %d, which is taken", id)); m.cls[id] = d; m.top = std::max<int>(m.top, id); return; }
    case 2: c.note(fmt("cell %zu %zu class %d", x, y, k)); g.setTraversability(k, x, y); m.tr[i] = k; return;
    case 3: c.note(fmt("cell %zu %zu probability %.17g", x, y, p)); g.setProbability(p, x, y); break;
    case 4: c.note(fmt("cell %zu %zu class %d probability %.17g", x, y, k, p)); g.setTraversabilityAndProbability(k, p, x, y); m.tr[i] = k; break;
    case 5: c.note(fmt("band cell %zu %zu class %d", x, y, k)); g.getGridData(TraversabilityGrid::TRAVERSABILITY)[y][x] = k; m.tr[i] = k; return;
    default: CHECK(gp->getBands().size() == 2, "bands"); c.note("all cells"); for(size_t a = 0; a < m.tr.size(); a++) { g.setTraversabilityAndProbability(k, (a%256)/255.0, a%m.nx, a/m.nx); m.tr[a] = k; m.pr[a] = a%256; } return;
    } }
    double r = g.getProbability(x, y); CHECK(fabs(r - std::min(p, 1.0)) <= 1/255.0 + 1e-12, fmt("probability %.17g is read as %.17g", p, r)); if(p == 0 || p >= 1) CHECK_EQ(r, p >= 1 ? 1.0 : 0.0, "probability"); pv = rint(r*255); m.pr[i] = pv;
    { g.setProbability(r, x, y); CHECK_EQ(g.getProbability(x, y), r, "a probability read and set again"); }
}
}
PROP(history, 3) {
    eu::Quiet q; size_t nx = c.range(1, 5), ny = c.range(1, 5); std::vector<E> gs; gs.push_back(fresh(c, nx, ny, 1, 1, 0, 0)); size_t n = c.size(1, 50); int copies = 0;
    for(size_t i = 0; i < n; i++) {
        size_t j = c.draw(gs.size()); E& e = gs[j];
        switch(c.weighted({12, 1, 1, 1, 1})) {
        case 0: step(c, e); break;
        case 1: if(gs.size() < 4) { c.note(fmt("clone %zu", j)); E k = e; k.g = e.g->clone(); gs.push_back(k); copies++; } break;
        case 2: if(gs.size() < 4) { c.note(fmt("copy %zu", j)); E k = e; k.g = new TraversabilityGrid(*e.g); gs.push_back(k); copies++; } break;
        case 3: { size_t o = c.draw(gs.size()); c.note(fmt("assign %zu to %zu", o, j)); if(c.boolean()) *e.g = *gs[o].g; else e.g->set(gs[o].g.get()); Model mm = gs[o].m; e.m = mm; copies++; break; }
        default: if(gs.size() < 4) { c.note("another grid"); gs.push_back(fresh(c, nx, ny, 1, 1, 0, 0)); } break;
        }
        for(size_t k = 0; k < gs.size(); k++) checkGrid(*gs[k].g, gs[k].m, fmt("grid %zu", k));
    }
    for(auto& e : gs) { std::set<int> v(e.m.tr.begin(), e.m.tr.end()); if(e.m.cls.size() > 1 && v.size() > 1) { c.nontrivial(); if(copies) c.label("copied"); } }
    if(c.chance(1, 8)) { c.label("invalid class"); CHECK_THROWS(TraversabilityClass(c.pick(std::vector<double>{-1, -1e-9, 1.1, 2})), "a drivability outside of [0,1] was accepted"); }
    if(c.chance(1, 20)) { c.label("all classes"); TraversabilityGrid g(1, 1, 1, 1); std::set<int> ids; uint8_t id; while(ids.size() < 300 && g.registerNewTraversabilityClass(id, TraversabilityClass(ids.size()/300.0))) { CHECK(ids.insert(id).second, fmt("number %d is given to two classes", id)); int k = 0; for(int j : ids) (void)j, k++; CHECK_EQ(g.getTraversabilityClass(id).getDrivability(), (ids.size() - 1)/300.0, "drivability of a new class"); } CHECK(ids.size() >= 100 && ids.size() <= 256, "number of classes"); }
}
PROP(statistic, 1) {
    TraversabilityStatistic s; std::map<int, std::pair<double, size_t>> m; size_t n = c.size(0, 40), tot = 0; int top = 0;
    for(size_t i = 0; i < n; i++) { int k = c.chance(1, 3) ? c.pick(std::vector<int>{255, 254, 0}) : (int)c.draw(256); double d = c.real(0, 10); c.note(fmt("class %d at %g", k, d)); s.addMeasurement(k, d); tot++; top = std::max(top, k); auto it = m.find(k); if(it == m.end()) m[k] = {d, 1}; else { it->second.first = std::min(it->second.first, d); it->second.second++; } }
    CHECK_EQ(s.getTotalCount(), tot, "total count"); CHECK_EQ((int)s.getHighestTraversabilityClass(), top, "highest class"); if(m.size() > 1) c.nontrivial();
    for(int k = 0; k < 256; k++) { double d = -1; size_t cnt = 999; s.getStatisticForClass(k, d, cnt); auto it = m.find(k); CHECK_EQ(cnt, it == m.end() ? 0 : it->second.second, fmt("count of class %d", k)); CHECK_EQ(s.getClassCount(k), cnt, fmt("count of class %d", k)); CHECK_EQ(d, it == m.end() ? std::numeric_limits<double>::max() : it->second.first, fmt("least distance of class %d", k)); }
}
PROP(rectangles, 4) {
    eu::Quiet q; size_t nx = c.range(2, 24), ny = c.range(2, 24); double sx = c.pick(std::vector<double>{1, 0.1, 0.05, 2}), sy = c.chance(1, 3) ? sx*c.pick(std::vector<double>{0.5, 2, 0.25, 3, 0.7}) : sx, ox = c.signedReal(20), oy = c.signedReal(20); E e = fresh(c, nx, ny, sx, sy, ox, oy); TraversabilityGrid& g = *e.g; Model& m = e.m;
    int mode = c.draw(3); std::vector<int> use; for(int i = 0; i < 4; i++) use.push_back(mode == 0 ? i : mode == 1 ? (int)c.draw(256) : c.pick(std::vector<int>{255, 254, 3, 2})); bool all = !c.chance(1, 6); if(all) for(int i = 0; i < 256; i++) { double d = c.draw(3) ? 0.3 + 0.7*c.draw(200)/200.0 : drivability(c); if(i != 255 || use[0] == 255 || use[1] == 255 || use[2] == 255 || use[3] == 255) { g.setTraversabilityClass(i, TraversabilityClass(d)); m.cls[i] = d; m.top = i; } } else { g.setTraversabilityClass(use[0], TraversabilityClass(0.5)); m.cls[use[0]] = 0.5; m.top = use[0]; c.label("unregistered classes"); }
    for(size_t i = 0; i < nx*ny; i++) { int k = use[c.draw(4)]; g.setTraversabilityAndProbability(k, 0, i%nx, i/nx); m.tr[i] = k; int p = c.draw(256); g.getGridData(TraversabilityGrid::PROBABILITY)[i/nx][i%nx] = m.pr[i] = p; }
    double W = nx*sx, H = ny*sy; base::Pose2D pose; pose.orientation = c.chance(1, 3) ? c.draw(8)*M_PI/4 : c.signedReal(M_PI); bool big = c.chance(1, 40); double lx = std::max(0.01*sx, c.unit()*std::min(W, big ? W : 5*sx)), ly = std::max(0.01*sy, c.unit()*std::min(H, big ? H : 5*sx)), b = c.boolean() ? c.unit()*3*sx : c.pick(std::vector<double>{0, sx, 2*sx, 0.5*sx, 0.001*sx}); if(c.boolean()) { lx *= 0.4; ly *= 0.4; } double ext = c.chance(1, 6) ? 0 : hypot(lx + b, ly + b)/2, fx = c.unit(), fy = c.unit(); pose.position = Eigen::Vector2d(ox + (W > 2*ext ? ext + fx*(W - 2*ext) : W*fx), oy + (H > 2*ext ? ext + fy*(H - 2*ext) : H*fy));
    c.note(fmt("grid %zux%zu scale %g %g, pose %g %g %g (relative to offset), rectangle %g %g border %g", nx, ny, sx, sy, pose.position.x() - ox, pose.position.y() - oy, pose.orientation, lx, ly, b));
    std::vector<std::pair<size_t, size_t>> in, in2, out; g.forEachInRectangle(pose, lx, ly, [&](size_t x, size_t y) { in.push_back({x, y}); }); bool fits = g.forEachInRectangles(pose, lx, ly, [&](size_t x, size_t y) { in2.push_back({x, y}); }, lx + b, ly + b, [&](size_t x, size_t y) { out.push_back({x, y}); }); if(!fits) { in2.clear(); out.clear(); }
    size_t px = 0, py = 0; bool inside = g.toGrid(pose.position.x(), pose.position.y(), px, py); if(!in.empty()) CHECK(inside, "the center is not in the grid, but cells are visited");
    typedef std::map<int, std::pair<double, size_t>> Stat; auto count = [&](const std::vector<std::pair<size_t, size_t>>& v, bool box) { Stat s; for(auto& k : v) { Eigen::Vector2d w; g.fromGrid(k.first, k.second, w.x(), w.y()); double d; if(box) { Eigen::Vector2d l = Eigen::Rotation2Dd(-pose.orientation)*(w - pose.position); d = Eigen::Vector2d(std::max(fabs(l.x()) - lx/2, 0.0), std::max(fabs(l.y()) - ly/2, 0.0)).norm(); } else d = (w - pose.position).norm(); int kl = m.tr[k.second*nx + k.first]; auto it = s.find(kl); if(it == s.end()) s[kl] = {d, 1}; else { it->second.first = std::min(it->second.first, d); it->second.second++; } } return s; };
    auto cmp = [&](const TraversabilityStatistic& s, const Stat& e2, double tol, const std::string& w) { size_t tot = 0; int top = 0; for(auto& k : e2) { tot += k.second.second; top = std::max(top, k.first); } CHECK_EQ(s.getTotalCount(), tot, w + ": cells"); CHECK_EQ((int)s.getHighestTraversabilityClass(), top, w + ": highest class"); for(int k = 0; k < 256; k++) { double d; size_t n; s.getStatisticForClass(k, d, n); auto it = e2.find(k); CHECK_EQ(n, it == e2.end() ? 0 : it->second.second, w + fmt(": cells of class %d", k)); if(n) CHECK(fabs(d - it->second.first) <= tol, w + fmt(": least distance of class %d is %g, expected %g", k, d, it->second.first)); } };
    Stat si = count(in, false); std::set<int> distinct; for(auto& k : si) distinct.insert(k.first); if(distinct.size() > 1) c.nontrivial(); if(in.empty()) c.label("nothing visited"); if(sx != sy) c.label("oblong cells");
    double tol = 0.5*hypot(sx, sy)*1.001;   // the center is taken at its cell
    { TraversabilityStatistic s; g.computeStatistic(pose, lx, ly, s); cmp(s, si, tol, "rectangle"); }
    if((lx + 4*b)*(ly + 4*b) < c.pick(std::vector<int>{10, 10, 10, 20, 40})*sx*sx) { TraversabilityStatistic s, o; g.computeStatistic(pose, lx, ly, b, s, o); cmp(s, count(in2, false), tol, "inner rectangle"); cmp(o, count(out, true), 0.15*sx*1.5 + 1e-9, "border"); if(out.size() && in2.size()) c.label("border visited"); }
    { int w = 256; for(auto& k : in) w = std::min(w, (int)m.pr[k.second*nx + k.first]); CHECK_CLOSE(g.getWorstProbabilityInRectangle(pose, lx, ly), in.empty() ? 1.0 : w/255.0, 0, 1e-12, "worst probability"); }
    { bool known = true; double worst = 2; for(auto& k : si) { if(k.first > m.top) known = false; else worst = std::min(worst, m.cls.count(k.first) ? m.cls[k.first] : 0.0); } if(in.empty()) CHECK_THROWS(g.getWorstTraversabilityClassInRectangle(pose, lx, ly), "a class was found where there are no cells"); else if(known) { const TraversabilityClass& k = g.getWorstTraversabilityClassInRectangle(pose, lx, ly); CHECK_EQ(k.getDrivability(), worst, "drivability of the worst class"); } else if(worst > 0) CHECK_THROWS(g.getWorstTraversabilityClassInRectangle(pose, lx, ly), "a class was found though one of the cells has a class that does not exist"); }
}
PROP(persistence, 2) {
    eu::Quiet q; bool file = c.boolean(); size_t nx = c.range(1, 6), ny = c.range(1, 6); Environment env; E e = fresh(c, nx, ny, c.real(0.01, 2), c.real(0.01, 2), c.signedReal(10), c.signedReal(10)); e.g->setUniqueId("/t"); env.setFrameNode(e.g.get(), env.getRootNode()); size_t n = c.size(0, 20); for(size_t i = 0; i < n; i++) step(c, e); checkGrid(*e.g, e.m, "the grid"); std::set<int> v(e.m.tr.begin(), e.m.tr.end()); if(v.size() > 1 && e.m.cls.size() > 1) c.nontrivial(); if((int)e.m.cls.size() < e.m.top + 1) c.label("with placeholders");
    if(file) { c.label("scene"); std::string dir = scratchDir() + "/scene"; boost::filesystem::remove_all(dir); env.serialize(dir); checkGrid(*e.g, e.m, "after saving, the grid"); std::unique_ptr<Environment> l(Environment::unserialize(dir)); TraversabilityGrid::Ptr k = l->getItem<TraversabilityGrid>("/t"); checkGrid(*k, e.m, "the loaded grid"); E e2; e2.g = k; e2.m = e.m; size_t r = c.draw(3); for(size_t i = 0; i < r; i++) step(c, e2); checkGrid(*k, e2.m, "the loaded and changed grid"); boost::filesystem::remove_all(dir); }
    else { c.label("events"); Environment b; std::vector<BinaryEvent> ev; env.pullEvents(ev, true); b.applyEvents(ev); TraversabilityGrid::Ptr k = b.getItem<TraversabilityGrid>("/t"); checkGrid(*k, e.m, "the transferred grid"); size_t r = c.draw(3); for(size_t i = 0; i < r; i++) { c.note("update"); size_t s = c.size(0, 5); for(size_t j = 0; j < s; j++) step(c, e); e.g->itemModified(); ev.clear(); env.pullEvents(ev); b.applyEvents(ev); checkGrid(*b.getItem<TraversabilityGrid>("/t"), e.m, "the updated grid"); } }
}
