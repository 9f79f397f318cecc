//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/tools/BresenhamLine.cpp src/tools/RadialLookUpTable.cpp src/tools/BoxLookUpTable.cpp src/operators/SimpleTraversability.cpp src/operators/ObjectGrowing.cpp src/operators/TraversabilityGrowClasses.cpp src/operators/Fold.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 40000
//@ thorough: 1500000
// Operators on grids of classes: classification of terrain, growing of obstacles and classes, projection, averaging.
#include "envutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/operators/ObjectGrowing.hpp>
#include <envire/operators/TraversabilityGrowClasses.hpp>
#include <envire/operators/ClassGridProjection.hpp>
#include <envire/operators/Fold.hpp>
#include <boost/filesystem.hpp>
#include <memory>
using namespace pbt; using namespace envire;
namespace envire { class VpProjection : public ClassGridProjection<uint8_t, float> { ENVIRONMENT_ITEM(VpProjection) }; ENVIRONMENT_ITEM_DEF(VpProjection) }
namespace pbt { const char* RULE = "Slope and step maps of up to 12 x 12 cells (with no-data cells, values at and around the thresholds, one or both bands, cells of any proportion) are classified with generated limits, 1 to 60 classes, obstacle clearance and minimum passage width, once or again after the input or the configuration's operator was changed, saved and loaded or transferred; the result is compared with the rules applied cell by cell, with brute force growing, and with reachability between close obstacles. Class growing, object growing, class projection and neighbourhood averaging are compared with brute force over all pairs of cells. Non-trivial: at least two differing cells in the result."; }
namespace {
typedef TraversabilityGrid::ArrayType A8;
struct Conf { double slope; int n; double width, ground, clear; };
struct In { size_t nx, ny; double sx, sy; bool hs, hm, nds, ndm; float vs, vm; std::vector<float> s, m; };
In input(Ctx& c, const Conf& k) {
    In i; i.nx = c.range(1, 12); i.ny = c.range(1, 12); i.sx = c.pick(std::vector<double>{1, 0.1, 0.25}); i.sy = c.chance(1, 3) ? i.sx*c.pick(std::vector<double>{2, 0.5, 0.3, 1.7}) : i.sx; switch(c.draw(4)) { case 0: i.hs = true; i.hm = false; break; case 1: i.hs = false; i.hm = true; break; default: i.hs = i.hm = true; }
    i.nds = c.boolean(); i.ndm = c.boolean(); i.vs = c.pick(std::vector<float>{-1e10f, -INFINITY, 0, 77}); i.vm = c.pick(std::vector<float>{-1e10f, -INFINITY, 0, 77}); (void)k; return i; }
void fill(Ctx& c, In& i, const Conf& k) {
    int density = c.draw(4); i.s.clear(); i.m.clear(); auto value = [&](double lim, bool nd, float v) { if(c.chance(1, 5)) return nd ? v : -INFINITY; float r; bool high = c.draw(10) < (uint32_t)density*(density == 3 ? 2 : 1); if(c.chance(1, 12)) r = lim; else r = high ? lim*(1.001 + c.unit()) : lim*c.unit(); if(!lim) r = c.unit(); return c.chance(1, 4) && &v == &i.vs ? -r : r; };
    for(size_t j = 0; j < i.nx*i.ny; j++) { i.s.push_back(value(k.slope, i.nds, i.vs)); i.m.push_back(value(k.ground, i.ndm, i.vm)); } }
bool known(float v, bool nd, float ndv) { return v != (nd ? ndv : -INFINITY); }
struct Out { std::vector<int> cls, prob; };
bool ambiguous(const In& i, const Conf& k, size_t j) { double r = fabs(i.s[j])/k.slope*k.n; return fabs(r - floor(r) - 0.5) < 1e-6; }
// the rules for single cells, before obstacles are joined and grown
Out classify(const In& i, const Conf& k) { Out o; for(size_t j = 0; j < i.nx*i.ny; j++) { bool ks = i.hs && known(i.s[j], i.nds, i.vs), km = i.hm && known(i.m[j], i.ndm, i.vm); int cl = 0; if(km && k.ground && (double)i.m[j] > k.ground) cl = 1; else if(ks && k.slope) cl = fabs((double)i.s[j]) > k.slope ? 1 : 2 + k.n - (int)rint(fabs((double)i.s[j])/k.slope*k.n); o.cls.push_back(cl); o.prob.push_back(cl ? 255 : 0); } return o; }
void put(Grid<float>& g, const std::string& band, const std::vector<float>& v, bool nd, float ndv) { auto& a = g.getGridData(band); std::copy(v.begin(), v.end(), a.data()); if(nd) g.setNoData(band, ndv); }
}
PROP(classification, 5) {
    eu::Quiet q; Conf k; k.slope = c.chance(1, 8) ? 0 : c.pick(std::vector<double>{0.5, 0.25, 1.2}); k.n = c.boolean() ? 10 : c.range(1, 60); k.ground = c.chance(1, 8) ? 0 : c.pick(std::vector<double>{0.5, 0.2}); k.width = k.clear = 0; In in = input(c, k); double sc = std::min(in.sx, in.sy); if(c.chance(2, 5)) k.width = sc*(c.unit()*5 + 0.013); if(c.chance(2, 5)) k.clear = sc*(c.unit()*4 + 0.017); fill(c, in, k);
    c.note(fmt("%zux%zu scale %g %g; max slope %.17g ground clearance %g classes %d min width %.17g obstacle clearance %.17g; slope %d no-data %d %g, step %d no-data %d %g", in.nx, in.ny, in.sx, in.sy, k.slope, k.ground, k.n, k.width, k.clear, in.hs, in.nds, in.vs, in.hm, in.ndm, in.vm));
    Environment env; SimpleTraversabilityConfig conf; conf.maximum_slope = k.slope; conf.class_count = k.n; conf.min_width = k.width; conf.ground_clearance = k.ground; conf.obstacle_clearance = k.clear; SimpleTraversability* op = k.clear == 0 && c.boolean() ? new SimpleTraversability(k.slope, k.n, k.width, k.ground) : new SimpleTraversability(conf); op->setUniqueId("/op"); env.attachItem(op);
    bool oneLayer = in.hs && in.hm && c.boolean(); Grid<float>* gs = new Grid<float>(in.nx, in.ny, in.sx, in.sy); Grid<float>* gm = oneLayer ? gs : new Grid<float>(in.nx, in.ny, in.sx, in.sy); gs->setUniqueId("/s"); if(gm != gs) gm->setUniqueId("/m"); env.setFrameNode(gs, env.getRootNode()); if(gm != gs) env.setFrameNode(gm, env.getRootNode()); TraversabilityGrid* out = new TraversabilityGrid(in.nx, in.ny, in.sx, in.sy); out->setUniqueId("/o"); env.setFrameNode(out, env.getRootNode());
    CHECK_THROWS(op->updateAll(), "there was no output"); std::string band = c.chance(1, 4) ? "" : TraversabilityGrid::TRAVERSABILITY; op->setOutput(out, band); CHECK_THROWS(op->updateAll(), "there was no input"); if(in.hs) op->setSlope(gs, "slope"); if(in.hm) op->setMaxStep(gm, "step");
    if(c.boolean()) for(size_t j = 0; j < in.nx*in.ny; j++) out->setTraversabilityAndProbability(c.draw(3), c.draw(2), j%in.nx, j/in.nx); // whatever was there before does not count
    std::unique_ptr<Environment> loaded; size_t rounds = c.range(1, 3); bool wrong = c.chance(1, 40);
    for(size_t r = 0; r < rounds; r++) {
        if(r) { fill(c, in, k); c.note("the input has changed"); } if(in.hs) put(*gs, "slope", in.s, in.nds, in.vs); if(in.hm) put(*gm, "step", in.m, in.ndm, in.vm);
        if(r == 1 && c.chance(1, 3)) { std::string dir = scratchDir() + "/scene"; boost::filesystem::remove_all(dir); env.serialize(dir); loaded.reset(Environment::unserialize(dir)); boost::filesystem::remove_all(dir); c.note("saved and loaded"); c.label("saved and loaded"); op = loaded->getItem<SimpleTraversability>("/op").get(); out = loaded->getItem<TraversabilityGrid>("/o").get(); gs = loaded->getItem<Grid<float> >("/s").get(); gm = oneLayer ? gs : loaded->getItem<Grid<float> >("/m").get(); if(in.hs) { CHECK(op->getSlopeLayer() == gs && op->getSlopeBand() == "slope", "slope layer of the loaded operator"); } if(in.hm) CHECK(op->getMaxStepLayer() == gm && op->getMaxStepBand() == "step", "step layer of the loaded operator"); TraversabilityGrid* other = new TraversabilityGrid(in.nx, in.ny, in.sx, in.sy); TraversabilityGrid::Ptr keep(other); loaded->setFrameNode(other, loaded->getRootNode()); CHECK_THROWS(op->addOutput(other), "the loaded operator accepts a second output"); }
        op->updateAll(); c.mirror("updated");
        Out o = classify(in, k); size_t N = in.nx*in.ny; std::vector<char> amb(N, 0); if(in.hs && k.slope) for(size_t j = 0; j < N; j++) amb[j] = o.cls[j] > 1 && ambiguous(in, k, j); A8& tr = out->getGridData(TraversabilityGrid::TRAVERSABILITY); A8& pr = out->getGridData(TraversabilityGrid::PROBABILITY); std::vector<int> got(tr.data(), tr.data() + N), prob(pr.data(), pr.data() + N); std::set<int> kinds(got.begin(), got.end()); if(kinds.size() > 1) c.nontrivial();
        auto at = [&](size_t x, size_t y) { return y*in.nx + x; }; auto name = [&](size_t j) { return fmt("cell %zu %zu: ", j%in.nx, j/in.nx); };
        // 1: closing of narrow passages, 2: growing
        std::vector<int> closed = o.cls; bool exact = true; 
        if(k.width > 0) { c.label("closing"); std::vector<char> may(N, 0); std::vector<std::pair<size_t, size_t>> pairs; for(size_t a = 0; a < N; a++) if(o.cls[a] == 1) for(size_t b = 0; b < a; b++) if(o.cls[b] == 1) { long dx = (long)(a%in.nx) - (long)(b%in.nx), dy = (long)(a/in.nx) - (long)(b/in.nx); double d = hypot(dx*in.sx, dy*in.sy); if(d < k.width*(1 + 1e-9)) { for(size_t y = std::min(a/in.nx, b/in.nx); y <= std::max(a/in.nx, b/in.nx); y++) for(size_t x = std::min(a%in.nx, b%in.nx); x <= std::max(a%in.nx, b%in.nx); x++) may[at(x, y)] = 1; if(d < k.width*(1 - 1e-9)) pairs.push_back({a, b}); } }
            if(k.clear == 0) { for(size_t j = 0; j < N; j++) { if(got[j] == 1) { CHECK(o.cls[j] == 1 || may[j], name(j) + "is an obstacle, though it is not between two close ones"); CHECK_EQ(prob[j], 255, name(j) + "probability of an obstacle"); } else if(!amb[j]) CHECK_EQ(got[j], o.cls[j], name(j) + "class"); if(got[j] != 1) CHECK_EQ(prob[j], o.prob[j], name(j) + "probability"); }
                for(auto& p : pairs) { std::set<size_t> seen; std::vector<size_t> st; st.push_back(p.first); size_t x0 = std::min(p.first%in.nx, p.second%in.nx), x1 = std::max(p.first%in.nx, p.second%in.nx), y0 = std::min(p.first/in.nx, p.second/in.nx), y1 = std::max(p.first/in.nx, p.second/in.nx); while(st.size()) { size_t j = st.back(); st.pop_back(); if(!seen.insert(j).second) continue; for(int ey = -1; ey <= 1; ey++) for(int ex = -1; ex <= 1; ex++) { long x = (long)(j%in.nx) + ex, y = (long)(j/in.nx) + ey; if(x >= (long)x0 && x <= (long)x1 && y >= (long)y0 && y <= (long)y1 && got[at(x, y)] == 1) st.push_back(at(x, y)); } } CHECK(seen.count(p.second), name(p.first) + fmt("the passage between this obstacle and the one in %zu %zu is open", p.second%in.nx, p.second/in.nx)); } if(pairs.size()) c.label("passages closed"); }
            else { exact = false; for(size_t j = 0; j < N; j++) if(o.cls[j] == 1) CHECK_EQ(got[j], 1, name(j) + "obstacle"); else if(may[j]) closed[j] = -1; } }
        if(k.clear > 0) { c.label("growing"); for(size_t j = 0; j < N; j++) { bool must = false, can = false; for(size_t b = 0; b < N; b++) { double d = hypot(((long)(j%in.nx) - (long)(b%in.nx))*in.sx, ((long)(j/in.nx) - (long)(b/in.nx))*in.sy); if(closed[b] == 1 && d < k.clear*(1 - 1e-9)) must = true; if((closed[b] == 1 || closed[b] == -1) && d < k.clear*(1 + 1e-9)) can = true; } if(must) CHECK_EQ(got[j], 1, name(j) + "is within the clearance of an obstacle"); if(got[j] == 1) { CHECK(can, name(j) + "is an obstacle, though there is none within the clearance"); CHECK_EQ(prob[j], 255, name(j) + "probability of an obstacle"); } else { if(!amb[j]) CHECK_EQ(got[j], o.cls[j], name(j) + "class"); CHECK_EQ(prob[j], o.prob[j], name(j) + "probability"); } } }
        else if(k.width == 0) for(size_t j = 0; j < N; j++) { if(!amb[j]) CHECK_EQ(got[j], o.cls[j], name(j) + "class"); else CHECK(abs(got[j] - o.cls[j]) <= 1, name(j) + "class"); CHECK_EQ(prob[j], o.prob[j], name(j) + "probability"); }
        (void)exact;
        // registered classes
        CHECK_EQ(out->getTraversabilityClass(1).getDrivability(), 0.0, "drivability of obstacles"); for(int j = 0; j <= k.n; j++) CHECK_CLOSE(out->getTraversabilityClass(2 + j).getDrivability(), 1.0/k.n + (1 - 1.0/k.n)*j/k.n, 1e-9, 0, fmt("drivability of class %d", 2 + j));
        double sum = 0; size_t cnt = 0; for(int v : got) if(v) { sum += v; cnt++; } double mean = cnt ? sum/cnt : 0, u = out->getTraversabilityClass(0).getDrivability(), lo = 2, hi = -1; for(double e : {-1e-9, 1e-9}) { int kl = (int)floor(mean + 0.5 + e); double d1, d2; if(kl <= 1) { d1 = 1.0/k.n + (1 - 1.0/k.n)*floor(k.n/2.0)/k.n; d2 = 1.0/k.n + (1 - 1.0/k.n)*ceil(k.n/2.0)/k.n; } else d1 = d2 = out->getTraversabilityClass(kl).getDrivability(); lo = std::min(lo, d1); hi = std::max(hi, d2); } CHECK(u >= lo - 1e-9 && u <= hi + 1e-9, fmt("drivability %g of unknown terrain, the mean class is %g", u, mean));
    }
    if(wrong && !loaded) { c.label("other size"); TraversabilityGrid* o2 = new TraversabilityGrid(in.nx + c.draw(2) + 1, in.ny + c.draw(2), in.sx, in.sy); env.setFrameNode(o2, env.getRootNode()); op->setOutput(o2, band); CHECK_THROWS(op->updateAll(), "the output has another size than the input"); }
}
PROP(classgrowing, 2) {
    eu::Quiet q; Environment env; size_t nx = c.range(1, 10), ny = c.range(1, 10), N = nx*ny; double sx = c.pick(std::vector<double>{1, 0.1}), sy = c.boolean() ? sx : sx*c.pick(std::vector<double>{2, 0.4}); double radius = std::min(sx, sy)*(c.unit()*4 + 0.019); TraversabilityGrid *a = new TraversabilityGrid(nx, ny, sx, sy), *b = new TraversabilityGrid(nx, ny, sx, sy); env.setFrameNode(a, env.getRootNode()); env.setFrameNode(b, env.getRootNode());
    std::vector<double> dr; int nc = c.range(1, 6); for(int i = 0; i < nc; i++) { dr.push_back(c.draw(11)/10.0); a->setTraversabilityClass(i, TraversabilityClass(dr[i])); } std::vector<int> cl, pr; for(size_t i = 0; i < N; i++) { cl.push_back(c.draw(nc)); pr.push_back(c.chance(1, 3) ? 0 : c.pick(std::vector<int>{255, 1, 128, 200})); a->getGridData(TraversabilityGrid::TRAVERSABILITY)[i/nx][i%nx] = cl[i]; a->getGridData(TraversabilityGrid::PROBABILITY)[i/nx][i%nx] = pr[i]; if(c.boolean()) b->setTraversabilityAndProbability(c.draw(nc), 1, i%nx, i/nx); }
    c.note(fmt("%zux%zu scale %g %g radius %.17g classes ", nx, ny, sx, sy, radius) + vec(dr) + " cells " + vec(cl) + " probabilities " + vec(pr)); TraversabilityGrowClasses* op = new TraversabilityGrowClasses(); env.attachItem(op); op->setRadius(radius); op->addInput(a); op->addOutput(b); op->updateAll();
    for(size_t i = 0; i < N; i++) { CHECK(a->getGridData(TraversabilityGrid::TRAVERSABILITY).data()[i] == cl[i] && a->getGridData(TraversabilityGrid::PROBABILITY).data()[i] == pr[i], "the input was changed"); double worst = 9; std::set<std::pair<int, int>> cand; int kn = 0; for(size_t j = 0; j < N; j++) { double d = hypot(((long)(i%nx) - (long)(j%nx))*sx, ((long)(i/nx) - (long)(j/nx))*sy); if(fabs(d - radius) < 1e-9) c.discard(); if(d > radius || !pr[j]) continue; kn++; if(dr[cl[j]] < worst) { worst = dr[cl[j]]; cand.clear(); } if(dr[cl[j]] == worst) cand.insert({cl[j], pr[j]}); }
        int gc = b->getGridData(TraversabilityGrid::TRAVERSABILITY).data()[i], gp = b->getGridData(TraversabilityGrid::PROBABILITY).data()[i]; std::string nm = fmt("cell %zu %zu: class %d probability %d", i%nx, i/nx, gc, gp); if(!kn) CHECK(gp == 0 && gc == cl[i], nm + ", nothing is known within the radius"); else { CHECK(gp > 0 && dr[gc] == worst, nm + fmt(", the worst drivability within the radius is %g", worst)); CHECK(cand.count({gc, gp}), nm + ": no such cell within the radius"); c.nontrivial(); } }
    for(int i = 0; i < nc; i++) CHECK_EQ(b->getTraversabilityClass(i).getDrivability(), dr[i], "class of the output");
    if(c.chance(1, 10)) { TraversabilityGrid* d = c.boolean() && nx != ny ? new TraversabilityGrid(ny, nx, sx, sy) : new TraversabilityGrid(nx + 1, ny, sx, sy); env.setFrameNode(d, env.getRootNode()); op->setOutput(d); CHECK_THROWS(op->updateAll(), "the output has another size than the input"); }
}
PROP(objectgrowing, 1) {
    size_t nx = c.range(1, 8), ny = c.range(1, 8), N = nx*ny; double sx = c.pick(std::vector<double>{1, 0.1}), sy = c.boolean() ? sx : sx*c.pick(std::vector<double>{2, 0.4}), radius = std::min(sx, sy)*(c.unit()*4 + 0.019); int n = c.range(2, 8); std::vector<int> rank; for(int i = 0; i < n; i++) rank.push_back(c.draw(100)*10 + i); GrowthPolicy<uint8_t> p(n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { p.setBigger(i, j, rank[i] > rank[j]); } for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) CHECK_EQ(p.isBigger(i, j), rank[i] > rank[j], "policy");
    std::string band = c.boolean() ? "" : "b"; Grid<uint8_t> a(nx, ny, sx, sy), b(nx, ny, sx, sy); std::vector<int> v; for(size_t i = 0; i < N; i++) { v.push_back(c.draw(n)); (band.empty() ? a.getGridData() : a.getGridData(band))[i/nx][i%nx] = v[i]; (band.empty() ? b.getGridData() : b.getGridData(band))[i/nx][i%nx] = c.draw(n); } c.note(fmt("%zux%zu scale %g %g radius %.17g ranks ", nx, ny, sx, sy, radius) + vec(rank) + " cells " + vec(v) + " band '" + band + "'");
    ObjectGrowing<uint8_t> g; g.growObjects(p, a, b, band, radius); auto& o = band.empty() ? b.getGridData() : b.getGridData(band); CHECK_EQ(b.hasBand(""), false, "there is a band without a name");
    for(size_t i = 0; i < N; i++) { int best = -1; for(size_t j = 0; j < N; j++) { double d = hypot(((long)(i%nx) - (long)(j%nx))*sx, ((long)(i/nx) - (long)(j/nx))*sy); if(fabs(d - radius) < 1e-9) c.discard(); if(d < radius && (best < 0 || rank[v[j]] > rank[best])) best = v[j]; } CHECK_EQ((int)o.data()[i], best, fmt("cell %zu %zu", i%nx, i/nx)); if(best != v[i]) c.nontrivial(); }
    if(c.chance(1, 10)) { Grid<uint8_t> w(nx + 1, ny, sx, sy); CHECK_THROWS(g.growObjects(p, a, w, band, radius), "the output has another size than the input"); }
}
PROP(projection, 1) {
    eu::Quiet q; Environment env; size_t nx = c.range(1, 8), ny = c.range(1, 8), N = nx*ny; Grid<uint8_t>* a = new Grid<uint8_t>(nx, ny, 1, 1); Grid<float>* b = new Grid<float>(nx, ny, 1, 1); env.setFrameNode(a, env.getRootNode()); env.setFrameNode(b, env.getRootNode()); VpProjection* op = new VpProjection(); env.attachItem(op); op->addInput(a); op->addOutput(b); int n = c.range(1, 8); std::map<int, float> m; for(int i = 0; i < n; i++) { int k = c.boolean() ? i : c.draw(256); m[k] = c.signedReal(100); op->class_map[k] = m[k]; }
    bool miss = false; std::vector<int> v; for(size_t i = 0; i < N; i++) { int k; if(c.chance(1, 200)) { k = c.draw(256); if(!m.count(k)) miss = true; } else { auto it = m.begin(); std::advance(it, c.draw(m.size())); k = it->first; } v.push_back(k); a->getGridData().data()[i] = k; } c.note(fmt("%zux%zu, %zu classes", nx, ny, m.size()));
    if(miss) { c.label("class without value"); CHECK_THROWS(op->updateAll(), "a class has no value"); return; } op->updateAll(); for(size_t i = 0; i < N; i++) { CHECK_EQ(b->getGridData().data()[i], m[v[i]], fmt("value of cell %zu %zu", i%nx, i/nx)); if(v[i] != v[0]) c.nontrivial(); }
    if(c.chance(1, 6)) { Grid<float>* d = c.boolean() ? new Grid<float>(nx + 1, ny, 1, 1) : new Grid<float>(nx, ny, 1, 1, 5, 0); env.setFrameNode(d, env.getRootNode()); op->removeOutputs(); op->addOutput(d); CHECK_THROWS(op->updateAll(), "the grids are not aligned"); }
}
PROP(averaging, 1) {
    eu::Quiet q; Environment env; size_t nx = c.range(1, 8), ny = c.range(1, 8), nb = c.draw(7); Grid<double> *a = new Grid<double>(nx, ny, 1, 1), *b = new Grid<double>(nx, ny, 1, 1); env.setFrameNode(a, env.getRootNode()); env.setFrameNode(b, env.getRootNode()); DoubleFoldOperator* op = new DoubleFoldOperator(); env.attachItem(op); op->addInput(a); op->addOutput(b); op->setNeightbourHoodSize(nb); std::vector<double> v; for(size_t i = 0; i < nx*ny; i++) { v.push_back(c.boolean() ? c.draw(10) : c.signedReal(100)); a->getGridData().data()[i] = v[i]; b->getGridData().data()[i] = 5; } c.note(fmt("%zux%zu neighbourhood %zu cells ", nx, ny, nb) + vec(v)); op->updateAll();
    long h = (nb + 1)/2; for(long y = 0; y < (long)ny; y++) for(long x = 0; x < (long)nx; x++) { double s = 0; int n = 0; for(long yy = y - h; yy < y + h; yy++) for(long xx = x - h; xx < x + h; xx++) if(xx >= 0 && yy >= 0 && xx < (long)nx && yy < (long)ny) { s += v[yy*nx + xx]; n++; } CHECK_CLOSE(b->getGridData()[y][x], n ? s/n : 0, 1e-12, 1e-12, fmt("mean around cell %ld %ld", x, y)); if(n > 1) c.nontrivial(); CHECK_EQ(a->getGridData()[y][x], v[y*nx + x], "the input was changed"); }
    if(c.chance(1, 10)) { Grid<double>* d = new Grid<double>(nx, ny + 1, 1, 1); env.setFrameNode(d, env.getRootNode()); op->setOutput(d); CHECK_THROWS(op->updateAll(), "the grids have different sizes"); }
}
