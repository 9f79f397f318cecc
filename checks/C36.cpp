//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/tools/PlyFile.cpp src/tools/BresenhamLine.cpp src/tools/GraphViz.cpp src/operators/MLSToGrid.cpp src/operators/MLSSlope.cpp src/operators/GridFloatToMLS.cpp src/operators/GridIllumination.cpp src/operators/MLSProjection.cpp src/operators/MergePointcloud.cpp src/operators/SimpleTraversability.cpp
//@ tools: env_create env_update env_delete_item env_create_grid env_add_grid env_grid_to_mls env_grid_illumination env_grid_add_noise env_mls_to_grid env_mls_to_pointcloud env_mls_trajectory env_mls env_mls_slopes env_traversability env_graphviz env_info env_slam6d asc2ply
//@ libs: -lyaml -lboost_program_options -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ cflags: -DHAVE_STD_REGEX
//@ quick: 5000
//@ thorough: 150000
// The programs that change scenes on disk: each does what its usage says, and leaves the rest as it was.
#include "envhist.hpp"
#include "mlsutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/MLSToGrid.hpp>
#include <envire/operators/MLSSlope.hpp>
#include <envire/operators/GridFloatToMLS.hpp>
#include <envire/operators/GridIllumination.hpp>
#include <envire/operators/MLSProjection.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/SimpleTraversability.hpp>
#include <envire/tools/GraphViz.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace pbt; using namespace envire; typedef Eigen::Vector3d V3; typedef Eigen::Affine3d A3;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Scenes with frames, layers, maps and operators of other kinds around, grids of several classes, multi-level surface grids and point clouds, saved to a scratch directory on which the program runs in a process of its own, with all forms of its arguments: required and optional ones, ids that are there or not, missing and surplus arguments. The scene it leaves is loaded and compared, item by item and relation by relation, with the one before and what the program was asked to do. Non-trivial: the program succeeded on a scene with at least three items, or refused its arguments."; }
#define TOOL(n) extern "C" int main_##n(int, char**);
TOOL(env_create) TOOL(env_update) TOOL(env_delete_item) TOOL(env_create_grid) TOOL(env_add_grid) TOOL(env_grid_to_mls) TOOL(env_grid_illumination) TOOL(env_grid_add_noise) TOOL(env_mls_to_grid) TOOL(env_mls_to_pointcloud) TOOL(env_mls_trajectory) TOOL(env_mls) TOOL(env_mls_slopes) TOOL(env_traversability) TOOL(env_graphviz) TOOL(env_info) TOOL(env_slam6d) TOOL(asc2ply)
namespace {
typedef std::vector<std::string> Args;
struct Ran { int code; std::string out; };
std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
Ran run(Ctx& c, const char* name, int (*m)(int, char**), const Args& a) {
    std::string line = name; for(auto& s : a) line += " " + s; c.note(line); const char* sc = getenv("VP_SCRATCH"); std::string of = std::string(sc ? sc : "/tmp/vp_scratch") + "/out" + str(getpid()); std::vector<char*> v; v.push_back((char*)name); for(auto& s : a) v.push_back((char*)s.c_str()); v.push_back(0); std::cout.flush(); std::cerr.flush();
    pid_t p = fork(); CHECK(p >= 0, "fork"); if(p == 0) { alarm(60); int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), no = open("/dev/null", O_RDWR); dup2(no, 0); dup2(fd, 1); dup2(no, 2); static std::filebuf fb; fb.open("/dev/stdout", std::ios::out); std::cout.rdbuf(&fb); int r = 1; try { r = m((int)a.size() + 1, v.data()); } catch(std::exception& e) { std::cout << "exception: " << e.what() << std::endl; r = 99; } catch(...) { r = 99; } std::cout.flush(); fflush(stdout); _exit(r & 255); }
    int st; waitpid(p, &st, 0); Ran r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); r.out = slurp(of); ::unlink(of.c_str()); c.note(fmt("-> %d\n", r.code) + r.out); return r; }
#define RUN(tool, ...) run(c, #tool, main_##tool, __VA_ARGS__)
// ---- the full content of a scene
template<class T> bool bandsOf(GridBase* b, std::string& s) { Grid<T>* g = dynamic_cast<Grid<T>*>(b); if(!g) return false; std::vector<std::string> n = g->getBands(); std::sort(n.begin(), n.end()); for(auto& k : n) { if(!g->hasBand(k)) continue; auto& a = g->getGridData(k); s += "\n  band " + k + ":"; for(size_t i = 0; i < a.num_elements(); i++) s += " " + str(+a.data()[i]); auto nd = g->getNoData(k); if(nd.second) s += " no data " + str(+nd.first); } return true; }
std::string body(EnvironmentItem* i) { std::string s; if(GridBase* g = dynamic_cast<GridBase*>(i)) { s = fmt("%zu x %zu cells of %.17g x %.17g at %.17g %.17g", g->getCellSizeX(), g->getCellSizeY(), g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY()); bandsOf<double>(g, s) || bandsOf<float>(g, s) || bandsOf<uint8_t>(g, s) || bandsOf<int32_t>(g, s); }
    if(MLSGrid* m = dynamic_cast<MLSGrid*>(i)) { mu::Content k = mu::content((const MLSGrid&)*m); for(size_t j = 0; j < k.size(); j++) for(auto& p : k[j]) s += fmt("\n  cell %zu: ", j) + mu::show(p); } if(Pointcloud* p = dynamic_cast<Pointcloud*>(i)) for(auto& v : p->vertices) s += "\n  " + vec(v); return s; }
eh::Snap snap(Environment& e) { eh::Snap s = eh::snapshot(e); for(auto i : e.getItems<EnvironmentItem>()) s.items[i->getUniqueId()].content += body(i); return s; }
eh::Snap snap(const std::string& dir) { std::unique_ptr<Environment> e(Environment::unserialize(dir)); return snap(*e); }
// items that were not there before are called by their class
eh::Snap renamed(const eh::Snap& s, const eh::Snap& before) { std::map<std::string, std::string> n; std::map<std::string, int> k; eh::Snap r; for(auto& i : s.items) { std::string id = i.first; if(!before.items.count(id)) { id = "new " + i.second.cls; if(k[i.second.cls]++) id += fmt(" %d", k[i.second.cls]); } n[i.first] = id; r.items[id] = i.second; } for(auto& p : s.parent) r.parent[n[p.first]] = n[p.second]; for(auto& p : s.frame) r.frame[n[p.first]] = n[p.second]; r.root = s.root.empty() ? "" : n[s.root];
    auto rel = [&](const std::multiset<std::string>& a, const char* sep) { std::multiset<std::string> o; for(auto& x : a) { size_t p = x.find(sep); o.insert(n[x.substr(0, p)] + sep + n[x.substr(p + 3)]); } return o; }; r.layers = rel(s.layers, " > "); r.in = rel(s.in, " < "); r.out = rel(s.out, " > "); return r; }
void same(const eh::Snap& got, const eh::Snap& exp, const eh::Snap& before, const std::string& w) { eh::Snap a = renamed(exp, before), b = renamed(got, before); std::string d = eh::diff(a, b, true); if(!d.empty()) { d += "\nexpected"; for(auto& i : exp.items) d += " " + i.first + ":" + i.second.cls; d += "\nfound"; for(auto& i : got.items) d += " " + i.first + ":" + i.second.cls; for(auto& i : a.items) { auto j = b.items.find(i.first); if(j != b.items.end() && !(i.second == j->second)) d += "\nis:\n" + j->second.content + "\ninstead of:\n" + i.second.content; } FAIL(w + ": " + d); } CHECK_EQ(b.root, a.root, w + ": root"); }
struct W {
    Ctx& c; std::string base, dir; std::unique_ptr<Environment> env; std::vector<FrameNode*> fs; eh::Snap before; int serial;
    W(Ctx& c) : c(c), base(scratchDir()), dir(base + "/scene"), env(new Environment()), serial(0) { fs.push_back(env->getRootNode()); for(size_t i = 0, n = c.draw(3); i < n; i++) { FrameNode* f = new FrameNode(eu::randomPose(c)); f->setUniqueId(fmt("frame%zu", i)); env->addChild(fs[c.draw(fs.size())], f); fs.push_back(f); }
        if(c.boolean()) { eh::Hist h(c, *env, "h"); h.ops = true; h.detachable = true; for(size_t i = 0, n = c.size(1, 8); i < n; i++) h.step(); h.kept.clear(); std::vector<FrameNode*> k; for(auto f : env->getItems<FrameNode>()) if(f == env->getRootNode() || f->getParent()) k.push_back(f); std::vector<FrameNode*> r; for(auto f : k) { FrameNode* x = f; while(x->getParent()) x = x->getParent(); if(x == env->getRootNode()) r.push_back(f); } std::sort(r.begin(), r.end(), [](FrameNode* a, FrameNode* b) { return a->getUniqueId() < b->getUniqueId(); }); fs = r; } }
    FrameNode* frame() { return fs[c.draw(fs.size())]; }
    template<class M> M* put(M* m, FrameNode* f = 0) { m->setUniqueId(fmt("map%d", serial++)); env->setFrameNode(m, f ? f : frame()); return m; }
    struct G { size_t nx, ny; double sx, sy, ox, oy; };
    G geo(size_t mx = 6) { G g; g.nx = c.range(1, mx); g.ny = c.range(1, mx); g.sx = c.pick(std::vector<double>{1, 0.5, 0.25, 0.3}); g.sy = c.boolean() ? g.sx : c.pick(std::vector<double>{1, 0.5, 0.4}); g.ox = c.boolean() ? 0 : c.signedReal(4); g.oy = c.boolean() ? 0 : c.signedReal(4); return g; }
    ElevationGrid* elevation() { G g = geo(); ElevationGrid* e = put(new ElevationGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy)); for(auto& b : {ElevationGrid::ELEVATION, ElevationGrid::ELEVATION_MAX}) if(c.chance(3, 4)) { auto& a = e->getGridData(b); for(size_t i = 0; i < a.num_elements(); i++) a.data()[i] = c.signedReal(5); } return e; }
    MLSGrid* mls(FrameNode* f = 0) { G g = geo(); MLSGrid* m = put(new MLSGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy), f); for(size_t i = 0, k = c.draw(2*g.nx*g.ny + 1); i < k; i++) m->insertTail(c.draw(g.nx), c.draw(g.ny), mu::patch(c, MLSConfiguration::KALMAN, 3, false)); return m; }
    Pointcloud* cloud(double m = 5, size_t mx = 15) { Pointcloud* p = put(new Pointcloud()); for(size_t i = 0, n = c.size(0, mx); i < n; i++) p->vertices.push_back(V3(c.signedReal(m), c.signedReal(m), c.signedReal(m))); return p; }
    void save() { env->serialize(dir); env->serialize(base + "/initial"); before = snap(dir); for(auto& i : before.items) c.note(i.second.cls + " " + i.first + " " + i.second.content.substr(0, 300)); }
    // the scene as the library would leave it
    template<class F> eh::Snap expected(F f) { std::unique_ptr<Environment> e(Environment::unserialize(base + "/initial")); f(*e); e->serialize(base + "/expected"); return snap(base + "/expected"); }
    void unchanged(const std::string& w) { same(snap(dir), before, before, w); }
    void refused(const Ran& r, const std::string& w, bool nonzero = true) { if(nonzero) CHECK(r.code != 0, w + " was taken"); CHECK(r.code != 86 && r.code < 128, fmt("the program broke down (%d)", r.code)); unchanged("the scene after " + w); c.nontrivial(); c.label("refused"); }
    void done(const Ran& r) { CHECK(r.code == 0, fmt("the program failed with %d", r.code)); if(before.items.size() > 2) c.nontrivial(); }
    // the one item that is new; what a program that tells the id tells
    std::string added(const std::string& cls) { eh::Snap s = snap(dir); std::string r; for(auto& i : s.items) if(!before.items.count(i.first) && i.second.cls == cls) { CHECK(r.empty(), "two new items of class " + cls); r = i.first; } CHECK(!r.empty(), "there is no new item of class " + cls); return r; }
    void tells(const Ran& r, const std::string& id) { std::istringstream i(r.out); std::string l, last; while(getline(i, l)) if(!l.empty()) last = l; CHECK_EQ(last, id, "id the program tells"); }
};
std::string num(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
}
PROP(create, 0.5) { eu::Quiet q; std::string d = scratchDir() + "/new"; Ran r = RUN(env_create, {d}); CHECK_EQ(r.code, 0, "exit code"); eh::Snap s = snap(d); CHECK_EQ(s.items.size(), (size_t)1, "items in an empty scene"); CHECK(s.items.count(s.root), "root of an empty scene"); }
PROP(remove, 1) {
    eu::Quiet q; W w(c); for(size_t i = 0, n = c.draw(4); i < n; i++) switch(c.draw(3)) { case 0: w.elevation(); break; case 1: w.mls(); break; default: w.cloud(); } w.save(); std::vector<std::string> ids; for(auto& i : w.before.items) if(i.first != w.before.root) ids.push_back(i.first); Args a{w.dir}; for(size_t i = 0, n = c.chance(1, 8) ? 0 : c.range(1, 4); i < n; i++) a.push_back(!ids.empty() && c.chance(4, 5) ? c.pick(ids) : "nothing");
    Ran r = RUN(env_delete_item, a); if(a.size() == 1) { w.refused(r, "no id"); return; } w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { for(size_t i = 1; i < a.size(); i++) if(e.getItem(a[i])) e.detachItem(e.getItem(a[i]).get(), true); }), w.before, "the scene"); for(size_t i = 1; i < a.size(); i++) CHECK(!snap(w.dir).items.count(a[i]), "the item " + a[i] + " is still there");
}
PROP(update, 1) {
    eu::Quiet q; W w(c); Pointcloud *a = w.cloud(), *b = w.cloud(), *o = w.cloud(); bool on = c.chance(3, 4); if(on) { MergePointcloud* m = new MergePointcloud(); m->setUniqueId("merge"); w.env->attachItem(m); m->addInput(a); if(c.boolean()) m->addInput(b); m->addOutput(o); } if(c.boolean()) { ElevationGrid* g = w.elevation(); g->getGridData(ElevationGrid::ELEVATION); MLSGrid* m = w.put(new MLSGrid(g->getCellSizeX(), g->getCellSizeY(), g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY())); GridFloatToMLS* k = new GridFloatToMLS(); k->setUniqueId("tomls"); w.env->attachItem(k); k->setInput(static_cast<GridBase*>(g), ElevationGrid::ELEVATION); k->setOutput(m); } w.save();
    if(c.chance(1, 8)) { w.refused(RUN(env_update, c.boolean() ? Args() : Args{w.dir, "more"}), "a wrong number of arguments"); return; } Ran r = RUN(env_update, {w.dir}); w.done(r); eh::Snap got = snap(w.dir); same(got, w.expected([](Environment& e) { e.updateOperators(); }), w.before, "the scene"); (void)on;
}
PROP(creategrid, 2) {
    eu::Quiet q; W w(c); GridBase* old = c.boolean() ? (GridBase*)w.elevation() : w.mls(); w.save(); int cls = c.draw(4); static const char* names[] = {"envire::ElevationGrid", "envire::MLSGrid", "envire::TraversabilityGrid", "envire::DistanceGrid"}; W::G g = w.geo(12); Args a{w.dir, names[cls]}; FrameNode* f = w.env->getRootNode(); Args bands; bool fails = false;
    if(c.chance(1, 4)) { a.push_back("-map"); a.push_back(old->getUniqueId()); g.nx = old->getCellSizeX(); g.ny = old->getCellSizeY(); g.sx = old->getScaleX(); g.sy = old->getScaleY(); g.ox = old->getOffsetX(); g.oy = old->getOffsetY(); f = old->getFrameNode(); if(c.chance(1, 5)) { a.back() = "nothing"; fails = true; } }
    else { a.push_back(str(g.nx)); a.push_back(str(g.ny)); a.push_back(num(g.sx)); a.push_back(num(g.sy)); if(c.boolean()) { a.push_back(num(g.ox)); a.push_back(num(g.oy)); } else g.ox = g.oy = 0; if(c.chance(2, 3)) { f = w.frame(); a.push_back("-frame"); a.push_back(f->getUniqueId()); if(c.chance(1, 6)) { a.back() = "nothing"; fails = true; } if(c.boolean()) { a.push_back("-bands"); bands.push_back("one"); if(c.boolean()) bands.push_back("two"); a.insert(a.end(), bands.begin(), bands.end()); if(cls == 1) fails = true; } } else if(c.chance(1, 6)) { a.resize(a.size() - 1); fails = true; } }
    if(!fails && c.chance(1, 12)) { a[1] = "envire::Nothing"; fails = true; } Ran r = RUN(env_create_grid, a); if(fails) { w.refused(r, "a grid that can not be made"); return; }
    w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { GridBase* n; if(cls == 0) n = new ElevationGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); else if(cls == 1) n = new MLSGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); else if(cls == 2) n = new TraversabilityGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); else n = new DistanceGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); for(auto& b : bands) { if(auto x = dynamic_cast<ElevationGrid*>(n)) x->getGridData(b); if(auto x = dynamic_cast<DistanceGrid*>(n)) x->getGridData(b); if(auto x = dynamic_cast<TraversabilityGrid*>(n)) x->getGridData(b); } e.setFrameNode(n, e.getItem<FrameNode>(f->getUniqueId()).get()); }), w.before, "the scene"); w.tells(r, w.added(names[cls]));
}
PROP(addgrid, 2) {
    eu::Quiet q; W w(c); W::G g = w.geo(); g.ox = g.oy = 0; bool dbl = c.boolean(); ElevationGrid* old = w.put(new ElevationGrid(g.nx, g.ny, g.sx, g.sy)); { auto& a = old->getGridData(ElevationGrid::ELEVATION); for(size_t i = 0; i < a.num_elements(); i++) a.data()[i] = c.signedReal(3); } w.save(); std::string file = w.base + "/raster.tif";
    { Environment e; FrameNode* f = new FrameNode(A3(Eigen::Translation3d(c.boolean() ? V3::Zero() : V3(c.signedReal(9), c.signedReal(9), 0)))); e.addChild(e.getRootNode(), f); if(dbl) { Grid<double>* r = new Grid<double>(g.nx, g.ny, g.sx, g.sy); e.setFrameNode(r, f); auto& a = r->getGridData("x"); for(size_t i = 0; i < a.num_elements(); i++) a.data()[i] = c.signedReal(9); r->writeGridData("x", file); } else { Grid<float>* r = new Grid<float>(g.nx, g.ny, g.sx, g.sy); e.setFrameNode(r, f); auto& a = r->getGridData("x"); for(size_t i = 0; i < a.num_elements(); i++) a.data()[i] = c.signedReal(9); r->writeGridData("x", file); } }
    Args a{w.dir, file, "band"}; bool type = c.boolean(), fails = false; int where = c.draw(3); std::string cls = dbl ? "envire::ElevationGrid" : "envire::DistanceGrid"; if(type) a.push_back(cls); FrameNode* f = w.frame(); if(where == 1) { a.push_back("-frame"); a.push_back(f->getUniqueId()); } if(where == 2) { a.push_back("-map"); a.push_back(old->getUniqueId()); if(type || !dbl) fails = true; } if(c.chance(1, 10)) { if(where && c.boolean()) a.pop_back(); else { a[1] = w.base + "/none.tif"; } fails = true; } else if(c.chance(1, 15)) { a.resize(c.range(1, 2)); fails = true; }
    Ran r = RUN(env_add_grid, a); if(fails) { CHECK(r.code != 0, "what can not be added was taken"); w.unchanged("the scene after a refusal"); c.nontrivial(); c.label("refused"); return; }
    w.done(r); std::string id; same(snap(w.dir), w.expected([&](Environment& e) { std::pair<GridBase::Ptr, Transform> in = GridBase::readGridFromGdal(file, "band"); if(where == 2) { if(!dbl) return; e.getItem<ElevationGrid>(old->getUniqueId())->getGridData("band") = boost::dynamic_pointer_cast<Grid<double>>(in.first)->getGridData("band"); auto nd = boost::dynamic_pointer_cast<Grid<double>>(in.first)->getNoData("band"); if(nd.second) e.getItem<ElevationGrid>(old->getUniqueId())->setNoData("band", nd.first); return; }
        FrameNode* at = where == 1 ? e.getItem<FrameNode>(f->getUniqueId()).get() : e.getRootNode(); if(where == 0 && !in.second.isApprox(Transform::Identity())) { at = new FrameNode(in.second); e.addChild(e.getRootNode(), at); } GridBase::Ptr n = in.first; if(type) { if(dbl) { ElevationGrid* k = new ElevationGrid(n->getCellSizeX(), n->getCellSizeY(), n->getScaleX(), n->getScaleY(), n->getOffsetX(), n->getOffsetY()); k->copyBandFrom(*n, "band"); n = k; } else { DistanceGrid* k = new DistanceGrid(n->getCellSizeX(), n->getCellSizeY(), n->getScaleX(), n->getScaleY(), n->getOffsetX(), n->getOffsetY()); k->copyBandFrom(*n, "band"); n = k; } } e.setFrameNode(n.get(), at); }), w.before, "the scene");
    w.tells(r, where == 2 ? old->getUniqueId() : w.added(type ? cls : dbl ? Grid<double>::className : Grid<float>::className)); { std::unique_ptr<Environment> e(Environment::unserialize(w.dir)); if(where == 0) { std::istringstream is(r.out); } }
}
PROP(gridtomls, 1) {
    eu::Quiet q; W w(c); ElevationGrid* g = w.elevation(); if(c.boolean()) { MLSGrid* m = w.put(new MLSGrid(g->getCellSizeX(), g->getCellSizeY(), g->getScaleX(), g->getScaleY(), g->getOffsetX(), g->getOffsetY()), c.boolean() ? g->getFrameNode() : 0); g->getGridData(ElevationGrid::ELEVATION); w.save(); if(c.chance(1, 8)) { w.refused(RUN(env_grid_to_mls, {w.dir, g->getUniqueId(), ElevationGrid::ELEVATION}), "a missing id"); return; }
        Ran r = RUN(env_grid_to_mls, {w.dir, g->getUniqueId(), ElevationGrid::ELEVATION, m->getUniqueId()}); w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { GridFloatToMLS* o = new GridFloatToMLS(); e.attachItem(o); o->setInput(e.getItem<GridBase>(g->getUniqueId()).get(), ElevationGrid::ELEVATION); o->setOutput(e.getItem<MLSGrid>(m->getUniqueId()).get()); o->updateAll(); }), w.before, "the scene"); w.tells(r, w.added("envire::GridFloatToMLS")); }
    else { MLSGrid* m = w.mls(); Grid<double>* o = c.boolean() ? (Grid<double>*)w.put(new ElevationGrid(m->getCellSizeX(), m->getCellSizeY(), m->getScaleX(), m->getScaleY(), m->getOffsetX(), m->getOffsetY())) : w.put(new Grid<double>(m->getCellSizeX(), m->getCellSizeY(), m->getScaleX(), m->getScaleY(), m->getOffsetX(), m->getOffsetY())); std::string band = c.boolean() ? "top" : "elevation_max"; w.save(); if(c.chance(1, 8)) { w.refused(RUN(env_mls_to_grid, {w.dir, m->getUniqueId(), o->getUniqueId(), band, "more"}), "a surplus argument"); return; }
        Ran r = RUN(env_mls_to_grid, {w.dir, m->getUniqueId(), o->getUniqueId(), band}); w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { MLSToGrid* k = new MLSToGrid(); e.attachItem(k); k->setInput(e.getItem<MLSGrid>(m->getUniqueId()).get()); k->setOutput(e.getItem<Grid<double>>(o->getUniqueId()).get(), band); k->updateAll(); }), w.before, "the scene"); w.tells(r, w.added("envire::MLSToGrid"));
        std::unique_ptr<Environment> e(Environment::unserialize(w.dir)); auto& d = e->getItem<Grid<double>>(o->getUniqueId())->getGridData(band); MLSGrid* l = e->getItem<MLSGrid>(m->getUniqueId()).get(); for(size_t x = 0; x < l->getCellSizeX(); x++) for(size_t y = 0; y < l->getCellSizeY(); y++) { mu::Cell k = mu::cell(*l, x, y); double t = -INFINITY; for(auto& p : k) t = std::max(t, (double)p.mean); if(!k.empty()) CHECK(d[y][x] == t, fmt("cell %zu %zu of the grid is %.9g, the highest surface is %.9g", x, y, d[y][x], t)); } }
}
PROP(illumination, 0.5) {
    eu::Quiet q; W w(c); ElevationGrid* g = w.elevation(); g->getGridData(ElevationGrid::ELEVATION_MAX); w.save(); V3 l(c.signedReal(20), c.signedReal(20), c.real(0, 20)); double d = c.real(0, 5); Args a{w.dir, g->getUniqueId(), "light", num(l[0]), num(l[1]), num(l[2]), num(d)}; if(c.chance(1, 8)) { a.pop_back(); w.refused(RUN(env_grid_illumination, a), "a missing argument"); return; }
    Ran r = RUN(env_grid_illumination, a); w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { GridIllumination* o = new GridIllumination(); e.attachItem(o); o->setOutputBand("light"); o->setLightSource(l, d); o->addOutput(e.getItem<ElevationGrid>(g->getUniqueId()).get()); o->updateAll(); }), w.before, "the scene"); w.tells(r, w.added("envire::GridIllumination"));
}
PROP(noise, 1.5) {
    eu::Quiet q; W w(c); W::G g = w.geo(8); g.sx = c.pick(std::vector<double>{1, 0.5, 0.25}); g.sy = c.pick(std::vector<double>{1, 0.5, 0.25}); g.ox = c.rangeC(-8, 8)*g.sx; g.oy = c.rangeC(-8, 8)*g.sy; ElevationGrid* e = w.put(new ElevationGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy)); std::vector<double> h; auto& k = e->getGridData(ElevationGrid::ELEVATION); for(size_t i = 0; i < k.num_elements(); i++) { h.push_back(c.signedReal(5)); k.data()[i] = h.back(); } w.save(); std::string out = c.boolean() ? w.dir : w.base + "/out"; Args a{"--input-env", w.dir, "--output-env", out}; double scale = 1, cx = 0, cy = 0, wx = g.nx*g.sx, wy = g.ny*g.sy; bool cst = c.boolean(), gs = c.chance(1, 5), slope = c.boolean(), nrm = c.boolean(), sph = c.boolean(); double ang = c.rangeC(-180, 180), sig = c.real(0.5, 5), rad = c.real(0.5, 5);
    // the window is made of whole cells
    if(c.boolean()) { size_t x0 = c.draw(g.nx), y0 = c.draw(g.ny), x1 = c.range(x0 + 1, g.nx), y1 = c.range(y0 + 1, g.ny); cx = g.ox + g.sx*(x0 + x1)/2.0; cy = g.oy + g.sy*(y0 + y1)/2.0; wx = g.sx*(x1 - x0); wy = g.sy*(y1 - y0); a.push_back("--center=" + num(cx) + "," + num(cy)); a.push_back("--window=" + num(wx) + "," + num(wy)); } else { cx = g.ox + wx/2; cy = g.oy + wy/2; if(cx || cy || c.boolean()) a.push_back("--center=" + num(cx) + "," + num(cy)); }
    if(c.boolean()) { scale = c.pick(std::vector<double>{0.5, 2, -1, 3.25}); a.push_back("--scale=" + num(scale)); } if(cst) a.push_back("--const"); if(gs) a.push_back("--noise"); if(slope) a.push_back("--slope=" + num(ang)); if(nrm) a.push_back("--normal=" + num(sig)); if(sph) a.push_back("--sphere=" + num(rad)); if(c.chance(1, 12)) { a.erase(a.begin() + 2, a.begin() + 4); w.refused(RUN(env_grid_add_noise, a), "no output"); return; }
    Ran r = RUN(env_grid_add_noise, a); w.done(r); std::unique_ptr<Environment> o(Environment::unserialize(out)); auto& d = o->getItem<ElevationGrid>(e->getUniqueId())->getGridData(ElevationGrid::ELEVATION); size_t in = 0; for(size_t y = 0; y < g.ny; y++) for(size_t x = 0; x < g.nx; x++) { double px = g.ox + (x + 0.5)*g.sx, py = g.oy + (y + 0.5)*g.sy, v = h[y*g.nx + x], rr = hypot(px - cx, py - cy); bool inside = fabs(px - cx) < wx/2 && fabs(py - cy) < wy/2; if(inside) { in++; if(sph && fabs(rr - rad) < 1e-3) continue; if(cst) v += scale; if(slope) v += scale*(cos(ang/180*M_PI)*px + sin(ang/180*M_PI)*py); if(nrm) v += scale*exp(-rr*rr/(2*sig*sig)); if(sph && rr < rad) v += scale*sqrt(rad*rad - rr*rr); } double tol = inside ? 1e-4*(1 + fabs(v)) + (sph ? 0.02 : 0) : 0; CHECK(gs && inside ? std::isfinite(d[y][x]) && fabs(d[y][x] - v) < 10*fabs(scale) + tol : fabs(d[y][x] - v) <= tol, fmt("cell %zu %zu, %s the window, is %.9g instead of %.9g", x, y, inside ? "in" : "outside of", d[y][x], v)); } CHECK(in > 0, "no cell in the window");
    // nothing else has changed
    eh::Snap s = snap(*o), b = w.before; s.items[e->getUniqueId()].content = b.items[e->getUniqueId()].content = ""; same(s, b, w.before, "the rest of the scene"); if(out != w.dir) w.unchanged("the input");
}
PROP(mlscloud, 1) {
    eu::Quiet q; W w(c); MLSGrid* m = w.mls(); bool named = c.boolean(); if(named && c.boolean()) w.mls(); w.save(); Args a{w.dir}; if(named) a.push_back(m->getUniqueId()); if(named && c.chance(1, 6)) { a.back() = "nothing"; w.refused(RUN(env_mls_to_pointcloud, a), "an unknown id"); return; }
    Ran r = RUN(env_mls_to_pointcloud, a); w.done(r); std::unique_ptr<Environment> e(Environment::unserialize(w.dir)); std::string id = w.added("envire::Pointcloud"); Pointcloud* p = e->getItem<Pointcloud>(id).get(); CHECK_EQ(p->getFrameNode()->getUniqueId(), m->getFrameNode()->getUniqueId(), "frame of the point cloud"); std::vector<V3> exp; for(size_t x = 0; x < m->getCellSizeX(); x++) for(size_t y = 0; y < m->getCellSizeY(); y++) for(auto& k : mu::cell(*m, x, y)) exp.push_back(V3(m->getOffsetX() + (x + 0.5)*m->getScaleX(), m->getOffsetY() + (y + 0.5)*m->getScaleY(), k.mean));
    auto less = [](const V3& a, const V3& b) { return a[0] != b[0] ? a[0] < b[0] : a[1] != b[1] ? a[1] < b[1] : a[2] < b[2]; }; CHECK_EQ(p->vertices.size(), exp.size(), "number of points"); std::vector<bool> used(exp.size()); for(auto& v : p->vertices) { bool f = false; for(size_t i = 0; i < exp.size() && !f; i++) if(!used[i] && (exp[i] - v).norm() < 1e-6) f = used[i] = true; CHECK(f, "there is no patch at " + vec(v)); } (void)less; eh::Snap s = snap(w.dir), b = w.before; s.items.erase(id); s.frame.erase(id); same(s, b, w.before, "the rest of the scene");
}
PROP(trajectory, 1) {
    eu::Quiet q; W w(c); std::vector<MLSGrid*> ms; for(size_t i = 0, n = c.draw(4); i < n; i++) ms.push_back(w.mls()); w.save(); std::vector<V3> ps; std::string t; for(size_t i = 0, n = c.size(0, 10); i < n; i++) { V3 p(c.signedReal(8), c.signedReal(8), c.signedReal(3)); if(!ms.empty() && c.chance(3, 4)) { MLSGrid* m = c.pick(ms); A3 T = A3::Identity(); for(FrameNode* f = m->getFrameNode(); f->getParent(); f = f->getParent()) T = A3(f->getTransform())*T; p = T*V3(m->getOffsetX() + c.unit()*m->getSizeX(), m->getOffsetY() + c.unit()*m->getSizeY(), c.signedReal(2)); } ps.push_back(p); t += num(p[0]) + " " + num(p[1]) + " " + num(p[2]); if(i + 1 < n || c.chance(3, 4)) t += "\n"; } { std::ofstream o((w.base + "/path").c_str()); o << t; }
    Ran r = RUN(env_mls_trajectory, {w.dir, w.base + "/path"}); w.done(r); w.unchanged("the scene"); std::istringstream is(r.out); std::string l; std::vector<std::vector<double>> rows; while(getline(is, l)) { std::istringstream ls(l); std::vector<double> v; double d; while(ls >> d) v.push_back(d); rows.push_back(v); } CHECK_EQ(rows.size(), ps.size(), "number of lines"); std::vector<double> sums(ms.size());
    for(size_t i = 0; i < ps.size(); i++) { std::multiset<double> e, g(rows[i].begin(), rows[i].end()); bool near = false; for(auto m : ms) { A3 T = A3::Identity(); for(FrameNode* f = m->getFrameNode(); f->getParent(); f = f->getParent()) T = A3(f->getTransform())*T; V3 p = T.inverse()*ps[i]; double x = (p[0] - m->getOffsetX())/m->getScaleX(), y = (p[1] - m->getOffsetY())/m->getScaleY(); if(fabs(x - round(x)) < 1e-6 || fabs(y - round(y)) < 1e-6) near = true; double top = -1e9; if(x >= 0 && y >= 0 && x < m->getCellSizeX() && y < m->getCellSizeY()) for(auto& k : mu::cell(*m, (size_t)x, (size_t)y)) top = std::max(top, (double)k.mean); e.insert(top); } if(near) continue; CHECK_EQ(g.size(), e.size(), "numbers in a line"); auto b = e.begin(); for(double d : g) { CHECK(fabs(d - *b) <= 1e-5*(1 + fabs(d)), fmt("line %zu: height %.9g instead of %.9g", i, d, *b)); b++; } }
}
PROP(mls, 1) {
    eu::Quiet q; W w(c); std::vector<Pointcloud*> ps; for(size_t i = 0, n = c.draw(4); i < n; i++) { Pointcloud* p = w.cloud(3, 20); if(c.chance(1, 3)) { auto& u = p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE); for(size_t k = 0; k < p->vertices.size(); k++) u.push_back(c.real(0.01, 0.5)); } ps.push_back(p); } w.save(); double res = c.pick(std::vector<double>{0.5, 0.25, 1}), var = res, gap = 0.5, thick = res; Args a{w.dir, w.base + "/out"}; int opt = c.draw(6); if(opt < 1) res = var = thick = 0.25; if(opt == 0) a.push_back("0.25"); if(opt >= 1) { a.push_back(num(res)); var = thick = res; } if(opt >= 2) { var = c.real(0.05, 0.5); a.push_back(num(var)); } if(opt >= 3) { gap = c.real(0.1, 1); a.push_back(num(gap)); } if(opt >= 4) { thick = c.real(0.05, 0.5); a.push_back(num(thick)); } bool area = opt >= 5; double x0 = c.signedReal(2), y0 = c.signedReal(2), x1 = x0 + c.real(0.5, 4), y1 = y0 + c.real(0.5, 4); if(area) a.push_back(num(x0) + " " + num(y0) + " " + num(x1) + " " + num(y1));
    bool any = false; std::vector<V3> world; Eigen::AlignedBox<double, 3> box; for(auto p : ps) { A3 T = A3::Identity(); for(FrameNode* f = p->getFrameNode(); f->getParent(); f = f->getParent()) T = A3(f->getTransform())*T; Eigen::AlignedBox<double, 3> b; for(auto& v : p->vertices) { world.push_back(T*v); b.extend(v); any = true; } if(!b.isEmpty()) for(int i = 0; i < 8; i++) box.extend(T*b.corner((Eigen::AlignedBox<double, 3>::CornerType)i)); }
    Ran r = RUN(env_mls, a); w.unchanged("the input"); CHECK_EQ(r.code, 0, "exit code"); if(!any && !area) { CHECK(!boost::filesystem::exists(w.base + "/out"), "a grid of no points"); return; } if(!area) { x0 = box.min()[0]; y0 = box.min()[1]; x1 = box.max()[0]; y1 = box.max()[1]; }
    std::unique_ptr<Environment> e(Environment::unserialize(w.base + "/out")); CHECK_EQ(e->getItems<EnvironmentItem>().size(), (size_t)3, "items of the result"); std::vector<MLSGrid*> gs = e->getItems<MLSGrid>(); CHECK_EQ(gs.size(), (size_t)1, "grids of the result"); MLSGrid* g = gs[0]; FrameNode* f = g->getFrameNode(); CHECK(f && f->getParent() == e->getRootNode(), "frame of the grid"); CHECK((A3(f->getTransform()).matrix() - A3(Eigen::Translation3d(x0, y0, 0)).matrix()).norm() < 1e-9, "place of the grid"); CHECK_EQ(g->getScaleX(), res, "resolution"); CHECK_EQ(g->getScaleY(), res, "resolution"); CHECK(g->getOffsetX() == 0 && g->getOffsetY() == 0, "offset of the grid"); CHECK(fabs(g->getSizeX() - (x1 - x0)) <= res*(1 + 1e-9) && fabs(g->getSizeY() - (y1 - y0)) <= res*(1 + 1e-9), "size of the grid"); CHECK_EQ((float)g->getGapSize(), (float)gap, "gap size"); CHECK_EQ((float)g->getHorizontalPatchThickness(), (float)thick, "thickness");
    std::set<std::pair<size_t, size_t>> cells; bool near = false; for(auto& v : world) { double x = (v[0] - x0)/res, y = (v[1] - y0)/res; if(x < -1e-9 || y < -1e-9 || (!area && (v[0] > x1 + 1e-9 || v[1] > y1 + 1e-9))) { if(!area) FAIL("the extents do not hold all points"); continue; } bool edge = fabs(x - round(x)) < 1e-6 || fabs(y - round(y)) < 1e-6; x = std::max(x, 0.0); y = std::max(y, 0.0); if(edge) { near = true; if(area || x < 1e-6 || y < 1e-6) continue; } if(area && (x >= g->getCellSizeX() || y >= g->getCellSizeY())) continue; bool f2 = false; for(int dx = -1; dx <= 1 && !f2; dx++) for(int dy = -1; dy <= 1 && !f2; dy++) if((!dx && !dy) || edge) { long cx = (long)floor(x) + dx, cy = (long)floor(y) + dy; if(cx < 0 || cy < 0 || cx >= (long)g->getCellSizeX() || cy >= (long)g->getCellSizeY()) continue; for(auto& k : mu::cell(*g, cx, cy)) if(v[2] <= k.mean + thick + 4 && v[2] >= k.mean - k.height - thick - 4) f2 = true; } CHECK(f2, "there is no patch for the point " + vec(v)); cells.insert({(size_t)x, (size_t)y}); }
    // the patches are those of the library, with these settings
    { std::unique_ptr<Environment> l(Environment::unserialize(w.base + "/initial")); FrameNode* fm = new FrameNode(A3(f->getTransform())); l->addChild(l->getRootNode(), fm); MLSGrid* k = new MLSGrid(g->getCellSizeX(), g->getCellSizeY(), res, res); l->setFrameNode(k, fm); k->setGapSize(gap); k->setHorizontalPatchThickness(thick); MLSProjection* o = new MLSProjection(); o->useUncertainty(false); l->attachItem(o); for(auto p : l->getItems<Pointcloud>()) { auto& u = p->getVertexData<double>(Pointcloud::VERTEX_VARIANCE); u.resize(p->vertices.size(), var); o->addInput(p); } o->addOutput(k); o->updateAll(); CHECK(ps.empty() || true, ""); if(ps.size() == 1) mu::cmp(mu::content((const MLSGrid&)*g), mu::content((const MLSGrid&)*k), k->getCellSizeY(), "the grid"); else { auto a1 = mu::content((const MLSGrid&)*g), b1 = mu::content((const MLSGrid&)*k); for(size_t i = 0; i < a1.size(); i++) CHECK(a1[i].empty() == b1[i].empty(), "cells with patches"); } }
    if(!near) for(size_t x = 0; x < g->getCellSizeX(); x++) for(size_t y = 0; y < g->getCellSizeY(); y++) CHECK(mu::cell(*g, x, y).empty() || cells.count({x, y}), fmt("cell %zu %zu has patches, but no point", x, y)); if(world.size() > 2) c.nontrivial();
}
PROP(slopes, 1) {
    eu::Quiet q; W w(c); MLSGrid* m = w.mls(); bool named = c.boolean(); if(named && c.boolean()) w.mls(); w.save(); Args a{w.dir}; if(named) a.push_back(m->getUniqueId()); if(named && c.chance(1, 6)) { a.back() = "nothing"; w.refused(RUN(env_mls_slopes, a), "an unknown id"); return; }
    Ran r = RUN(env_mls_slopes, a); w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { MLSGrid* k = e.getItem<MLSGrid>(m->getUniqueId()).get(); Grid<float>* g = new Grid<float>(k->getCellSizeX(), k->getCellSizeY(), k->getScaleX(), k->getScaleY(), k->getOffsetX(), k->getOffsetY()); e.setFrameNode(g, k->getFrameNode()); MLSSlope* o = new MLSSlope(); e.attachItem(o); o->addInput(k); o->addOutput(g); o->updateAll(); }), w.before, "the scene");
}
PROP(traversability, 1) {
    eu::Quiet q; W w(c); W::G g = w.geo(8); Grid<float>* in = w.put(new Grid<float>(g.nx, g.ny, g.sx, g.sx, g.ox, g.oy)); bool sl = c.chance(3, 4), st = c.chance(3, 4) || !sl; auto fill = [&](const std::string& b, double m) { auto& a = in->getGridData(b); for(size_t i = 0; i < a.num_elements(); i++) a.data()[i] = c.chance(1, 8) ? -INFINITY : c.real(0, m); }; if(sl) fill("mean_slope", 1); if(st) fill("corrected_max_step", 0.5); if(c.boolean()) fill("other", 1); w.save(); double ms = c.real(0.1, 1), mw = 0.5, gc = 0; int cc = 10; Args a{w.dir, num(ms)}; size_t opt = c.draw(5); if(opt >= 1) { cc = c.range(1, 20); a.push_back(str(cc)); } if(opt >= 2) { mw = c.real(0, 1); a.push_back(num(mw)); } if(opt >= 3) { gc = c.real(0.05, 0.5); a.push_back(num(gc)); } if(opt == 4) { a.push_back("more"); a.push_back("and more"); a.push_back("still"); w.refused(RUN(env_traversability, a), "surplus arguments", false); return; } if(c.chance(1, 10)) { a.resize(1); w.refused(RUN(env_traversability, a), "no slope", false); return; }
    Ran r = RUN(env_traversability, a); w.done(r); same(snap(w.dir), w.expected([&](Environment& e) { Grid<float>* k = e.getItem<Grid<float>>(in->getUniqueId()).get(); auto o = new SimpleTraversability::OutputLayer(g.nx, g.ny, g.sx, g.sx, g.ox, g.oy); e.setFrameNode(o, k->getFrameNode()); SimpleTraversability* p = new SimpleTraversability(ms, cc, mw, gc); e.attachItem(p); if(sl) p->setSlope(k, "mean_slope"); if(st) p->setMaxStep(k, "corrected_max_step"); p->setOutput(o, "traversability_class"); p->updateAll(); }), w.before, "the scene");
}
PROP(graphviz, 0.5) {
    eu::Quiet q; W w(c); w.elevation(); w.save(); std::string f = w.base + "/g.dot", k = w.base + "/h.dot"; Ran r = RUN(env_graphviz, {w.dir, f}); w.done(r); w.unchanged("the scene"); { std::unique_ptr<Environment> e(Environment::unserialize(w.dir)); GraphViz g; g.writeToFile(e.get(), k); } auto lines = [](const std::string& t) { std::multiset<std::string> s; std::istringstream i(t); std::string l; while(getline(i, l)) s.insert(l); return s; }; CHECK(lines(slurp(f)) == lines(slurp(k)), "the graph is\n" + slurp(f) + "\ninstead of\n" + slurp(k)); r = RUN(env_info, {w.dir}); CHECK_EQ(r.code, 0, "env_info"); w.unchanged("the scene after env_info");
}
PROP(slam6d, 1) {
    eu::Quiet q; W w(c); std::vector<Pointcloud*> ps; size_t n = c.range(1, 4); for(size_t i = 0; i < n; i++) { FrameNode* f = new FrameNode(eu::randomPose(c)); f->setUniqueId(fmt("pose%zu", i)); w.env->addChild(c.boolean() ? w.env->getRootNode() : w.frame(), f); Pointcloud* p = new Pointcloud(); p->setUniqueId(fmt("pc/%zu", i)); w.env->setFrameNode(p, f); p->vertices.push_back(V3(i, 1, 2)); ps.push_back(p); } w.save(); std::vector<size_t> order(n); for(size_t i = 0; i < n; i++) order[i] = i; std::string d = w.base + "/slam", ids; bool given = c.boolean(); if(given) { for(size_t i = n; i-- > 1;) std::swap(order[i], order[c.draw(i + 1)]); order.resize(c.range(1, n)); for(size_t i : order) ids += (ids.empty() ? "" : " ") + ps[i]->getUniqueId(); } Args a{"generate", w.dir, d}; if(given) a.push_back(ids);
    Ran r = RUN(env_slam6d, a); w.done(r); w.unchanged("the scene"); Eigen::Matrix3d S = Eigen::Matrix3d::Zero(); S(0, 1) = S(1, 2) = S(2, 0) = 1; size_t files = 0; for(boost::filesystem::directory_iterator i(d); i != boost::filesystem::directory_iterator(); ++i) files++; CHECK_EQ(files, 3*order.size(), "files for the scans");
    for(size_t k = 0; k < order.size(); k++) { Pointcloud* p = ps[order[k]]; std::string pre = d + fmt("/scan%03zu", k); std::istringstream is(slurp(pre + ".id")); std::string id; is >> id; CHECK_EQ(id, p->getUniqueId(), fmt("cloud of scan %zu", k)); std::istringstream po(slurp(pre + ".pose")); V3 t, e; for(int i = 0; i < 3; i++) po >> t[i]; for(int i = 0; i < 3; i++) po >> e[i]; CHECK(!!po, "pose of a scan"); A3 T = A3(p->getFrameNode()->getTransform()); CHECK((t - S*T.translation()).norm() < 1e-3*(1 + t.norm()), "position of a scan " + vec(t)); Eigen::Matrix3d R = (Eigen::AngleAxisd(e[0], V3::UnitX())*Eigen::AngleAxisd(e[1], V3::UnitY())*Eigen::AngleAxisd(e[2], V3::UnitZ())).toRotationMatrix(); CHECK((R - S*T.linear()*S.transpose()).norm() < 1e-3, "rotation of a scan"); Pointcloud x; std::ifstream ply((pre + ".ply").c_str()); CHECK(ply.good(), "there is no file with the points of a scan"); x.readPly(pre + ".ply", ply); CHECK(x.vertices.size() == 1 && x.vertices[0] == p->vertices[0], "points of a scan"); }
    // the poses found are taken over
    std::map<size_t, A3> found; for(size_t k = 0; k < order.size(); k++) if(c.chance(3, 4)) { A3 T = eu::randomPose(c), M = A3::Identity(); found[order[k]] = T; M.linear() = S*T.linear()*S.transpose(); M.translation() = S*T.translation(); std::ofstream o((d + fmt("/scan%03zu.frames", k)).c_str()); o.precision(17); size_t l = c.range(1, 3); for(size_t i = 0; i < l; i++) { A3 X = i + 1 < l ? eu::randomPose(c) : M; for(int j = 0; j < 16; j++) o << X.matrix()(j) << " "; o << "2\n"; } }
    r = RUN(env_slam6d, {"update", w.dir, d}); w.done(r); std::unique_ptr<Environment> e(Environment::unserialize(w.dir)); for(size_t i = 0; i < n; i++) { A3 T = found.count(i) ? found[i] : A3(ps[i]->getFrameNode()->getTransform()); CHECK((A3(e->getItem<Pointcloud>(ps[i]->getUniqueId())->getFrameNode()->getTransform()).matrix() - T.matrix()).norm() < 1e-9*(1 + T.matrix().norm()), fmt("pose of cloud %zu", i)); } eh::Snap s = snap(*e), b = w.before; for(size_t i = 0; i < n; i++) s.items[ps[i]->getFrameNode()->getUniqueId()].content = b.items[ps[i]->getFrameNode()->getUniqueId()].content = ""; std::string idp; same(s, b, w.before, "the rest of the scene");
}
PROP(asc, 0.5) {
    eu::Quiet q; std::string b = scratchDir(); std::vector<V3> p; std::vector<double> g; { std::ofstream o((b + "/a.asc").c_str()); o.precision(17); for(size_t i = 0, n = c.size(1, 20); i < n; i++) { V3 v(c.signedReal(100), c.signedReal(100), c.signedReal(100)); double k = c.draw(256); p.push_back(v); g.push_back(k); o << v[0] << " " << v[1] << " " << v[2] << " " << k << "\n"; } } Args a{b + "/a.asc", b + "/b.ply"}; int smp = c.chance(1, 3) ? c.range(1, 4) : 1; if(smp > 1 || c.boolean()) a.push_back(str(smp)); if(a.size() == 3 && c.boolean()) a.push_back("0");
    Ran r = RUN(asc2ply, a); CHECK_EQ(r.code, 0, "exit code"); Pointcloud x; std::ifstream is((b + "/b.ply").c_str()); x.readPly(b + "/b.ply", is); auto col = x.getVertexData<V3>(Pointcloud::VERTEX_COLOR); CHECK_EQ(col.size(), x.vertices.size(), "number of colors"); size_t k = 0; if(smp == 1) CHECK_EQ(x.vertices.size(), p.size(), "number of points"); for(size_t i = 0; i < x.vertices.size(); i++) { while(k < p.size() && p[k] != x.vertices[i]) k++; CHECK(k < p.size(), "the point " + vec(x.vertices[i]) + " is not in the text, or in another order"); CHECK((col[i] - V3::Ones()*g[k]/255).norm() < 0.01, "color of a point"); k++; } if(p.size() > 2) c.nontrivial();
}
