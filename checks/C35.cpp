//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/MLSGrid.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/tools/PlyFile.cpp src/tools/GridAccess.cpp src/tools/GraphViz.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 40000
//@ thorough: 2000000
// Looking up elevations in an environment, and drawing it.
#include "envutil.hpp"
#include "mlsutil.hpp"
#include <envire/tools/GridAccess.hpp>
#include <envire/tools/GraphViz.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <fstream>
#include <memory>
using namespace pbt; using namespace envire; typedef Eigen::Vector3d V3; typedef Eigen::Affine3d A3;
namespace envire { ENVIRONMENT_ITEM_DEF(VpLayer) ENVIRONMENT_ITEM_DEF(VpMap2) ENVIRONMENT_ITEM_DEF(VpMap3) ENVIRONMENT_ITEM_DEF(VpOp) }
namespace pbt { const char* RULE = "Environments with up to three elevation grids, MLS grids or point clouds, apart or overlapping, in frames at any place, height and yaw (point clouds: any pose), asked up to 20 times for positions in any of them or in none, through one and the same accessor; environments with up to twelve items of any id and label, and their relations, written as a graph which is parsed again. Non-trivial: more than one map was hit and a position was in none, or the graph has edges of three kinds."; }
namespace {
A3 flat(Ctx& c, double m) { A3 t = A3::Identity(); if(c.chance(3, 4)) t.linear() = Eigen::AngleAxisd(c.signedReal(M_PI), V3::UnitZ()).toRotationMatrix(); t.translation() = V3(c.signedReal(m), c.signedReal(m), c.signedReal(3)); return t; }
struct World { Environment env; std::vector<FrameNode*> fs; std::map<FrameNode*, A3> at;
    World(Ctx& c, bool any) { fs.push_back(env.getRootNode()); at[fs[0]] = A3::Identity(); for(int i = 0; i < 3; i++) { A3 t = any ? eu::randomPose(c, 3) : flat(c, 4); FrameNode *f = new FrameNode(t), *p = fs[c.draw(fs.size())]; env.addChild(p, f); at[f] = at[p]*t; fs.push_back(f); } } };
// the cell of a position, or -1 if it is outside, -2 if it is close to a border
int cell(const V3& l, size_t nx, size_t ny, double sx, double sy, double ox, double oy) { double x = (l[0] - ox)/sx, y = (l[1] - oy)/sy; if(fabs(x - round(x)) < 1e-6 && x > -0.5 && x < nx + 0.5) return -2; if(fabs(y - round(y)) < 1e-6 && y > -0.5 && y < ny + 0.5) return -2; if(x < 0 || y < 0 || x >= nx || y >= ny) return -1; return (int)y*nx + (int)x; }
struct Geo { size_t nx, ny; double sx, sy, ox, oy; A3 T; };
Geo geo(Ctx& c) { Geo g; g.nx = c.range(1, 6); g.ny = c.range(1, 6); g.sx = c.real(0.2, 2); g.sy = c.real(0.2, 2); g.ox = c.boolean() ? -g.sx*g.nx/2 : c.signedReal(3); g.oy = c.boolean() ? -g.sy*g.ny/2 : c.signedReal(3); return g; }
V3 inside(Ctx& c, const Geo& g, double z) { return g.T*V3(g.ox + g.nx*g.sx*c.unit(), g.oy + g.ny*g.sy*c.unit(), z); }
}
PROP(elevation, 2) {
    eu::Quiet q; World w(c, false); size_t n = c.draw(4); std::vector<Geo> gs; std::vector<std::vector<double>> h; for(size_t i = 0; i < n; i++) { Geo g = geo(c); FrameNode* f = w.fs[c.draw(4)]; g.T = w.at[f]; ElevationGrid* e = new ElevationGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); w.env.setFrameNode(e, f); std::vector<double> v; auto& a = e->getGridData(ElevationGrid::ELEVATION); for(size_t y = 0; y < g.ny; y++) for(size_t x = 0; x < g.nx; x++) { v.push_back(c.signedReal(5) + 10*i); a[y][x] = v.back(); } gs.push_back(g); h.push_back(v); c.note(fmt("grid %zu: %zu x %zu of %g x %g at %g %g, in the world at\n", i, g.nx, g.ny, g.sx, g.sy, g.ox, g.oy) + mat(g.T.matrix())); }
    GridAccess ga(&w.env); size_t m = c.size(1, 20); std::set<size_t> hit; bool none = false; for(size_t s = 0; s < m; s++) { V3 p = n && c.chance(4, 5) ? inside(c, gs[c.draw(n)], c.signedReal(5)) : V3(c.signedReal(30), c.signedReal(30), c.signedReal(5)), r = p; std::vector<double> z; bool near = false; for(size_t i = 0; i < n; i++) { int k = cell(gs[i].T.inverse()*p, gs[i].nx, gs[i].ny, gs[i].sx, gs[i].sy, gs[i].ox, gs[i].oy); if(k == -2) near = true; if(k >= 0) { z.push_back((gs[i].T*V3(0, 0, h[i][k]))[2]); hit.insert(i); } } c.note("ask at " + vec(p)); bool ok = ga.getElevation(r); if(near) continue; CHECK_EQ(ok, !z.empty(), "whether there is an elevation"); CHECK(r[0] == p[0] && r[1] == p[1], "the position moved"); if(!ok) { none = true; CHECK(r == p, "the position changed though there is no elevation"); continue; } bool f = false; for(double x : z) f = f || fabs(x - r[2]) < 1e-9*(1 + fabs(x)); CHECK(f, fmt("elevation %.9g instead of %.9g", r[2], z[0])); if(hit.size() > 1 && none) c.nontrivial(); }
}
PROP(surface, 2) {
    eu::Quiet q; World w(c, false); size_t n = c.draw(4); std::vector<Geo> gs; std::vector<MLSGrid*> ms; bool slope = c.chance(1, 4); for(size_t i = 0; i < n; i++) { Geo g = geo(c); FrameNode* f = w.fs[c.draw(4)]; g.T = w.at[f]; MLSGrid* e = new MLSGrid(g.nx, g.ny, g.sx, g.sy, g.ox, g.oy); e->getConfig().updateModel = c.boolean() ? MLSConfiguration::KALMAN : MLSConfiguration::SUM; w.env.setFrameNode(e, f); size_t k = c.size(1, 15); for(size_t a = 0; a < k; a++) { MLSGrid::SurfacePatch p(c.signedReal(5), c.real(0.01, 0.3), c.boolean() ? 0 : c.real(0, 1), c.chance(1, 5) ? MLSGrid::SurfacePatch::NEGATIVE : c.boolean() ? MLSGrid::SurfacePatch::VERTICAL : MLSGrid::SurfacePatch::HORIZONTAL); e->insertTail(c.draw(g.nx), c.draw(g.ny), p); } gs.push_back(g); ms.push_back(e); c.note(fmt("grid %zu: %zu x %zu of %g x %g at %g %g, in the world at\n", i, g.nx, g.ny, g.sx, g.sy, g.ox, g.oy) + mat(g.T.matrix())); }
    (void)slope; MLSAccess ma(&w.env); size_t m = c.size(1, 20); std::set<size_t> hit; bool none = false; for(size_t s = 0; s < m; s++) { double z0 = c.signedReal(6), dev = c.real(0.01, 1); V3 p; if(n && c.chance(4, 5)) { size_t i = c.draw(n); p = inside(c, gs[i], 0); if(c.boolean()) { int k = cell(gs[i].T.inverse()*p, gs[i].nx, gs[i].ny, gs[i].sx, gs[i].sy, gs[i].ox, gs[i].oy); if(k >= 0) for(auto it = ms[i]->beginCell(k%gs[i].nx, k/gs[i].nx); it != ms[i]->endCell(); it++) z0 = (gs[i].T*V3(0, 0, it->mean))[2] + c.signedReal(0.3); } p[2] = z0; } else p = V3(c.signedReal(30), c.signedReal(30), z0);
        std::vector<std::pair<double, double>> z; bool near = false; for(size_t i = 0; i < n; i++) { V3 l = gs[i].T.inverse()*p; int k = cell(l, gs[i].nx, gs[i].ny, gs[i].sx, gs[i].sy, gs[i].ox, gs[i].oy); if(k == -2) near = true; if(k < 0) continue; for(auto it = ms[i]->beginCell(k%gs[i].nx, k/gs[i].nx); it != ms[i]->endCell(); it++) { MLSGrid::SurfacePatch t(l[2], dev); double lim = sqrt(dev*dev + it->stdev*it->stdev)*3, d = it->distance(t); if(fabs(d - lim) < 1e-5) near = true; if(d < lim && !it->isNegative()) { z.push_back({(gs[i].T*V3(0, 0, it->mean))[2], it->stdev}); hit.insert(i); break; } } }
        c.note("ask at " + vec(p) + fmt(" deviation %g", dev)); double zp = 1234, zs = dev; bool ok = ma.getElevation(p, zp, zs); if(near) continue; CHECK_EQ(ok, !z.empty(), "whether there is a surface"); if(!ok) { none = true; continue; } bool f = false; for(auto& x : z) f = f || (fabs(x.first - zp) < 1e-5*(1 + fabs(x.first)) && fabs(x.second - zs) < 1e-6); CHECK(f, fmt("surface at %.9g deviation %g instead of %.9g deviation %g", zp, zs, z[0].first, z[0].second)); if(hit.size() > 1 && none) c.nontrivial(); }
}
PROP(points, 2) {
    eu::Quiet q; World w(c, true); size_t n = c.range(1, 3); std::vector<V3> v; std::vector<size_t> of; for(size_t i = 0; i < n; i++) { Pointcloud* p = new Pointcloud(); FrameNode* f = w.fs[c.draw(4)]; w.env.setFrameNode(p, f); A3 in = w.at[f].inverse(); size_t k = c.size(0, 25); for(size_t a = 0; a < k; a++) { V3 x(c.signedReal(5), c.signedReal(5), c.signedReal(3)); if(!v.empty() && c.chance(1, 5)) { x = v[c.draw(v.size())]; x[2] += c.signedReal(2); } p->vertices.push_back(in*x); v.push_back(x); of.push_back(i); } }
    PointcloudAccess pa(&w.env); size_t m = c.size(1, 20); std::set<size_t> hit; bool none = false; for(size_t s = 0; s < m; s++) { V3 p(c.signedReal(6), c.signedReal(6), c.signedReal(3)); if(!v.empty() && c.boolean()) { p = v[c.draw(v.size())]; p[0] += c.signedReal(0.3); p[1] += c.signedReal(0.3); } V3 r = p; double th = c.chance(1, 3) ? 0.05 : c.real(0.01, 1); c.note("ask at " + vec(p) + fmt(" within %g", th));
        if(c.boolean()) { double best = INFINITY; for(auto& x : v) best = std::min(best, (x - p).head<2>().norm()); bool ok = th == 0.05 ? pa.getElevation(r) : pa.getElevation(r, th); if(fabs(best - th) < 1e-9) continue; CHECK_EQ(ok, best < th, fmt("whether there is a point, the nearest is %g away", best)); CHECK(r[0] == p[0] && r[1] == p[1], "the position moved"); if(!ok) { none = true; CHECK(r == p, "the position changed"); continue; } bool f = false; for(size_t i = 0; i < v.size(); i++) if((v[i] - p).head<2>().norm() < best + 1e-9 && fabs(v[i][2] - r[2]) < 1e-9) { f = true; hit.insert(of[i]); } CHECK(f, fmt("elevation %.9g is not that of the nearest point", r[2])); }
        else { double z = c.signedReal(3), zt = c.real(0.05, 2); if(c.boolean()) z = p[2]; bool any = false, near = false; for(auto& x : v) { double d = std::max(fabs(x[0] - p[0]), fabs(x[1] - p[1])), e = fabs(x[2] - z); if(fabs(d - th) < 1e-9 || fabs(e - zt) < 1e-9) near = true; any = any || (d <= th && e < zt); } bool ok = pa.getElevation(r, th, z, zt); if(near) continue; CHECK_EQ(ok, any, fmt("whether there is a point about height %g +- %g", z, zt)); if(!ok) { none = true; CHECK(r == p, "the position changed"); continue; } bool f = false; for(size_t i = 0; i < v.size(); i++) if((v[i] - r).norm() < 1e-9) { f = true; hit.insert(of[i]); } CHECK(f, "the position is that of no point"); CHECK(std::max(fabs(r[0] - p[0]), fabs(r[1] - p[1])) <= th + 1e-9 && fabs(r[2] - z) < zt + 1e-9, "the point is not within range"); }
        if(hit.size() > 1 && none) c.nontrivial(); }
}
namespace {
// the subset of the dot language the library writes: statements of a quoted or plain id, an optional second one, and attributes
struct Dot { std::map<std::string, std::map<std::string, std::string>> nodes; std::multiset<std::pair<std::string, std::string>> edges; };
Dot parseDot(const std::string& t) { Dot d; size_t i = 0; auto ws = [&] { for(;;) { while(i < t.size() && isspace((unsigned char)t[i])) i++; if(i < t.size() && t[i] == '#' && (!i || t[i - 1] == '\n')) { while(i < t.size() && t[i] != '\n') i++; } else break; } };
    auto id = [&]() -> std::string { ws(); std::string r; CHECK(i < t.size(), "the graph ends early"); if(t[i] == '"') { for(i++; i < t.size() && t[i] != '"'; i++) { if(t[i] == '\\' && i + 1 < t.size()) { r += t[i++]; } r += t[i]; } CHECK(i < t.size(), "a string without end"); i++; return "\"" + r; } while(i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '.' || (unsigned char)t[i] > 127)) r += t[i++]; CHECK(!r.empty() && !isdigit((unsigned char)r[0]), "not an id: " + t.substr(i, 20)); return r; };
    CHECK_EQ(id(), "digraph", "start"); id(); ws(); CHECK(t[i] == '{', "{"); i++;
    for(;;) { ws(); CHECK(i < t.size(), "the graph has no end"); if(t[i] == '}') break; if(t[i] == ';') { i++; continue; } std::string a = id(), b; ws(); bool edge = false; if(t.compare(i, 2, "->") == 0) { i += 2; b = id(); edge = true; ws(); } std::map<std::string, std::string> at; if(t[i] == '[') { i++; for(;;) { ws(); if(t[i] == ']') { i++; break; } if(t[i] == ',') { i++; continue; } std::string k = id(); ws(); CHECK(t[i] == '=', "an attribute without value"); i++; at[k] = id(); } } if(edge) d.edges.insert({a, b}); else { CHECK(!d.nodes.count(a), "two nodes of the id " + a); d.nodes[a] = at; } }
    i++; ws(); CHECK(i == t.size(), "text behind the graph"); return d; }
std::string plain(const std::string& s) { std::string r; for(size_t i = 0; i < s.size(); i++) { if(s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; } return r; }
}
PROP(graph, 1) {
    eu::Quiet q; Environment env; if(c.chance(1, 3)) env.setEnvironmentPrefix(c.ident(4)); std::vector<FrameNode*> fs(1, env.getRootNode()); std::vector<Layer*> ls; std::vector<CartesianMap*> ms; std::vector<Operator*> os; size_t n = c.size(0, 12); typedef std::pair<EnvironmentItem*, EnvironmentItem*> Ed; std::set<Ed> frames, layers, in, out, maps; std::set<EnvironmentItem*> all(fs.begin(), fs.end()); std::set<std::string> ids;
    auto id = [&](EnvironmentItem* e) { if(c.boolean()) { std::string s = c.boolean() ? c.pick(std::vector<std::string>{"/a/b", "/a_b", "a-b", "/a/b/c", "_a_b", "a b", "a\"b", "a\\b"}) : c.ident(5); std::string key = s; while(ids.count(key)) key += "x"; ids.insert(key); e->setUniqueId(key); } if(c.chance(1, 3)) e->setLabel(c.boolean() ? c.text(8) : c.ident(6)); all.insert(e); };
    for(size_t i = 0; i < n; i++) switch(c.draw(5)) {
    case 0: { FrameNode* f = new FrameNode(flat(c, 20)); id(f); FrameNode* p = fs[c.draw(fs.size())]; env.addChild(p, f); frames.insert(Ed(f, p)); fs.push_back(f); break; }
    case 1: { Layer* l = new VpLayer(); id(l); env.attachItem(l); ls.push_back(l); break; }
    case 2: { VpMap2* m = new VpMap2(); id(m); FrameNode* f = fs[c.draw(fs.size())]; env.setFrameNode(m, f); maps.insert(Ed(f, m)); ls.push_back(m); ms.push_back(m); break; }
    case 3: { VpOp* o = new VpOp("", 10, 10); id(o); env.attachItem(o); os.push_back(o); break; }
    default: if(!ls.empty()) { Layer *a = ls[c.draw(ls.size())], *b = ls[c.draw(ls.size())]; if(!os.empty() && c.chance(2, 3)) { Operator* o = os[c.draw(os.size())]; if(c.boolean()) { env.addInput(o, a); in.insert(Ed(a, o)); } else { env.addOutput(o, a); out.insert(Ed(o, a)); } } else if(a != b && !layers.count(Ed(a, b)) && !layers.count(Ed(b, a))) { env.addChild(a, b); layers.insert(Ed(a, b)); } } }
    for(auto* e : all) c.note(e->getClassName() + " " + e->getUniqueId() + " label " + e->getLabel()); std::string f = scratchDir() + "/graph.dot"; GraphViz gv; gv.writeToFile(&env, f); std::ifstream is(f.c_str()); std::string t((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); std::remove(f.c_str()); c.note(t); Dot d = parseDot(t);
    // nodes are matched by their names
    std::map<EnvironmentItem*, std::string> nd; std::set<std::string> taken; for(auto* e : all) { std::string cn = e->getClassName(); if(cn.rfind("::") != std::string::npos) cn = cn.substr(cn.rfind("::") + 2); std::string name = (e->getLabel().empty() ? "" : e->getLabel() + "\n") + cn + " [" + e->getUniqueId() + "]"; for(auto& k : d.nodes) { CHECK(k.second.count("label"), "a node without a label"); std::string l = plain(k.second["label"].substr(1)); if(dynamic_cast<FrameNode*>(e) ? l.compare(0, name.size() + 1, name + "\n") == 0 : l == name) { CHECK(!nd.count(e) && !taken.count(k.first), "two nodes for " + name); nd[e] = k.first; taken.insert(k.first); CHECK_EQ(k.second["shape"], dynamic_cast<FrameNode*>(e) ? "ellipse" : dynamic_cast<Operator*>(e) ? "octagon" : "box", "shape of " + name);
                if(FrameNode* fn = dynamic_cast<FrameNode*>(e)) { double v[6]; CHECK(sscanf(l.c_str() + name.size() + 1, "t: (%lf %lf %lf)\nr: (%lf %lf %lf)", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6, "pose of a frame: " + l); A3 T = fn->getTransform(); for(int a = 0; a < 3; a++) CHECK(fabs(v[a] - T.translation()[a]) < 0.0501, "position of a frame: " + l); Eigen::Matrix3d R = (Eigen::AngleAxisd(v[5]/180*M_PI, V3::UnitZ())*Eigen::AngleAxisd(v[4]/180*M_PI, V3::UnitY())*Eigen::AngleAxisd(v[3]/180*M_PI, V3::UnitX())).toRotationMatrix(); CHECK((R - T.linear()).norm() < 0.01, "rotation of a frame: " + l); } } } CHECK(nd.count(e), "there is no node for " + name); }
    CHECK_EQ(d.nodes.size(), all.size(), "number of nodes"); size_t kinds = 0; std::multiset<std::pair<std::string, std::string>> e; for(auto* s : {&frames, &layers, &in, &out, &maps}) { kinds += !s->empty(); for(auto& x : *s) e.insert({nd[x.first], nd[x.second]}); } for(auto& x : e) CHECK(d.edges.count(x) == e.count(x), "edge from " + x.first + " to " + x.second); CHECK_EQ(d.edges.size(), e.size(), "number of edges"); if(kinds > 2) c.nontrivial();
}
