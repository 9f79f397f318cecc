//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/maps/LaserScan.cpp src/tools/PlyFile.cpp src/operators/MergePointcloud.cpp src/operators/CutPointcloud.cpp src/operators/DistanceGridToPointcloud.cpp src/operators/ScanMeshing.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 60000
//@ thorough: 2500000
// Operators that make point clouds and meshes: merging, cutting, distance images, laser scans.
#include "envutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/LaserScan.hpp>
#include <envire/operators/MergePointcloud.hpp>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/DistanceGridToPointcloud.hpp>
#include <envire/operators/ScanMeshing.hpp>
#include <boost/filesystem.hpp>
#include <array>
#include <memory>
using namespace pbt; using namespace envire; typedef Eigen::Vector3d V3; typedef std::vector<V3> Vs;
namespace pbt { const char* RULE = "Operators between layers in random frames. Up to four clouds with and without normals and colors are merged up to five times (into a cleared target or on top of it) while clouds, frames and the target change; clouds with any combination of normals, colors, attributes and variances are cut with up to three including or excluding boxes; distance images with valid, infinite, undefined, zero and far values, with and without a color image, become clouds; laser scans (lines of the same or different lengths, with gaps, jumps, too near and too far readings, with and without remission, in both directions, with an offset of the scanner) become meshes, also after saving and loading the scene. All are compared with plain models. Non-trivial: at least two points from two inputs or a dropped one, for meshes at least one face."; }
namespace {
template<class T> std::vector<T> data(Pointcloud& c, const std::string& k) { return c.hasData(k) ? c.getVertexData<T>(k) : std::vector<T>(); }
void cmp(const Vs& a, const Vs& b, double tol, const std::string& w) { CHECK_EQ(a.size(), b.size(), w + ": number"); for(size_t i = 0; i < a.size(); i++) CHECK((a[i] - b[i]).norm() <= tol*(1 + b[i].norm()), w + fmt(" %zu: ", i) + vec(a[i]) + " expected " + vec(b[i])); }
struct Model { Vs p, n, k; std::vector<int> a; std::vector<double> v; };
void check(Pointcloud& c, const Model& m, const std::string& w) { cmp(c.vertices, m.p, 1e-9, w + ": points"); cmp(data<V3>(c, Pointcloud::VERTEX_NORMAL), m.n, 1e-9, w + ": normals"); cmp(data<V3>(c, Pointcloud::VERTEX_COLOR), m.k, 1e-12, w + ": colors"); CHECK(data<Pointcloud::vertex_attr>(c, Pointcloud::VERTEX_ATTRIBUTES) == m.a, w + ": attributes"); CHECK(data<double>(c, Pointcloud::VERTEX_VARIANCE) == m.v, w + ": variances"); }
V3 v3(Ctx& c, double s) { return V3(c.signedReal(s), c.signedReal(s), c.signedReal(s)); }
Model fill(Ctx& c, Pointcloud& p, size_t n, bool N, bool K, bool A, bool V) {
    Model m; for(size_t i = 0; i < n; i++) { m.p.push_back(v3(c, 5)); if(N) m.n.push_back(v3(c, 1)); if(K) m.k.push_back(V3(c.unit(), c.unit(), c.unit())); if(A) m.a.push_back(c.draw(4)); if(V) m.v.push_back(c.unit()); }
    p.clear(); p.vertices = m.p; if(N) p.getVertexData<V3>(Pointcloud::VERTEX_NORMAL) = m.n; if(K) p.getVertexData<V3>(Pointcloud::VERTEX_COLOR) = m.k; if(A) p.getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES) = m.a; if(V) p.getVertexData<double>(Pointcloud::VERTEX_VARIANCE) = m.v; return m; }
struct World { Environment env; std::vector<FrameNode*> fs; std::map<FrameNode*, FrameNode*> up; World(Ctx& c) : fs(1, env.getRootNode()) { for(int i = 0; i < 3; i++) { FrameNode* f = new FrameNode(eu::randomPose(c)); FrameNode* p = fs[c.draw(fs.size())]; env.addChild(p, f); up[f] = p; fs.push_back(f); } }
    Eigen::Affine3d at(FrameNode* f) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); while(f != env.getRootNode()) { t = f->getTransform()*t; f = up[f]; } return t; }
    FrameNode* pick(Ctx& c) { return fs[c.draw(fs.size())]; } Eigen::Affine3d between(FrameNode* a, FrameNode* b) { return at(b).inverse()*at(a); } };
}
PROP(merge, 2) {
    eu::Quiet q; World w(c); size_t n = c.range(1, 4); std::vector<Pointcloud*> in; std::vector<Model> m; std::vector<FrameNode*> at; bool N = c.boolean(), K = c.boolean(), odd = c.chance(1, 5); auto flip = [&](bool b) { return odd && c.chance(1, 4) ? !b : b; };
    MergePointcloud* op = new MergePointcloud(); w.env.attachItem(op); Pointcloud* out = c.boolean() ? new Pointcloud() : new TriMesh(); FrameNode* fo = w.pick(c); w.env.setFrameNode(out, fo); op->addOutput(out); Model t; if(c.boolean()) t = fill(c, *out, c.size(0, 4), flip(N), flip(K), false, false);
    for(size_t i = 0; i < n; i++) { Pointcloud* p = c.boolean() ? new Pointcloud() : new TriMesh(); FrameNode* f = w.pick(c); w.env.setFrameNode(p, f); m.push_back(fill(c, *p, c.size(0, 6), flip(N), flip(K), c.chance(1, 4), c.chance(1, 4))); in.push_back(p); at.push_back(f); op->addInput(p); }
    { Pointcloud* p = new Pointcloud(); w.env.setFrameNode(p, fo); CHECK_THROWS(op->addOutput(p), "second output"); CHECK(w.env.getOutputs(op).size() == 1, "outputs"); }
    bool clear = true; size_t rounds = c.size(1, 5); for(size_t r = 0; r < rounds; r++) {
        if(c.chance(1, 2)) { clear = c.boolean(); op->setClearOutput(clear); } c.note(fmt("merge, %s", clear ? "cleared" : "on top"));
        size_t i = c.draw(n); switch(c.draw(5)) { case 0: m[i] = fill(c, *in[i], c.size(0, 6), flip(N), flip(K), false, false); break; case 1: at[i] = w.pick(c); in[i]->setFrameNode(at[i]); break; case 2: if(w.fs.size() > 1) w.fs[c.range(1, w.fs.size() - 1)]->setTransform(eu::randomPose(c)); break; default: break; }
        int haveN = -1, haveK = -1; bool ok = true; size_t from = 0, pts = 0; auto see = [&](const Model& x) { if(x.p.empty()) return; int a = !x.n.empty(), b = !x.k.empty(); if(haveN >= 0 && (a != haveN || b != haveK)) ok = false; haveN = a; haveK = b; }; for(auto& x : m) { see(x); from += !x.p.empty(); pts += x.p.size(); } if(!clear) see(t);
        if(!ok) { c.label("different data"); CHECK_THROWS(op->updateAll(), "merging clouds with different data"); check(*out, t, "the target of a failed merge"); continue; }
        Model e; if(!clear) e = t; if(clear || e.p.empty()) e.n.clear(), e.k.clear(); std::list<Layer*> order = w.env.getInputs(op); CHECK_EQ(order.size(), n, "number of inputs");
        for(Layer* l : order) { size_t j = std::find(in.begin(), in.end(), l) - in.begin(); CHECK(j < n, "unknown input"); auto T = w.between(at[j], fo); for(auto& p : m[j].p) e.p.push_back(T*p); for(auto& p : m[j].n) e.n.push_back(T.linear()*p); for(auto& p : m[j].k) e.k.push_back(p); }
        CHECK(op->updateAll(), "updateAll"); t = e; check(*out, t, "the merged cloud"); for(size_t j = 0; j < n; j++) check(*in[j], m[j], fmt("input %zu", j)); if(from > 1 && pts > 1) c.nontrivial(); }
}
PROP(cut, 2) {
    eu::Quiet q; World w(c); CutPointcloud* op = new CutPointcloud(); w.env.attachItem(op); Pointcloud *in = new Pointcloud(), *out = c.boolean() ? new Pointcloud() : new TriMesh(); FrameNode *fi = w.pick(c), *fo = w.pick(c); w.env.setFrameNode(in, fi); w.env.setFrameNode(out, fo); op->addInput(in); op->addOutput(out); { Pointcloud* x = new Pointcloud(); w.env.setFrameNode(x, fo); CHECK_THROWS(op->addInput(x), "second input"); CHECK_THROWS(op->addOutput(x), "second output"); }
    if(c.boolean()) fill(c, *out, c.size(0, 5), c.boolean(), c.boolean(), c.boolean(), c.boolean()); std::vector<std::unique_ptr<ExclusionBox>> boxes; std::set<ExclusionBox*> used; size_t rounds = c.size(1, 4);
    for(size_t r = 0; r < rounds; r++) {
        Model m = fill(c, *in, c.size(0, 10), c.boolean(), c.boolean(), c.boolean(), c.boolean()); if(c.boolean() && boxes.size() < 3) { boxes.emplace_back(new ExclusionBox()); ExclusionBox* b = boxes.back().get(); CHECK(b->excludes() && !b->includes(), "a new box"); b->box = Eigen::AlignedBox3d(V3(v3(c, 4).array() - 3), V3(v3(c, 4).array() + 3)); if(c.chance(1, 8)) b->box.setEmpty(); b->exclude = c.boolean(); op->addBox(b); used.insert(b); if(c.boolean()) op->addBox(b); if(!m.p.empty() && c.boolean()) { size_t i = c.draw(m.p.size()); in->vertices[i] = m.p[i] = b->box.isEmpty() ? V3(V3::Zero()) : V3(b->box.min()); } }
        if(c.chance(1, 4) && boxes.size()) { ExclusionBox* b = boxes[c.draw(boxes.size())].get(); op->removeBox(b); used.erase(b); } if(c.chance(1, 4)) w.fs[c.range(1, 3)]->setTransform(eu::randomPose(c));
        Model e; auto T = w.between(fi, fo); for(size_t i = 0; i < m.p.size(); i++) { bool keep = true; for(auto* b : used) { bool inside = true; for(int a = 0; a < 3; a++) inside = inside && m.p[i][a] >= b->box.min()[a] && m.p[i][a] <= b->box.max()[a]; if(inside == b->exclude) keep = false; } c.note(fmt("point %zu %s ", i, keep ? "stays" : "goes") + vec(m.p[i])); if(!keep) { c.nontrivial(); continue; } e.p.push_back(T*m.p[i]); if(!m.n.empty()) e.n.push_back(T.linear()*m.n[i]); if(!m.k.empty()) e.k.push_back(m.k[i]); if(!m.a.empty()) e.a.push_back(m.a[i]); if(!m.v.empty()) e.v.push_back(m.v[i]); }
        CHECK(op->updateAll(), "updateAll"); check(*out, e, "the cut cloud"); check(*in, m, "the input"); }
}
PROP(distance, 1) {
    eu::Quiet q; World w(c); size_t nx = c.range(1, 6), ny = c.range(1, 6); base::samples::DistanceImage di; di.width = nx; di.height = ny; di.scale_x = c.real(0.01, 1); di.scale_y = c.real(0.01, 1); di.center_x = c.signedReal(3); di.center_y = c.signedReal(3); DistanceGrid* g = new DistanceGrid(di); FrameNode *fi = w.pick(c), *fo = w.pick(c); w.env.setFrameNode(g, fi); DistanceGridToPointcloud* op = new DistanceGridToPointcloud(); w.env.attachItem(op); Pointcloud* out = new Pointcloud(); w.env.setFrameNode(out, fo); op->addOutput(out);
    ImageRGB24* im = 0; bool color = c.boolean(); std::vector<uint8_t> px[3]; if(color) { im = new ImageRGB24(nx, ny, 1, 1); w.env.setFrameNode(im, w.pick(c)); const std::string* b[3] = {&ImageRGB24::R, &ImageRGB24::G, &ImageRGB24::B}; for(int k = 0; k < 3; k++) { auto& a = im->getGridData(*b[k]); for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { px[k].push_back(c.draw(256)); a[y][x] = px[k].back(); } } if(c.boolean()) op->addInput(im); }
    if(c.chance(1, 6)) { c.label("no distances"); CHECK_THROWS(op->updateAll(), "no distance grid"); } op->addInput(g); bool linked = false; for(Layer* l : w.env.getInputs(op)) if(l == im) linked = true; if(color && !linked) { op->addInput(im); linked = true; }
    double f = 0.1, mx = 10; if(c.boolean()) fill(c, *out, c.size(0, 4), c.boolean(), c.boolean(), false, c.boolean()); size_t rounds = c.size(1, 3);
    for(size_t r = 0; r < rounds; r++) {
        if(c.boolean()) op->setMaxDistance(mx = c.real(1, 20) + 0.001953125); if(c.boolean()) op->setUncertaintyFactor(f = c.real(0.01, 1)); if(r && linked && c.chance(1, 3)) { w.env.removeInput(op, im); linked = false; }
        di.data.clear(); for(size_t i = 0; i < nx*ny; i++) di.data.push_back(c.chance(1, 4) ? c.pick(std::vector<float>{NAN, INFINITY, -INFINITY, 0, 1e30f}) : (float)c.real(0.1, 15)); g->copyFromDistanceImage(di);
        Model e; auto T = w.between(fi, fo); std::vector<std::pair<V3, std::pair<V3, double>>> ex, got; size_t none = 0; for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { float d = di.data[y*nx + x]; bool v = std::isfinite(d) && d != 0 && d < mx; c.note(fmt("%zu %zu: %g", x, y, d)); if(!v) { none++; continue; } V3 p((x + 0.5)*di.scale_x + di.center_x, (y + 0.5)*di.scale_y + di.center_y, 1); p = T*V3(p*d); V3 k = V3::Zero(); if(linked) for(int a = 0; a < 3; a++) k[a] = px[a][y*nx + x]/255.0; ex.push_back({p, {k, d*f}}); }
        CHECK(op->updateAll(), "updateAll"); Vs col = data<V3>(*out, Pointcloud::VERTEX_COLOR); std::vector<double> var = data<double>(*out, Pointcloud::VERTEX_VARIANCE); CHECK_EQ(out->vertices.size(), ex.size(), "number of points"); CHECK_EQ(var.size(), ex.size(), "number of variances"); CHECK_EQ(col.size(), linked ? ex.size() : 0, "number of colors"); CHECK(data<V3>(*out, Pointcloud::VERTEX_NORMAL).empty(), "normals of a former cloud");
        for(size_t i = 0; i < ex.size(); i++) got.push_back({out->vertices[i], {linked ? col[i] : V3(V3::Zero()), var[i]}});
        for(auto& x : ex) { bool f1 = false; for(size_t i = 0; i < got.size() && !f1; i++) if((got[i].first - x.first).norm() < 1e-5*(1 + x.first.norm()) && (got[i].second.first - x.second.first).norm() < 1e-6 && fabs(got[i].second.second - x.second.second) < 1e-6) { f1 = true; got.erase(got.begin() + i); } CHECK(f1, "there is no point " + vec(x.first) + " color " + vec(x.second.first) + fmt(" variance %g", x.second.second)); }
        if(none && ex.size() > 1) c.nontrivial(); }
}
namespace {
struct Mesh { Vs p, k; std::vector<double> v; std::vector<int> edge; std::vector<std::array<int, 3>> f; std::vector<bool> anyOrder; };
struct Conf { double maxEdge = 0.5, scale = 10000, minR = 0.1, maxR = 1e9; bool rem = false; };
// false: too close to one of the thresholds
bool mesh(const LaserScan& s, const Conf& cf, Mesh& m) {
    m = Mesh(); std::vector<int> prev; bool anyRem = false; double lim = 85.0/180*M_PI;
    for(size_t l = 0; l < s.lines.size(); l++) { auto& L = s.lines[l]; size_t n = L.ranges.size(); std::vector<int> cur(n, -1); prev.resize(std::max(prev.size(), n), -1); double phi = s.origin_phi + L.delta_phi; bool has = L.remissions.size() == n, before = true;
        for(size_t i = 0; i < n; i++) { double r = L.ranges[i]/1000.0, psi = s.origin_psi + i*(double)s.delta_psi; bool pass = true;
            if(i + 1 < n) { double o = L.ranges[i + 1]/1000.0, k2 = r*r + o*o - 2*r*o*cos(2*(double)s.delta_psi), k = sqrt(std::max(0.0, k2)); if(r == 0 || k < 1e-9) pass = false; else { double x = (r*r - o*o + k2)/(2*r*k), a = acos(std::min(1.0, std::max(-1.0, x))); if(fabs(fabs(a - M_PI/2) - lim) < 0.02) return false; pass = fabs(a - M_PI/2) < lim; } }
            bool ok = pass && before && r > cf.minR && r < cf.maxR; before = pass;
            if(ok) { V3 d(cos(psi)*cos(phi)*r, sin(psi)*r, cos(psi)*sin(phi)*r), o; const V3& co = s.center_offset; if(s.x_forward) o = V3(cos(phi)*co[0] - sin(phi)*co[2], co[1], sin(phi)*co[0] + cos(phi)*co[2]); else { d = V3(-d[1], d[0], d[2]); o = V3(co[0], cos(phi)*co[1] - sin(phi)*co[2], sin(phi)*co[1] + cos(phi)*co[2]); }
                cur[i] = m.p.size(); m.p.push_back(d + o); double sg = std::min(0.01*r, 0.02); m.v.push_back(sg*sg); m.k.push_back(cf.rem && has ? V3(V3::Ones()*std::min(1.0, L.remissions[i]/cf.scale)) : V3(V3::Zero())); if(cf.rem && has) anyRem = true; m.edge.push_back(i == 0 || i + 1 == n || l == 0 || l + 1 == s.lines.size()); }
            if(l && i) { int q[4] = {prev[i - 1], prev[i], cur[i], cur[i - 1]}; int first = -1; for(int k = 0; k < 4; k++) { int t[3], z = 0; for(int a = 0; a < 4; a++) if(a != k) t[z++] = q[a]; if(t[0] < 0 || t[1] < 0 || t[2] < 0 || (first >= 0 && (first + k)%2)) continue; bool shortEdges = true; for(int a = 0; a < 3; a++) { double e = (m.p[t[a]] - m.p[t[(a + 1)%3]]).norm(); if(fabs(e - cf.maxEdge) < 1e-3) return false; if(e >= cf.maxEdge) shortEdges = false; } if(!shortEdges) continue; first = k; bool rev = fabs(psi) > M_PI/2; m.f.push_back({t[0], rev ? t[2] : t[1], rev ? t[1] : t[2]}); m.anyOrder.push_back(fabs(fabs(psi) - M_PI/2) < 1e-3); } } }
        prev = cur; }
    if(!anyRem) m.k.clear(); return true; }
std::array<int, 3> turn(std::array<int, 3> a) { while(a[0] > a[1] || a[0] > a[2]) std::rotate(a.begin(), a.begin() + 1, a.end()); return a; }
void compare(TriMesh& t, const Mesh& m, const std::string& w) {
    cmp(t.vertices, m.p, 2e-4, w + ": points"); auto v = data<double>(t, Pointcloud::VERTEX_VARIANCE); CHECK_EQ(v.size(), m.p.size(), w + ": variances"); for(size_t i = 0; i < v.size(); i++) CHECK_CLOSE(v[i], m.v[i], 1e-4, 0, w + fmt(": variance of point %zu", i)); cmp(data<V3>(t, Pointcloud::VERTEX_COLOR), m.k, 1e-5, w + ": colors"); if(m.k.empty() && !m.p.empty()) CHECK(!t.hasData(Pointcloud::VERTEX_COLOR), w + ": there are colors");
    auto a = data<Pointcloud::vertex_attr>(t, Pointcloud::VERTEX_ATTRIBUTES); CHECK_EQ(a.size(), m.p.size(), w + ": attributes"); for(size_t i = 0; i < a.size(); i++) CHECK_EQ(a[i], m.edge[i] << Pointcloud::SCAN_EDGE, w + fmt(": attribute of point %zu", i));
    std::multiset<std::array<int, 3>> got, want; auto any = [](std::array<int, 3> x) { std::sort(x.begin(), x.end()); return x; }; bool loose = false; for(bool b : m.anyOrder) loose = loose || b; for(auto& f : t.faces) { std::array<int, 3> x{f.get<0>(), f.get<1>(), f.get<2>()}; got.insert(loose ? any(x) : turn(x)); } for(auto& f : m.f) want.insert(loose ? any(f) : turn(f));
    for(auto& f : want) CHECK(got.count(f) == want.count(f), w + fmt(": face %d %d %d is there %zu times", f[0], f[1], f[2], got.count(f))); for(auto& f : got) CHECK(want.count(f), w + fmt(": there should be no face %d %d %d", f[0], f[1], f[2]));
    Vs n = data<V3>(t, Pointcloud::VERTEX_NORMAL); CHECK_EQ(n.size(), m.p.size(), w + ": normals"); TriMesh::Ptr r = new TriMesh(); r->vertices = t.vertices; r->faces = t.faces; r->calcVertexNormals(); cmp(n, data<V3>(*r, Pointcloud::VERTEX_NORMAL), 1e-9, w + ": normals"); }
void scan(Ctx& c, LaserScan& s) {
    s.lines.clear(); size_t n = c.size(0, 5), w = c.size(0, 7); bool rem = c.chance(2, 3), ragged = c.chance(1, 4), some = c.chance(1, 4); double base = c.real(0.3, 6), step = c.real(0.02, 0.3)*(c.boolean() ? 1 : -1); s.delta_psi = c.real(0.02, 0.2); s.origin_psi = c.chance(1, 3) ? c.signedReal(3) : -(double)w/2*s.delta_psi; s.origin_phi = c.chance(1, 2) ? 0 : c.signedReal(1.5); s.center_offset = c.boolean() ? V3(V3::Zero()) : v3(c, 0.3); s.x_forward = c.boolean(); int err = c.boolean() ? 0 : c.range(2, 12);
    for(size_t i = 0; i < n; i++) { LaserScan::scanline_t l; l.delta_phi = i*step; size_t k = ragged ? c.draw(9) : w; for(size_t a = 0; a < k; a++) { double r = base*(1 + 0.05*c.signedReal(1)); if(err && c.chance(1, err)) r = c.pick(std::vector<double>{0, 0.003, 0.05, 30, 2*base, 0}); l.ranges.push_back(r*1000); l.remissions.push_back(c.draw(40000)); } if(!rem || (some && c.boolean())) l.remissions.clear(); s.lines.push_back(l); } s.points_per_line = n ? s.lines.back().ranges.size() : 0; }
void show(Ctx& c, const LaserScan& s) { if(!c.isRendering()) return; c.note(fmt("delta_psi %.9g origin_psi %.9g origin_phi %.9g x_forward %d offset ", s.delta_psi, s.origin_psi, s.origin_phi, (int)s.x_forward) + vec(s.center_offset)); for(auto& l : s.lines) c.note(fmt("line %.9g ", l.delta_phi) + vec(l.ranges) + " " + vec(l.remissions)); }
}
PROP(meshing, 3) {
    eu::Quiet q; Environment env; FrameNode *f = new FrameNode(eu::randomPose(c)); env.addChild(env.getRootNode(), f); LaserScan* s = new LaserScan(); TriMesh* t = new TriMesh(); ScanMeshing* op = new ScanMeshing(); op->setUniqueId("/op"); s->setUniqueId("/scan"); t->setUniqueId("/mesh"); env.setFrameNode(s, f); env.setFrameNode(t, f); env.attachItem(op); if(c.chance(1, 8)) CHECK_THROWS(op->updateAll(), "no input and output"); op->addInput(s); op->addOutput(t); Conf cf; Mesh m; size_t rounds = c.size(1, 3); { TriMesh* x = new TriMesh(); env.setFrameNode(x, f); CHECK_THROWS(op->addOutput(x), "second output"); }
    for(size_t r = 0; r < rounds; r++) {
        scan(c, *s); if(c.boolean()) op->setMaxEdgeLength(cf.maxEdge = c.real(0.05, 3)); if(c.boolean()) op->setMinRange(cf.minR = (c.range(50, 2000) + 0.5)/1000); if(c.chance(1, 3)) op->setMaxRange(cf.maxR = (c.range(1000, 9000) + 0.5)/1000); if(c.boolean()) op->useRemission(cf.rem = c.boolean()); if(c.boolean()) op->setRemissionScaleFactor(cf.scale = c.real(100, 50000)); if(c.chance(1, 4)) { op->setExtractMarkers(c.boolean()); op->setRemissionMarkerThreshold(c.draw(30000)); } if(c.chance(1, 6)) { op->setDefaultConfiguration(); cf = Conf(); }
        show(c, *s); c.note(fmt("edges %g scale %g range %g %g remission %d", cf.maxEdge, cf.scale, cf.minR, cf.maxR, (int)cf.rem)); if(!mesh(*s, cf, m)) { c.label("near a threshold"); return; } CHECK(op->updateAll(), "updateAll"); compare(*t, m, "the mesh"); if(!m.f.empty()) c.nontrivial();
        // the other direction is the same scan turned about the z axis
        if(c.boolean()) { LaserScan* o = s; bool x = o->x_forward; V3 co = o->center_offset; Vs before = t->vertices; auto R = Eigen::AngleAxisd(x ? M_PI/2 : -M_PI/2, V3::UnitZ()); o->x_forward = !x; o->center_offset = R*co; op->updateAll(); Vs e; for(auto& p : before) e.push_back(R*p); cmp(t->vertices, e, 1e-5, "points of the scan in the other direction"); o->x_forward = x; o->center_offset = co; op->updateAll(); } }
    if(c.chance(1, 3)) { c.label("loaded"); std::string dir = scratchDir() + "/scene"; boost::filesystem::remove_all(dir); env.serialize(dir); std::unique_ptr<Environment> l(Environment::unserialize(dir)); boost::filesystem::remove_all(dir); ScanMeshing::Ptr o = l->getItem<ScanMeshing>("/op"); TriMesh::Ptr k = l->getItem<TriMesh>("/mesh"); o->setMaxRange(cf.maxR); o->useRemission(cf.rem); o->updateAll(); compare(*k, m, "the mesh made in the loaded scene"); }
}
