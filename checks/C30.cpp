//@ sources: src/core/*.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/maps/Featurecloud.cpp src/maps/LaserScan.cpp src/tools/PlyFile.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 60000
//@ thorough: 2500000
// Point clouds, meshes, feature clouds and laser scans: content, copies, files, scenes and events.
#include "envutil.hpp"
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/Featurecloud.hpp>
#include <envire/maps/LaserScan.hpp>
#include <boost/filesystem.hpp>
#include <boost/tuple/tuple_comparison.hpp>
#include <fstream>
#include <memory>
using namespace pbt; using namespace envire; typedef Eigen::Vector3d V3;
namespace pbt { const char* RULE = "Histories of up to 25 operations on up to five point clouds, meshes and feature clouds in different frames (adding points with or without normals, colors, attributes and variances, faces, clearing, copying with and without the transformation, copying base samples, cloning, setting, writing one to ply data and reading it into another one, saving and loading the scene, sending it as events), compared with a plain model after every operation. Ply data of other writers (ascii, both byte orders, other number types and properties), text files, and laser scan files with keys in any order, spaces, unknown keys and lines of any length are read and compared with what was written in them. Normals of meshes are compared with the mean over the faces. Non-trivial: a cloud with at least two points goes through a file, copy or frame change, a scan has at least two lines, or a mesh has a vertex in two faces."; }
namespace {
bool bits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool bits(const V3& a, const V3& b) { return bits(a[0], b[0]) && bits(a[1], b[1]) && bits(a[2], b[2]); }
typedef std::vector<V3> Vs;
struct Model { Vs p, n, k; std::vector<int> a; std::vector<double> v; std::vector<TriMesh::triangle_t> f; Eigen::Affine3d origin = Eigen::Affine3d::Identity(); double coltol = 0; };
template<class T> std::vector<T> data(Pointcloud& c, const std::string& k) { return c.hasData(k) ? c.getVertexData<T>(k) : std::vector<T>(); }
void cmp(const Vs& a, const Vs& b, double tol, const std::string& w) { CHECK_EQ(a.size(), b.size(), w + ": number"); for(size_t i = 0; i < a.size(); i++) CHECK(bits(a[i], b[i]) || (a[i] - b[i]).norm() <= tol, w + fmt(" %zu: ", i) + vec(a[i]) + " expected " + vec(b[i])); }
void check(Pointcloud& c, const Model& m, double tol, const std::string& w) {
    cmp(c.vertices, m.p, tol, w + ": points"); cmp(data<V3>(c, Pointcloud::VERTEX_NORMAL), m.n, tol, w + ": normals"); cmp(data<V3>(c, Pointcloud::VERTEX_COLOR), m.k, m.coltol, w + ": colors");
    CHECK(data<Pointcloud::vertex_attr>(c, Pointcloud::VERTEX_ATTRIBUTES) == m.a, w + ": attributes"); CHECK(data<double>(c, Pointcloud::VERTEX_VARIANCE) == m.v, w + ": variances"); CHECK(c.getSensorOrigin().matrix().isApprox(m.origin.matrix(), 1e-9), w + ": sensor origin");
    if(TriMesh* t = dynamic_cast<TriMesh*>(&c)) { CHECK_EQ(t->faces.size(), m.f.size(), w + ": faces"); for(size_t i = 0; i < m.f.size(); i++) CHECK(t->faces[i] == m.f[i], w + fmt(": face %zu", i)); }
    if(Featurecloud* t = dynamic_cast<Featurecloud*>(&c)) CHECK_EQ(t->size(), m.p.size(), w + ": size");
    bool fin = true; for(auto& p : m.p) fin = fin && p.allFinite(); if(!fin) return; auto e = c.getExtents(); if(m.p.empty()) { CHECK(e.isEmpty(), w + ": extents of nothing"); return; }
    V3 lo = m.p[0], hi = lo; for(auto& p : m.p) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); } CHECK((e.min() - lo).norm() <= tol && (e.max() - hi).norm() <= tol, w + ": extents");
}
V3 point(Ctx& c, double mag = 100) { if(c.chance(1, 60)) return V3(NAN, INFINITY, -0.0); double s = c.chance(1, 8) ? 1e6 : mag; return V3(c.signedReal(s), c.signedReal(s), c.signedReal(s)); }
V3 color(Ctx& c) { switch(c.draw(3)) { case 0: return V3::Ones()*(c.draw(256)/255.0); case 1: return V3(c.draw(2), c.draw(256)/255.0, c.draw(2)); default: return V3(c.unit(), c.unit(), c.unit()); } }
struct E { boost::intrusive_ptr<Pointcloud> p; Model m; int kind; };
template<class T> void put(Pointcloud& c, const std::string& k, const std::vector<T>& v) { if(!v.empty()) c.getVertexData<T>(k) = v; else if(c.hasData(k)) c.getVertexData<T>(k).clear(); }
void fill(Ctx& c, E& e, size_t n) {
    Model& m = e.m; m.p.clear(); m.n.clear(); m.k.clear(); m.a.clear(); m.v.clear(); m.f.clear(); m.coltol = 0; bool N = c.boolean(), K = c.boolean(), A = c.chance(1, 3), V = c.chance(1, 3);
    for(size_t i = 0; i < n; i++) { m.p.push_back(point(c)); if(N) m.n.push_back(point(c, 1)); if(K) m.k.push_back(color(c)); if(A) m.a.push_back(c.draw(4)); if(V) m.v.push_back(c.unit()); }
    if(e.kind == 1 && n > 2) { size_t f = c.size(0, 6); for(size_t i = 0; i < f; i++) m.f.push_back(TriMesh::triangle_t(c.draw(n), c.draw(n), c.draw(n))); }
    Pointcloud& p = *e.p; p.vertices = m.p; put(p, Pointcloud::VERTEX_NORMAL, m.n); put(p, Pointcloud::VERTEX_COLOR, m.k); put(p, Pointcloud::VERTEX_ATTRIBUTES, m.a); put(p, Pointcloud::VERTEX_VARIANCE, m.v); if(e.kind == 1) static_cast<TriMesh&>(p).faces = m.f;
}
void stored(Model& m) { m.a.clear(); m.v.clear(); if(!m.k.empty() && m.coltol == 0) m.coltol = 2.0/255; }   // what a file keeps
void moved(Model& m, const Eigen::Affine3d& t) { for(auto& p : m.p) p = t*p; m.n.clear(); m.k.clear(); m.a.clear(); m.v.clear(); m.coltol = 0; }
}
PROP(history, 4) {
    eu::Quiet q; Environment env; std::vector<FrameNode*> fs(1, env.getRootNode()); for(int i = 0; i < 2; i++) { FrameNode* f = new FrameNode(eu::randomPose(c)); env.addChild(fs[c.draw(fs.size())], f); fs.push_back(f); }
    std::vector<E> v; std::vector<FrameNode*> at; int serial = 0; bool transfers = false;
    auto add = [&](boost::intrusive_ptr<Pointcloud> p, const Model& m, int kind) { if(!p) p = kind == 0 ? new Pointcloud() : kind == 1 ? (Pointcloud*)new TriMesh() : (Pointcloud*)new Featurecloud(); p->setUniqueId(fmt("/c%d", serial++)); FrameNode* f = fs[c.draw(fs.size())]; env.setFrameNode(p.get(), f); v.push_back(E{p, m, kind}); at.push_back(f); };
    auto world = [&](FrameNode* f) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); while(f != env.getRootNode()) { t = f->getTransform()*t; f = env.getParent(f); } return t; };
    auto all = [&](const std::string& w) { for(size_t i = 0; i < v.size(); i++) check(*v[i].p, v[i].m, v[i].m.p.empty() ? 0 : 1e-7, w + fmt(", cloud %zu", i)); };
    add(0, Model(), c.draw(3)); size_t n = c.size(1, 25);
    for(size_t s = 0; s < n; s++) {
        size_t i = c.draw(v.size()), j = c.draw(v.size()); E& e = v[i]; std::string w;
        switch(c.weighted({8, 2, 3, 3, 2, 3, 4, 3, 2, 1})) {
        case 0: { size_t k = c.size(0, 12); fill(c, e, k); w = fmt("%zu points in %zu", k, i); break; }
        case 1: if(v.size() < 5) { int k = c.draw(3); add(0, Model(), k); w = fmt("new cloud of kind %d", k); } break;
        case 2: { w = fmt("clear %zu", i); if(e.kind == 2) static_cast<Featurecloud&>(*e.p).clear(); else e.p->clear(); auto f = e.m.f; auto o = e.m.origin; e.m = Model(); e.m.f = f; e.m.origin = o; if(e.kind == 1) { static_cast<TriMesh&>(*e.p).faces.clear(); e.m.f.clear(); } break; }
        case 3: if(i != j) { bool t = c.chance(3, 4); w = fmt("copy %zu to %zu%s", j, i, t ? "" : " as it is"); bool fin = true; for(auto& p : v[j].m.p) fin = fin && p.allFinite(); if(!fin) break; if(e.kind == 2 && v[j].kind == 2) static_cast<Featurecloud&>(*e.p).copyFrom(static_cast<Featurecloud*>(v[j].p.get()), t); else e.p->copyFrom(v[j].p.get(), t); auto f = e.m.f; auto o = e.m.origin; e.m = v[j].m; e.m.f = f; e.m.origin = o; moved(e.m, t ? world(at[i]).inverse()*world(at[j]) : Eigen::Affine3d::Identity()); if(e.m.p.size() > 1 && at[i] != at[j]) transfers = true; if(e.kind == 1) { static_cast<TriMesh&>(*e.p).faces.clear(); e.m.f.clear(); } } break;
        case 4: { base::samples::Pointcloud b; Model m; m.origin = e.m.origin; m.f = e.m.f; size_t k = c.size(0, 8); bool K = c.boolean(); for(size_t a = 0; a < k; a++) { m.p.push_back(point(c)); b.points.push_back(m.p.back()); if(K) { m.k.push_back(color(c)); b.colors.push_back(base::Vector4d(m.k[a][0], m.k[a][1], m.k[a][2], c.unit())); } } w = fmt("samples in %zu", i); if(c.boolean()) e.p->copyFrom(b); else { Pointcloud x(b); m.a.clear(); Pointcloud& p = *e.p; p.clear(); p.vertices = x.vertices; put(p, Pointcloud::VERTEX_COLOR, data<V3>(x, Pointcloud::VERTEX_COLOR)); } e.m = m; if(e.kind == 1) { static_cast<TriMesh&>(*e.p).faces.clear(); e.m.f.clear(); } break; }
        case 5: if(v.size() < 5) { w = fmt("clone %zu", i); Model m = e.m; boost::intrusive_ptr<Pointcloud> k = static_cast<Pointcloud*>(e.p->clone()); int kind = e.kind; add(k, m, kind); } else if(i != j && e.kind == v[j].kind) { w = fmt("set %zu to %zu", i, j); e.p->set(v[j].p.get()); auto id = e.p->getUniqueId(); e.m = v[j].m; } break;
        case 6: { bool dbl = c.chance(3, 4); w = fmt("ply of %zu to %zu%s", j, i, dbl ? "" : " in single precision"); std::stringstream ss; CHECK(v[j].p->writePly("x.ply", ss, dbl), "writePly failed"); if(v[j].m.p.size() > 1) transfers = true; Model m = v[j].m; stored(m); if(!dbl) { for(auto& p : m.p) p = p.cast<float>().cast<double>(); for(auto& p : m.n) p = p.cast<float>().cast<double>(); } if(e.kind != 1 || v[j].kind != 1) m.f.clear(); m.origin = e.m.origin; CHECK(e.p->readPly("x.ply", ss), "readPly failed"); e.m = m;
            std::stringstream s2; e.p->writePly("y.ply", s2); Vs k = data<V3>(*e.p, Pointcloud::VERTEX_COLOR); boost::intrusive_ptr<TriMesh> x = new TriMesh(); x->readPly("y.ply", s2); CHECK(data<V3>(*x, Pointcloud::VERTEX_COLOR) == k, "colors that were read change when they are written and read again"); break; }
        case 7: { w = fmt("sensor origin of %zu", i); e.m.origin = eu::randomPose(c); e.p->setSensorOrigin(e.m.origin); break; }
        case 8: { w = fmt("remove data of %zu", i); std::vector<std::string> ks{Pointcloud::VERTEX_NORMAL, Pointcloud::VERTEX_COLOR, Pointcloud::VERTEX_ATTRIBUTES, Pointcloud::VERTEX_VARIANCE}; int k = c.draw(4); e.p->removeData(ks[k]); if(k == 0) e.m.n.clear(); else if(k == 1) { e.m.k.clear(); e.m.coltol = 0; } else if(k == 2) e.m.a.clear(); else e.m.v.clear(); break; }
        default: { size_t k = c.draw(fs.size()); w = fmt("%zu to frame %zu", i, k); e.p->setFrameNode(fs[k]); at[i] = fs[k]; } }
        if(w.empty()) continue; c.note(w); all(w);
    }
    for(auto& e : v) if(e.m.p.size() > 1) transfers = transfers || e.kind != 0;
    if(transfers) c.nontrivial();
    if(c.boolean()) { // the whole scene
        bool file = c.boolean(); c.label(file ? "scene" : "events"); std::unique_ptr<Environment> l; std::string dir = scratchDir() + "/scene"; if(file) { boost::filesystem::remove_all(dir); env.serialize(dir); all("after saving"); l.reset(Environment::unserialize(dir)); boost::filesystem::remove_all(dir); } else { l.reset(new Environment); std::vector<BinaryEvent> ev; env.pullEvents(ev, true); l->applyEvents(ev); all("after sending"); }
        for(size_t i = 0; i < v.size(); i++) { Model m = v[i].m; stored(m); boost::intrusive_ptr<Pointcloud> k = l->getItem<Pointcloud>(v[i].p->getUniqueId()); CHECK(k->getClassName() == v[i].p->getClassName(), "class of a loaded cloud"); CHECK((k->getFrameNode()->relativeTransform(l->getRootNode()).matrix() - world(at[i]).matrix()).norm() < 1e-6, "frame of a loaded cloud"); check(*k, m, 1e-7, fmt("loaded cloud %zu", i)); if(m.p.size() > 1) c.nontrivial();
            CHECK(!k->hasData(Pointcloud::VERTEX_COLOR) || data<V3>(*k, Pointcloud::VERTEX_COLOR).size() == m.p.size(), "colors of the loaded cloud"); }
        if(!file) { E& e = v[c.draw(v.size())]; fill(c, e, c.size(0, 8)); e.p->itemModified(); std::vector<BinaryEvent> ev; env.pullEvents(ev); l->applyEvents(ev); Model m = e.m; stored(m); check(*l->getItem<Pointcloud>(e.p->getUniqueId()), m, 1e-7, "the updated cloud"); }
    }
}
// ply data of any writer
PROP(ply, 1) {
    eu::Quiet q; int format = c.draw(3); struct T { const char* n; int k; }; std::vector<T> num{{"float", 0}, {"double", 1}, {"float32", 0}, {"float64", 1}, {"int", 2}, {"short", 3}, {"int16", 3}, {"uchar", 4}}; T t = num[c.draw(num.size())]; size_t n = c.size(0, 10); bool N = c.boolean(), K = c.boolean(), X = c.boolean(), F = c.boolean(), U = c.chance(1, 3); Model m;
    std::ostringstream h, b; h << "ply\n" << "format " << (format == 0 ? "ascii" : format == 1 ? "binary_little_endian" : "binary_big_endian") << " 1.0\n"; if(c.boolean()) h << "comment some text\n"; if(c.boolean()) h << "obj_info more text\n";
    auto raw = [&](const void* p, size_t s) { const char* d = (const char*)p; for(size_t i = 0; i < s; i++) b << d[format == 1 ? i : s - 1 - i]; };
    auto num1 = [&](int k, double& v) { switch(k) { case 0: v = (float)v; break; case 1: break; case 2: case 3: v = (int)v; break; default: v = (int)v & 255; } if(format == 0) { b.precision(17); b << v << (c.chance(1, 4) ? "\n" : " "); } else switch(k) { case 0: { float f = v; raw(&f, 4); break; } case 1: raw(&v, 8); break; case 2: { int32_t i = v; raw(&i, 4); break; } case 3: { int16_t i = v; raw(&i, 2); break; } default: { uint8_t i = v; raw(&i, 1); } } };
    auto el = [&](const char* name, Vs& l, int k, const char* tn) { h << "element " << name << " " << n << "\n"; for(int a = 0; a < 3; a++) h << "property " << tn << " " << "xyz"[a] << "\n"; if(X) h << "property uchar intensity\n"; for(size_t i = 0; i < n; i++) { V3 p(c.signedReal(100), c.signedReal(100), c.signedReal(100)); for(int a = 0; a < 3; a++) num1(k, p[a]); l.push_back(p); if(X) { double x = c.draw(256); num1(4, x); } } };
    if(U) { h << "element camera 2\nproperty float view_px\nproperty list uchar float terms\n"; for(int i = 0; i < 2; i++) { double v = c.signedReal(5); num1(0, v); double k = c.draw(4); num1(4, k); for(int a = 0; a < (int)k; a++) { double z = 1; num1(0, z); } } }
    el("vertex", m.p, t.k, t.n); if(N) el("normal", m.n, 0, "float");
    if(K) { h << "element color " << n << "\nproperty uchar red\nproperty uchar green\nproperty uchar blue\n"; for(size_t i = 0; i < n; i++) { V3 k; for(int a = 0; a < 3; a++) { double v = c.draw(256); num1(4, v); k[a] = v/255; } m.k.push_back(k); } m.coltol = 1e-9; }
    if(F && n) { std::vector<T> it{{"int", 2}, {"short", 3}, {"uchar", 4}, {"int32", 2}}; T i = it[c.draw(it.size())]; size_t f = c.size(1, 6); h << "element face " << f << "\nproperty list uchar " << i.n << " vertex_index\n"; for(size_t a = 0; a < f; a++) { double s = 3; num1(4, s); int x[3]; for(int k = 0; k < 3; k++) { double v = c.draw(n); x[k] = v; num1(i.k, v); } m.f.push_back(TriMesh::triangle_t(x[0], x[1], x[2])); } }
    h << "end_header\n"; c.note(h.str()); if(n > 1) c.nontrivial(); bool mesh = c.boolean(); boost::intrusive_ptr<Pointcloud> p = mesh ? new TriMesh() : new Pointcloud(); E old{p, Model(), mesh}; if(c.boolean()) fill(c, old, c.size(0, 4)); std::istringstream is(h.str() + b.str()); CHECK(p->readPly("in.ply", is), "ply data is not read"); if(!mesh) m.f.clear(); check(*p, m, 1e-12, "ply data");
    if(n && format != 0) { std::string s = h.str() + b.str(); std::istringstream cut(s.substr(0, h.str().size() + c.draw(b.str().size()))); CHECK_THROWS(p->readPly("in.ply", cut), "truncated ply data is taken"); } if(c.chance(1, 10)) { std::istringstream bad("x y z\n1 2 3\n"); CHECK_THROWS(p->readPly("in.ply", bad), "other data is taken for ply data"); }
}
PROP(text, 1) {
    eu::Quiet q; size_t n = c.size(0, 12); bool r = c.boolean(); std::ostringstream o; o.precision(17); Vs p, k; for(size_t i = 0; i < n; i++) { V3 v(c.signedReal(1000), c.signedReal(1000), c.signedReal(1000)); double g = c.boolean() ? (double)c.draw(256) : c.unit()*255; p.push_back(v); k.push_back(V3::Ones()*(g/255)); o << (c.chance(1, 8) ? " " : "") << v[0] << (c.boolean() ? " " : "\t") << v[1] << " " << v[2]; if(r) o << " " << g; if(c.chance(1, 6)) o << " 17 some more"; if(c.chance(1, 6)) o << " "; if(i + 1 < n || c.chance(3, 4)) o << (c.chance(1, 10) ? "\r\n" : "\n"); } size_t b = c.chance(1, 4) ? c.draw(3) : 0; for(size_t i = 0; i < b; i++) o << "\n"; if(c.chance(1, 10)) o << "  ";
    c.note(o.str()); if(n > 1) c.nontrivial(); auto f = r ? Pointcloud::XYZR : Pointcloud::XYZ;
    { boost::intrusive_ptr<Pointcloud> pc = new Pointcloud(); std::istringstream is(o.str()); CHECK(pc->readText(is, 1, f), "text is not read"); cmp(pc->vertices, p, 0, "points of the text"); cmp(data<V3>(*pc, Pointcloud::VERTEX_COLOR), r ? k : Vs(), 1e-12, "colors of the text");
      std::stringstream ss; ss.precision(17); CHECK(pc->writeText(ss), "writeText"); boost::intrusive_ptr<Pointcloud> x = new Pointcloud(); x->readText(ss, 1, Pointcloud::XYZ); cmp(x->vertices, p, 0, "points written and read again"); CHECK(data<V3>(*x, Pointcloud::VERTEX_COLOR).empty(), "colors of text without any"); }
    int s = c.range(2, 5); { boost::intrusive_ptr<Pointcloud> pc = new Pointcloud(); std::istringstream is(o.str()); srand(c.draw(1000)); pc->readText(is, s, f); size_t a = 0; Vs col = data<V3>(*pc, Pointcloud::VERTEX_COLOR); CHECK(!r || col.size() == pc->vertices.size(), "number of colors of a sample"); for(size_t i = 0; i < pc->vertices.size(); i++) { while(a < n && !bits(p[a], pc->vertices[i])) a++; CHECK(a < n, "a sample of the text has a point which is not in there, or in another order"); if(r) CHECK((col[i] - k[a]).norm() < 1e-12, "color of a sample"); a++; } }
    if(c.chance(1, 4)) { std::string fn = scratchDir() + "/cloud.txt"; { std::ofstream of(fn.c_str()); of << o.str(); } Environment env; FrameNode* fr = new FrameNode(eu::randomPose(c)); env.addChild(env.getRootNode(), fr); Pointcloud* pc = Pointcloud::importCsv(fn, fr, 1, f); CHECK(pc->getEnvironment() == &env && pc->getFrameNode() == fr, "the imported cloud is elsewhere"); cmp(pc->vertices, p, 0, "points of the file"); boost::filesystem::remove(fn); CHECK_THROWS(Pointcloud::importCsv(fn, fr, 1, f), "a file that does not exist"); }
}
namespace {
void scans(LaserScan& a, LaserScan& b, const std::string& w) {
    CHECK_EQ(a.delta_psi, b.delta_psi, w + ": delta_psi"); CHECK_EQ(a.origin_psi, b.origin_psi, w + ": origin_psi"); CHECK_EQ(a.origin_phi, b.origin_phi, w + ": origin_phi"); CHECK(a.center_offset == b.center_offset, w + ": center offset " + vec(a.center_offset) + " expected " + vec(b.center_offset)); CHECK_EQ(a.x_forward, b.x_forward, w + ": direction"); CHECK_EQ(a.lines.size(), b.lines.size(), w + ": number of lines");
    bool same = !a.lines.empty(); for(size_t i = 0; i < a.lines.size(); i++) { auto &x = a.lines[i], &y = b.lines[i]; CHECK_EQ(x.delta_phi, y.delta_phi, w + fmt(": angle of line %zu", i)); CHECK(x.ranges == y.ranges, w + fmt(": ranges of line %zu: ", i) + vec(x.ranges) + " expected " + vec(y.ranges)); CHECK(x.remissions == y.remissions, w + fmt(": remissions of line %zu: ", i) + vec(x.remissions) + " expected " + vec(y.remissions)); same = same && y.ranges.size() == b.lines[0].ranges.size(); }
    if(same) CHECK_EQ(a.points_per_line, (int)b.lines[0].ranges.size(), w + ": points per line");
}
unsigned rangeOf(Ctx& c) { switch(c.draw(4)) { case 0: return c.draw(6); case 1: return 0xffffffffu - c.draw(100); case 2: return c.draw(1u << 31); default: return c.draw(30000); } }
}
PROP(scan, 2) {
    eu::Quiet q; boost::intrusive_ptr<LaserScan> s = new LaserScan(); base::samples::LaserScan b; b.start_angle = c.signedReal(3.2); b.angular_resolution = c.real(0.0001, 0.1); bool rem = c.boolean(), ragged = c.chance(1, 5); size_t n = c.size(0, 6), w = c.size(0, 8); std::vector<LaserScan::scanline_t> ls; std::vector<double> tilt;
    CHECK(s->lines.empty() && s->points_per_line == 0 && s->delta_psi == 0 && s->origin_psi == 0 && s->origin_phi == 0, "a new scan");
    for(size_t i = 0; i < n; i++) { size_t k = ragged ? c.draw(9) : w; b.ranges.clear(); b.remission.clear(); for(size_t a = 0; a < k; a++) { b.ranges.push_back(rangeOf(c)); if(rem) b.remission.push_back(c.draw(65536)); } double t = c.signedReal(1.5); s->addScanLine(t, b); LaserScan::scanline_t l; l.delta_phi = t; l.ranges.assign(b.ranges.begin(), b.ranges.end()); l.remissions.assign(b.remission.begin(), b.remission.end()); ls.push_back(l); }
    if(n) { CHECK_EQ(s->origin_psi, (float)b.start_angle, "start angle"); CHECK_EQ(s->delta_psi, (float)b.angular_resolution, "resolution"); } else { s->delta_psi = 0.01; s->origin_psi = -1; }
    s->origin_phi = c.signedReal(3); s->center_offset = V3(c.signedReal(1), c.signedReal(1), c.signedReal(1)); bool x = c.boolean(); if(x) s->setXForward(); else if(c.boolean()) { s->setXForward(); s->setYForward(); } CHECK_EQ(s->x_forward, x, "direction");
    boost::intrusive_ptr<LaserScan> ref = new LaserScan(); ref->delta_psi = s->delta_psi; ref->origin_psi = s->origin_psi; ref->origin_phi = s->origin_phi; ref->center_offset = s->center_offset; ref->x_forward = x; ref->lines = ls; scans(*s, *ref, "the scan"); if(n > 1) c.nontrivial();
    boost::intrusive_ptr<LaserScan> k = s->clone(); scans(*k, *ref, "a clone"); if(n) { k->lines[0].ranges.push_back(1); k->lines.resize(1); } scans(*s, *ref, "the cloned scan");
    std::stringstream ss; CHECK(s->writeScan(ss), "writeScan"); std::string text = ss.str(); c.note(text); boost::intrusive_ptr<LaserScan> r = c.boolean() ? k : boost::intrusive_ptr<LaserScan>(new LaserScan()); CHECK(r->readScan(ss), "readScan"); scans(*r, *ref, "written and read again");
    if(c.chance(1, 3)) { Environment env; s->setUniqueId("/scan"); FrameNode* f = new FrameNode(eu::randomPose(c)); env.addChild(env.getRootNode(), f); env.setFrameNode(s.get(), f); std::unique_ptr<Environment> l; if(c.boolean()) { c.label("scene"); std::string dir = scratchDir() + "/scene"; boost::filesystem::remove_all(dir); env.serialize(dir); l.reset(Environment::unserialize(dir)); boost::filesystem::remove_all(dir); } else { c.label("events"); l.reset(new Environment); std::vector<BinaryEvent> ev; env.pullEvents(ev, true); l->applyEvents(ev); } LaserScan::Ptr g = l->getItem<LaserScan>("/scan"); scans(*g, *ref, "the loaded scan"); CHECK((g->getFrameNode()->getTransform().matrix() - f->getTransform().matrix()).norm() < 1e-9, "frame of the loaded scan"); }
}
PROP(scanfile, 1) {
    eu::Quiet q; std::vector<std::string> keys; LaserScan::Ptr ref = new LaserScan(); auto num = [&](double v) { return c.boolean() ? fmt("%.15g", v) : fmt("%.6f", v); }; auto sp = [&] { return c.chance(1, 6) ? std::string("  ") : std::string(" "); }; auto end = [&] { return std::string(c.chance(1, 5) ? " " : "") + (c.chance(1, 10) ? "\r\n" : "\n"); };
    Eigen::Affine3d t = Eigen::Affine3d::Identity(); if(c.boolean()) { t.translation() = V3(c.signedReal(10), c.signedReal(10), c.signedReal(10)); keys.push_back("origin " + fmt("%.15g", t.translation()[0]) + sp() + fmt("%.15g", t.translation()[1]) + sp() + fmt("%.15g", t.translation()[2])); } if(c.boolean()) { Eigen::Quaterniond r(eu::randomPose(c).linear()); t.linear() = r.toRotationMatrix(); keys.push_back(fmt("orientation %.15g %.15g %.15g %.15g", r.w(), r.x(), r.y(), r.z())); }
    auto f = [&](const char* k, float& v) { if(c.chance(3, 4)) { std::string s = num(c.signedReal(3)); v = strtof(s.c_str(), 0); keys.push_back(k + sp() + s); } }; f("delta_psi", ref->delta_psi); f("origin_psi", ref->origin_psi); f("origin_phi", ref->origin_phi);
    if(c.boolean()) { std::string s = "center_offset"; for(int i = 0; i < 3; i++) { std::string v = num(c.signedReal(1)); ref->center_offset[i] = strtod(v.c_str(), 0); s += sp() + v; } keys.push_back(s); } if(c.chance(1, 4)) keys.push_back("unknown_key 1 2 3"); if(c.chance(1, 4)) keys.push_back("# a comment"); if(c.chance(1, 4)) keys.push_back("");
    for(size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[c.draw(i)]);
    std::string o; for(auto& k : keys) o += k + end(); size_t n = c.size(0, 5), w = c.size(0, 7); bool ragged = c.chance(1, 4); std::string bad; int which = c.chance(1, 6) ? (int)c.range(1, 2) : 0;
    if(which == 1) { o += "remission 0.5 1 2\n"; } for(size_t i = 0; i < n; i++) { LaserScan::scanline_t l; std::string phi = num(c.signedReal(1.5)); l.delta_phi = strtof(phi.c_str(), 0); size_t k = ragged ? c.draw(8) : w; std::string s = "line " + phi, r = "remission " + phi; bool rem = c.boolean(); for(size_t a = 0; a < k; a++) { l.ranges.push_back(rangeOf(c)); s += sp() + fmt("%u", l.ranges.back()); if(rem) { unsigned v = c.draw(65536); l.remissions.push_back(v); r += sp() + (c.chance(1, 8) ? fmt("%u.5", v) : fmt("%u", v)); } } o += s + end(); if(rem) o += r + end(); ref->lines.push_back(l); if(c.chance(1, 8)) o += "\n"; }
    if(which == 2) { if(n) o += fmt("remission %.6f 4 5\n", ref->lines.back().delta_phi + 0.25); else o += "remission 0.25 4 5\n"; }
    if(!o.empty() && c.chance(1, 4)) o.pop_back();
    c.note(o); if(n > 1) c.nontrivial(); std::string fn = scratchDir() + "/a.scan"; { std::ofstream of(fn.c_str()); of << o; } Environment env; FrameNode* fr = new FrameNode(eu::randomPose(c)); env.addChild(env.getRootNode(), fr); size_t items = env.getItems<EnvironmentItem>().size();
    if(which) { c.label("invalid"); CHECK_THROWS(LaserScan::importScanFile(fn, fr), "remission which does not belong to the line before it"); CHECK_EQ(env.getItems<EnvironmentItem>().size(), items, "items after a failed import"); }
    else { LaserScan* s = LaserScan::importScanFile(fn, fr); ref->x_forward = false; scans(*s, *ref, "the file"); CHECK(s->getEnvironment() == &env && s->getFrameNode() && env.getParent(s->getFrameNode()) == fr, "the scan is not in a frame of its own below the given one"); CHECK((s->getFrameNode()->getTransform().matrix() - t.matrix()).norm() < 1e-5, "frame of the scan:\n" + mat(s->getFrameNode()->getTransform().matrix()) + "\nexpected\n" + mat(t.matrix())); }
    boost::filesystem::remove(fn); if(c.chance(1, 8)) { CHECK_THROWS(LaserScan::importScanFile(fn, fr), "a file that does not exist"); FrameNode::Ptr lone = new FrameNode(); CHECK_THROWS(LaserScan::importScanFile(fn, lone.get()), "a frame without environment"); }
}
PROP(normals, 1) {
    TriMesh::Ptr m = new TriMesh(); size_t n = c.size(1, 10); for(size_t i = 0; i < n; i++) m->vertices.push_back(V3(c.rangeC(-4, 4), c.rangeC(-4, 4), c.rangeC(-4, 4))*0.5); size_t f = c.size(0, 12); for(size_t i = 0; i < f; i++) m->faces.push_back(TriMesh::triangle_t(c.draw(n), c.draw(n), c.draw(n))); if(c.boolean()) m->getVertexData<V3>(Pointcloud::VERTEX_NORMAL).resize(c.draw(12), V3(3, 4, 5));
    Vs s(n, V3::Zero()); std::vector<int> cnt(n); for(size_t i = 0; i < f; i++) { int x[3] = {m->faces[i].get<0>(), m->faces[i].get<1>(), m->faces[i].get<2>()}; c.note(fmt("face %d %d %d", x[0], x[1], x[2])); V3 z = (m->vertices[x[1]] - m->vertices[x[0]]).cross(m->vertices[x[2]] - m->vertices[x[0]]); if(z.norm() < 1e-9) continue; for(int k = 0; k < 3; k++) { s[x[k]] -= z.normalized(); cnt[x[k]]++; } }
    for(size_t i = 0; i < n; i++) { c.note(fmt("vertex %zu ", i) + vec(m->vertices[i])); if(cnt[i] > 1) c.nontrivial(); }
    Vs before = m->vertices; m->calcVertexNormals(); CHECK(m->vertices == before && m->faces.size() == f, "the mesh is changed"); Vs& r = m->getVertexData<V3>(Pointcloud::VERTEX_NORMAL); CHECK_EQ(r.size(), n, "number of normals");
    for(size_t i = 0; i < n; i++) { CHECK(r[i].allFinite(), fmt("normal %zu ", i) + vec(r[i])); if(!cnt[i]) CHECK(r[i].isZero(0), fmt("normal of vertex %zu, which is in no face: ", i) + vec(r[i])); else if(s[i].norm() > 1e-6) CHECK((r[i] + s[i].normalized()).norm() < 1e-6 || (r[i] - s[i].normalized()).norm() < 1e-6, fmt("normal of vertex %zu: ", i) + vec(r[i]) + " expected " + vec((-s[i]).normalized())); }
    // all on the same side: the orientation of the faces
    int side = 0; for(size_t i = 0; i < n; i++) if(cnt[i] && s[i].norm() > 1e-6) { int k = r[i].dot(s[i]) > 0 ? 1 : -1; CHECK(!side || k == side, "normals on both sides of the faces"); side = k; }
}
PROP(keypoint, 0.5) {
    KeyPoint k; k.point = base::Vector2d(c.signedReal(5000), c.signedReal(5000)); k.size = c.real(0, 100); k.angle = c.signedReal(360); k.response = c.signedReal(1e4); c.nontrivial(); KeyPoint b = k; b.point *= 2; b.size += 1; std::stringstream ss; if(c.boolean()) ss.precision(17); double rel = ss.precision() == 17 ? 0 : 1e-5; k.store(ss); b.store(ss); KeyPoint r[2]; r[0].load(ss); r[1].load(ss);
    for(int i = 0; i < 2; i++) { const KeyPoint& x = i ? b : k; CHECK_CLOSE(r[i].point[0], x.point[0], rel, 0, "x"); CHECK_CLOSE(r[i].point[1], x.point[1], rel, 0, "y"); CHECK_CLOSE(r[i].size, x.size, rel, 0, "size"); CHECK_CLOSE(r[i].angle, x.angle, rel, 0, "angle"); CHECK_CLOSE(r[i].response, x.response, rel, 0, "response"); }
}
