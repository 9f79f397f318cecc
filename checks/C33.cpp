//@ sources: src/core/*.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/tools/PlyFile.cpp icp/icp.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 40000
//@ thorough: 2000000
// Registration of point clouds: the transform of corresponding points, trimmed ICP, its line search, and RANSAC.
#include "envutil.hpp"
#include <envire_icp/icp.hpp>
#include <envire_icp/ransac.hpp>
#include <memory>
using namespace pbt; using namespace envire; typedef Eigen::Vector3d V3; typedef std::vector<V3> Vs;
namespace pbt { const char* RULE = "Histories of adding, trimming and clearing pairs of points (spread, in a plane, on a line, in one place; moved by any rotation with noise, mirrored or unrelated) whose transform is compared with the optimal one of a singular value decomposition; clouds of up to 40 points in different frames aligned to one or two others for all densities, overlaps, iteration limits and thresholds, with and without normals and edges, compared with a direct implementation of the trimmed algorithm; unimodal functions given to the line search; correspondences with up to 30% wrong ones given to RANSAC. Non-trivial: pairs with a rotation of more than 0.1 rad, alignments that moved the cloud and dropped pairs or ran more than one iteration, functions with the minimum inside, RANSAC with wrong correspondences."; }
namespace {
typedef Eigen::Affine3d A3;
struct Corr { V3 x, p; double d; };
double cost(const std::vector<Corr>& v, const A3& t) { double s = 0; for(auto& c : v) s += (c.x - t*c.p).squaredNorm(); return s; }
// the optimal rigid motion; gap: how well its rotation is determined
A3 kabsch(const std::vector<Corr>& v, double* gap = 0) {
    V3 mx = V3::Zero(), mp = V3::Zero(); for(auto& c : v) { mx += c.x; mp += c.p; } mx /= v.size(); mp /= v.size(); Eigen::Matrix3d H = Eigen::Matrix3d::Zero(); for(auto& c : v) H += (c.p - mp)*(c.x - mx).transpose();
    Eigen::JacobiSVD<Eigen::Matrix3d> s(H, Eigen::ComputeFullU | Eigen::ComputeFullV); double d = (s.matrixV()*s.matrixU().transpose()).determinant() < 0 ? -1 : 1; V3 sg(1, 1, d); Eigen::Matrix3d R = s.matrixV()*sg.asDiagonal()*s.matrixU().transpose(); if(gap) { V3 w = s.singularValues(); *gap = w[0] > 0 ? (w[1] + d*w[2])/w[0] : 0; }
    A3 t = A3::Identity(); t.linear() = R; t.translation() = mx - R*mp; return t; }
V3 v3(Ctx& c, double m) { return V3(c.signedReal(m), c.signedReal(m), c.signedReal(m)); }
V3 g3(Ctx& c, double m) { return V3((c.unit() - 0.5)*2*m, (c.unit() - 0.5)*2*m, (c.unit() - 0.5)*2*m); }
void proper(const A3& t, const std::string& w) { CHECK(t.matrix().allFinite(), w + ": not finite"); CHECK((t.linear()*t.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-9 && t.linear().determinant() > 0, w + ": not a rigid motion\n" + mat(t.matrix())); }
A3 rot(Ctx& c) { A3 t = eu::randomPose(c, 5); return t; }
}
PROP(pairs, 3) {
    icp::Pairs ps; std::vector<Corr> m; size_t n = c.size(1, 8); int serial = 0; A3 T = rot(c); int shape = c.draw(5), rel = c.weighted({4, 2, 1, 1}); double noise = rel == 1 ? c.real(0.001, 0.5) : 0; V3 a = v3(c, 1), b = v3(c, 1), o = v3(c, 5);
    auto pt = [&] { switch(shape) { case 0: case 1: return V3(o + v3(c, 3)); case 2: return V3(o + c.signedReal(2)*a + c.signedReal(2)*b); case 3: return V3(o + c.signedReal(3)*a); default: return c.chance(1, 3) ? V3(o + a) : o; } };
    for(size_t s = 0; s < n; s++) {
        switch(c.weighted({6, 2, 1})) {
        case 0: { size_t k = c.size(1, 12); c.note(fmt("add %zu", k)); for(size_t i = 0; i < k; i++) { Corr r; r.p = pt(); r.x = T*r.p; if(rel == 1) r.x += v3(c, noise); if(rel == 2) r.x = T*V3(r.p[0], r.p[1], -r.p[2]); if(rel == 3) r.x = pt(); r.d = c.real(0, 5) + 1e-6*serial++; c.note("  " + vec(r.x) + " from " + vec(r.p) + fmt(" distance %.9g", r.d)); ps.add(r.x, r.p, r.d); m.push_back(r); } break; }
        case 1: { size_t k = c.chance(1, 8) ? 0 : c.size(0, m.size() + 2); c.note(fmt("trim to %zu", k)); double l = ps.trim(k); std::sort(m.begin(), m.end(), [](const Corr& x, const Corr& y) { return x.d < y.d; }); if(k < m.size()) m.resize(k); if(m.empty()) CHECK(std::isnan(l), "largest distance of no pairs"); else CHECK_EQ(l, m.back().d, "largest distance that is left"); break; }
        default: c.note("clear"); ps.clear(); m.clear(); }
        CHECK_EQ(ps.size(), m.size(), "number of pairs"); if(m.size() < 3) { CHECK_THROWS(ps.getTransform(), "too few pairs"); continue; }
        A3 t = ps.getTransform(); proper(t, "the transform"); double e = 0, sz = 0; for(auto& r : m) { e += r.d*r.d; sz += r.x.squaredNorm() + r.p.squaredNorm(); } CHECK_CLOSE(ps.getMeanSquareError(), e/m.size(), 1e-9, 1e-12, "mean square distance");
        A3 k = kabsch(m); CHECK(cost(m, t) <= cost(m, k) + 1e-9*(1 + sz), fmt("the remaining error is %.9g, but the best is %.9g, with\n", cost(m, t), cost(m, k)) + mat(k.matrix()) + "\n instead of\n" + mat(t.matrix())); if(Eigen::AngleAxisd(k.rotation()).angle() > 0.1 && m.size() > 2) c.nontrivial();
    }
}
namespace {
struct Par { size_t iter; double mse, diff; };
struct Ref { A3 C; size_t iter, pairs; double mse, diff; std::vector<double> dist; bool near; double gap; };
struct Node { V3 p, n; bool edge; };
// trimmed ICP as published: nearest neighbours within the box, the best share of them, their transform, until it ends
Ref trimmed(const std::vector<Node>& model, const std::vector<Node>& meas, size_t total, const Par& q, double overlap, bool filter) {
    Ref r; r.C = A3::Identity(); r.iter = r.pairs = 0; r.mse = r.diff = INFINITY; r.near = false; r.gap = 1; double box = INFINITY; auto close = [&](double a, double b) { if(fabs(a - b) <= 1e-9*(fabs(a) + fabs(b)) + 1e-12) r.near = true; }; std::vector<Corr> v; double f0 = total*overlap; if(fabs(f0 - round(f0)) < 1e-9 && f0 != floor(f0)) r.near = true;
    while(r.iter < q.iter && r.mse > q.mse && r.diff > q.diff) {
        double old = r.mse; v.clear(); for(auto& s : meas) { V3 p = r.C*s.p, n = r.C.linear()*s.n; const Node* best = 0; double d = INFINITY, second = INFINITY; for(auto& k : model) { double x = (k.p - p).norm(); if(x < d) { if((!best || (best->p - k.p).norm() > 1e-12 || filter)) second = d; d = x; best = &k; } else if(x < second && (filter || (k.p - best->p).norm() > 1e-12)) second = x; } if(best && second < INFINITY) close(d, second); if(!best) continue; if(box < INFINITY) close(d, box); if(d > box) continue;
            if(filter) { double ang = acos(std::max(-1.0, std::min(1.0, n.dot(best->n)))); if(fabs(ang - M_PI/8) < 1e-6) r.near = true; if(s.edge || best->edge || !(ang < M_PI/8)) continue; } v.push_back(Corr{best->p, p, d}); }
        std::sort(v.begin(), v.end(), [](const Corr& a, const Corr& b) { return a.d < b.d; }); size_t k = f0; if(k < v.size()) { if(k && k < v.size()) { if(fabs(v[k].d - v[k - 1].d) < 1e-9) r.near = true; } v.resize(k); } r.pairs = v.size(); box = v.empty() ? NAN : v.back().d*2; if(v.size() < 3) return r;
        double g; A3 t = kabsch(v, &g); r.gap = std::min(r.gap, g); r.C = t*r.C; r.mse = 0; for(auto& c : v) r.mse += c.d*c.d/v.size(); r.diff = old - r.mse; r.iter++; if(fabs(r.mse - q.mse) < 1e-9*(1 + r.mse) + 1e-13 || fabs(r.diff - q.diff) < 1e-9*(1 + fabs(r.diff)) + 1e-13) if(r.iter < q.iter) r.near = true; }
    for(auto& c : v) r.dist.push_back(c.d); return r; }
struct Cl { boost::intrusive_ptr<Pointcloud> p; FrameNode* f; };
A3 world(Environment& env, FrameNode* f) { A3 t = A3::Identity(); while(f != env.getRootNode()) { t = f->getTransform()*t; f = env.getParent(f); } return t; }
std::vector<Node> sample(Environment& env, const Cl& k, double density, bool attrs) { std::vector<Node> r; A3 T = world(env, k.f); for(double i = 0; (size_t)i < k.p->vertices.size(); i += 1.0/density) { size_t a = i; Node x; x.p = T*k.p->vertices[a]; x.n = V3::Zero(); x.edge = false; if(attrs) { x.n = T.linear()*k.p->getVertexData<V3>(Pointcloud::VERTEX_NORMAL)[a]; x.edge = k.p->getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES)[a] & (1 << Pointcloud::SCAN_EDGE); } r.push_back(x); } return r; }
template<class Icp, class Adapter> void alignment(Ctx& c, bool attrs) {
    eu::Quiet q; Environment env; std::vector<FrameNode*> fs(1, env.getRootNode()); for(int i = 0; i < 3; i++) { FrameNode* f = new FrameNode(eu::randomPose(c, 3)); env.addChild(fs[c.draw(fs.size())], f); fs.push_back(f); }
    size_t n = c.size(0, 40); double ext = c.real(0.5, 10); Vs pts, nor; for(size_t i = 0; i < n; i++) { pts.push_back(g3(c, ext)); V3 d = g3(c, 1); nor.push_back(d.norm() > 0.01 ? V3(d.normalized()) : V3(V3::UnitZ())); } std::unique_ptr<Icp> a(new Icp()); 
    auto put = [&](Pointcloud& p, FrameNode* f, const Vs& v, const Vs& m) { A3 i = world(env, f).inverse(); for(auto& x : v) p.vertices.push_back(i*x); if(attrs) { auto& k = p.getVertexData<V3>(Pointcloud::VERTEX_NORMAL); for(auto& x : m) k.push_back(i.linear()*x); auto& e = p.getVertexData<Pointcloud::vertex_attr>(Pointcloud::VERTEX_ATTRIBUTES); for(size_t j = 0; j < v.size(); j++) e.push_back(c.chance(1, 8) ? 1 << Pointcloud::SCAN_EDGE : c.boolean() ? 0 : ~(1 << Pointcloud::SCAN_EDGE)); } };
    std::vector<Node> model; size_t models = c.range(1, 2); size_t cut = models == 2 ? c.draw(n + 1) : n; if(c.chance(1, 6)) { Cl x{new Pointcloud(), fs[c.draw(4)]}; env.setFrameNode(x.p.get(), x.f); put(*x.p, x.f, pts, nor); a->addToModel(Adapter(x.p.get(), 1.0)); a->clearModel(); c.note("another model before"); }
    for(size_t i = 0; i < models; i++) { Cl k{new Pointcloud(), fs[c.draw(4)]}; env.setFrameNode(k.p.get(), k.f); size_t b = i ? cut : 0, e = i ? n : cut; put(*k.p, k.f, Vs(pts.begin() + b, pts.begin() + e), Vs(nor.begin() + b, nor.begin() + e)); double d = c.chance(2, 3) ? 1.0 : c.real(0.2, 1); a->addToModel(Adapter(k.p.get(), d)); for(auto& x : sample(env, k, d, attrs)) model.push_back(x); c.note(fmt("model of %zu points, density %g", e - b, d)); }
    size_t rounds = c.size(1, 2); for(size_t r = 0; r < rounds; r++) {
        FrameNode* own = new FrameNode(eu::randomPose(c, 3)); env.addChild(fs[c.draw(4)], own); Cl k{new Pointcloud(), own}; env.setFrameNode(k.p.get(), own); FrameNode* child = new FrameNode(eu::randomPose(c, 3)); env.addChild(own, child);
        A3 D = A3::Identity(); double mag = c.boolean() ? 0.05 : 0.5; D.linear() = Eigen::AngleAxisd((c.unit() - 0.5)*2*mag, V3::Unit(c.draw(3))).toRotationMatrix(); D.translation() = g3(c, mag*ext/2); Vs mp, mn; double noise = c.boolean() ? 0 : c.real(0, 0.2); for(size_t i = 0; i < n; i++) if(!c.chance(1, 4)) { mp.push_back(D*V3(pts[i] + g3(c, noise))); mn.push_back(D.linear()*nor[i]); } size_t out = c.size(0, 5); for(size_t i = 0; i < out; i++) { mp.push_back(g3(c, 3*ext)); V3 d = g3(c, 1); mn.push_back(d.norm() > 0.01 ? V3(d.normalized()) : V3(V3::UnitX())); } put(*k.p, own, mp, mn);
        double density = c.chance(2, 3) ? 1.0 : c.real(0.2, 1); Par p; p.iter = c.size(0, 8); p.mse = c.boolean() ? -1 : c.real(0, 0.5); p.diff = c.boolean() ? -1e9 : c.chance(1, 3) ? 1e-3 : c.real(0, 0.1); bool search = c.chance(1, 5); double alpha = c.real(0.2, 0.9), beta = c.real(alpha, 1), ov = c.boolean() ? 1.0 : c.real(0.1, 1), eps = c.real(0.01, 0.2); if(beta < alpha + 0.02) beta = alpha + 0.02; Vs before = k.p->vertices; std::vector<Node> meas = sample(env, k, density, attrs); size_t total = k.p->vertices.size()*density; A3 w0 = world(env, own), up = world(env, env.getParent(own));
        c.note(fmt("align %zu points, density %g, at most %zu iterations, mse %g difference %g ", mp.size(), density, p.iter, p.mse, p.diff) + (search ? fmt("overlap from %g to %g to %g", alpha, beta, eps) : fmt("overlap %g", ov)));
        if(search) { a->align(Adapter(k.p.get(), density), p.iter, p.mse, p.diff, alpha, beta, eps); ov = a->getOverlap(); if(ov == 0) ov = alpha; CHECK(ov >= alpha - 1e-9 && ov <= beta + 1e-9, fmt("the overlap %g is outside of the interval", ov)); c.label("search"); } else { a->align(Adapter(k.p.get(), density), p.iter, p.mse, p.diff, ov); CHECK_EQ(a->getOverlap(), ov, "the overlap"); }
        Ref ref = trimmed(model, meas, total, p, ov, attrs); CHECK(k.p->vertices.size() == before.size() && std::equal(before.begin(), before.end(), k.p->vertices.begin(), [](const V3& x, const V3& y) { return x == y; }), "the points of the measurement changed in their frame"); proper(own->getTransform(), "the frame of the measurement");
        if(ref.near || ref.gap < 1e-3) { c.label("ambiguous"); own->setTransform(up.inverse()*w0); return; }
        CHECK_EQ(a->getNumIterations(), ref.iter, "number of iterations"); CHECK_EQ(a->getPairs(), ref.pairs, "number of pairs"); CHECK_CLOSE(a->getMeanSquareError(), ref.mse, 1e-5, 1e-9, "mean square error"); if(!(std::isnan(ref.diff) && ref.iter == 0)) CHECK_CLOSE(a->getMeanSquareErrorDiff(), ref.diff, 1e-5, 1e-9, "change of the mean square error"); if(ref.iter && ref.pairs >= 3) { auto d = a->getPairsDistance(); CHECK_EQ(d.size(), ref.dist.size(), "number of distances"); for(size_t i = 0; i < d.size(); i++) CHECK_CLOSE(d[i], ref.dist[i], 1e-5, 1e-7, fmt("distance %zu", i)); }
        A3 e = ref.C*w0; CHECK((world(env, own).matrix() - e.matrix()).norm() < 1e-6*(1 + e.matrix().norm()), "the measurement is at\n" + mat(world(env, own).matrix()) + "\n instead of\n" + mat(e.matrix()) + "\n it was at\n" + mat(w0.matrix())); CHECK(env.getParent(own) && env.getParent(child) == own, "the tree of frames");
        if(search && ref.pairs >= 3) { Ref mid = trimmed(model, meas, total, p, (alpha + beta)/2, attrs); auto f = [](const Ref& r, double o) { return r.mse/pow(o, 3.0); }; if(!mid.near && mid.gap > 1e-3 && mid.pairs >= 3) CHECK(f(ref, ov) <= f(mid, (alpha + beta)/2)*(1 + 1e-6) + 1e-12, "an overlap the search has tried is better"); }
        if(ref.iter && (ref.iter > 1 || ref.pairs < meas.size()) && (ref.C.matrix() - A3::Identity().matrix()).norm() > 1e-3) c.nontrivial();
        if(c.boolean()) own->setTransform(eu::randomPose(c)); }
}
}
PROP(align, 3) { alignment<icp::TrimmedKD, icp::PointcloudAdapter>(c, false); }
PROP(alignNormals, 2) { alignment<icp::TrimmedKDEAN, icp::PointcloudEdgeAndNormalAdapter>(c, true); }
// small displacements of well separated points are undone at once
PROP(exact, 1) {
    eu::Quiet q; Environment env; FrameNode *fm = new FrameNode(eu::randomPose(c)), *fk = new FrameNode(eu::randomPose(c)); env.addChild(env.getRootNode(), fm); env.addChild(c.boolean() ? fm : env.getRootNode(), fk); Pointcloud *m = new Pointcloud(), *k = new Pointcloud(); env.setFrameNode(m, fm); env.setFrameNode(k, fk); std::set<std::array<int, 3>> used; size_t n = c.range(4, 30); Vs w; used.insert({0, 0, 0}); used.insert({1, 0, 0}); used.insert({0, 2, 0}); used.insert({0, 0, 3}); for(size_t i = 4; i < n; i++) used.insert({(int)c.draw(6), (int)c.draw(6), (int)c.draw(6)}); for(auto& u : used) w.push_back(V3(u[0], u[1], u[2]));
    A3 D = A3::Identity(); D.linear() = Eigen::AngleAxisd(0.04*(c.unit() - 0.5), V3::Unit(c.draw(3))).toRotationMatrix(); D.translation() = g3(c, 0.15); A3 a = world(env, fm).inverse(), b = world(env, fk).inverse(); for(auto& x : w) { m->vertices.push_back(a*x); k->vertices.push_back(b*(D*x)); } icp::TrimmedKD t; t.addToModel(icp::PointcloudAdapter(m, 1.0)); size_t it = c.range(1, 3); t.align(icp::PointcloudAdapter(k, 1.0), it, -1, -1, 1.0); c.nontrivial();
    A3 T = world(env, fk); for(size_t i = 0; i < w.size(); i++) CHECK((T*k->vertices[i] - w[i]).norm() < 1e-6, fmt("point %zu is at ", i) + vec(V3(T*k->vertices[i])) + " instead of " + vec(w[i])); if(it == 1) CHECK_EQ(t.getPairs(), w.size(), "pairs");
}
PROP(golden, 1) {
    double a = c.real(0.05, 1), w = c.real(0.1, 1), b = a + w, x0 = a + w*(c.chance(1, 6) ? (c.boolean() ? 0 : 1) : c.unit()), mid = c.boolean() ? (a + b)/2 : a + w*(0.1 + 0.8*c.unit()), eps = c.pick(std::vector<double>{0.1, 0.01, 1e-3}), s = c.real(0.1, 10); int k = c.draw(4), calls = 0; auto f = [&](double x) { calls++; double d = x - x0; switch(k) { case 0: return s*d*d; case 1: return s*fabs(d); case 2: return d < 0 ? -s*d : 3*s*d; default: return s*(d*d*d*d + d*d); } };
    c.note(fmt("function %d with its minimum at %g, from %g over %g to %g, accuracy %g", k, x0, a, mid, b, eps)); bool out = false; boost::function<double (double)> g = [&](double x) { if(x < a - 1e-9 || x > b + 1e-9) out = true; CHECK(calls < 1000, "the search does not end"); return f(x); }; double m = icp::GoldenBracket<double>::findMin(g, a, mid, b, eps); CHECK(!out, "the search left the interval"); if(x0 > a && x0 < b) c.nontrivial();
    // the bracket has shrunk to eps times the size of its points, and the minimum is within
    double tol = eps*2*b, worst = 0; worst = std::max(f(std::max(a, x0 - tol)), f(std::min(b, x0 + tol))); CHECK(m <= worst*(1 + 1e-9) + 1e-12, fmt("the minimum found is %.9g, but the function is at most %.9g within %g of its minimum", m, worst, tol));
}
PROP(ransac, 1) {
    eu::Quiet q; size_t n = c.range(4, 30), bad = c.size(0, n*3/10); A3 T = rot(c); Vs x, p; std::vector<float> xe, pe; std::vector<bool> good; double err = c.real(0.001, 0.05); for(size_t i = 0; i < n; i++) { p.push_back(g3(c, 5)); good.push_back(i >= bad); x.push_back(good[i] ? V3(T*p[i] + g3(c, err/20)) : V3(T*p[i] + g3(c, 20))); xe.push_back(c.real(0.1, 2)); pe.push_back(c.real(0.1, 2)); } for(size_t i = 0; i < n; i++) { size_t j = i + c.draw(n - i); std::swap(x[i], x[j]); std::swap(p[i], p[j]); bool g = good[i]; good[i] = good[j]; good[j] = g; }
    srand(c.draw(100000)); A3 t = A3::Identity(); ransac::vector_size_t in; c.note(fmt("%zu correspondences, %zu wrong", n, bad)); double th = err*c.range(1, 4); size_t kernel = c.range(3, 4);
    if(c.boolean()) { ransac::FitTransform f(x, p, err); CHECK_EQ(f.getSampleCount(), n, "number of samples"); if(!ransac::ransacSingleModel(f, kernel, th, t, in, 300)) { CHECK(bad > 0 || n < 6, "no model, though all correspondences fit"); c.label("none"); return; } proper(t, "the model"); std::set<size_t> got(in.begin(), in.end()); CHECK_EQ(got.size(), in.size(), "samples listed twice"); for(size_t i = 0; i < n; i++) { double d = (x[i] - t*p[i]).norm(); if(fabs(d - th) > 1e-9) CHECK_EQ((int)got.count(i), (int)(d < th), fmt("sample %zu, %g from its place", i, d)); } CHECK(in.size() >= kernel, "fewer samples than needed"); if(bad && in.size() >= n - bad) c.nontrivial(); }
    else { ransac::FitTransformUncertain f(x, p, xe, pe, err); for(size_t i = 0; i < n; i++) CHECK_CLOSE(f.testSample(i, T), (x[i] - T*p[i]).norm()/sqrt((double)xe[i]*xe[i] + (double)pe[i]*pe[i]), 1e-5, 1e-12, "normalised error"); ransac::vector_size_t ind; size_t k = c.draw(n + 1); ransac::pickRandomIndex(n, k, ind); std::set<size_t> s(ind.begin(), ind.end()); CHECK(ind.size() == k && s.size() == k && (s.empty() || *s.rbegin() < n), "random indices"); ransac::vector_size_t two(ind.begin(), ind.begin() + std::min<size_t>(2, k)); A3 none; CHECK(!f.fitModel(two, none), "a model of two samples"); }
}
