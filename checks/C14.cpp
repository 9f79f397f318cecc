//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 60000
//@ thorough: 2000000
// Relative transforms between frames and maps.
#include "envhist.hpp"
using namespace pbt; using namespace envire; using namespace eh;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Random forests of up to 14 frames (below the root and in orphan trees) with random poses, maps of both dimensions on random frames, re-parenting and pose changes in between. Oracle: products of 4x4 matrices along the paths computed by the check; group laws (identity, inverse, composition through a third frame); child to parent is the child's own transform; frames without a common root throw; points to and from maps; bounding boxes equal those of the transformed corners; clones of a map in another environment keep their global pose. Non-trivial: a query between two different frames with at least three transforms on the way."; }
namespace {
typedef Eigen::Matrix4d M4; bool near(const M4& a, const M4& b) { return (a - b).cwiseAbs().maxCoeff() <= 1e-9*(1 + std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff())); }
M4 up(FrameNode* f, int* n = 0) { M4 m = M4::Identity(); while(f->getParent()) { m = f->getTransform().matrix()*m; f = f->getParent(); if(n) ++*n; } return m; }
// numeric inverse of a rigid pose, written out
M4 inv(const M4& m) { M4 r = M4::Identity(); r.topLeftCorner<3,3>() = m.topLeftCorner<3,3>().transpose(); r.topRightCorner<3,1>() = -r.topLeftCorner<3,3>()*m.topRightCorner<3,1>(); return r; }
template<int D> void extents(Ctx& c, Map<D>* m, FrameNode* f, const Eigen::AlignedBox<double, D>& box) {
    Eigen::AlignedBox<double, D> e = m->getExtentsTransformed(*f); M4 t = inv(up(f))*up(m->getFrameNode()); Eigen::Matrix<double, D, 1> lo, hi; lo.setConstant(1e300); hi.setConstant(-1e300); for(int k = 0; k < (1 << D); k++) { Eigen::Vector4d p(0, 0, 0, 1); for(int j = 0; j < D; j++) p[j] = k >> j & 1 ? box.max()[j] : box.min()[j]; Eigen::Vector4d q = t*p; for(int j = 0; j < D; j++) { lo[j] = std::min(lo[j], q[j]); hi[j] = std::max(hi[j], q[j]); } }
    for(int j = 0; j < D; j++) { CHECK_CLOSE(e.min()[j], lo[j], 1e-9, 1e-8, fmt("lower bound %d of the transformed extents", j)); CHECK_CLOSE(e.max()[j], hi[j], 1e-9, 1e-8, fmt("upper bound %d of the transformed extents", j)); } }
}
PROP(transforms, 1) {
    eu::Quiet q; Environment env; std::vector<FrameNode*> fs{env.getRootNode()}; size_t n = c.size(1, 14); for(size_t i = 0; i < n; i++) { FrameNode* f = new FrameNode(); if(c.chance(1, 5)) f->setTransform(TransformWithUncertainty(eu::randomPose(c), eu::randomCov(c))); else f->setTransform(eu::randomPose(c)); if(c.chance(1, 6)) { env.attachItem(f); c.note(fmt("frame %zu orphan", fs.size())); } else { size_t k = c.chance(1, 2) ? fs.size() - 1 : c.draw(fs.size()); env.addChild(fs[k], f); c.note(fmt("frame %zu under %zu", fs.size(), k)); } fs.push_back(f); }
    auto idx = [&](FrameNode* f) { for(size_t i = 0; i < fs.size(); i++) if(fs[i] == f) return (int)i; return -1; };
    size_t changes = c.draw(4); for(size_t i = 0; i < changes; i++) { FrameNode* f = c.pick(fs); if(f == env.getRootNode()) continue; if(c.boolean()) f->setTransform(eu::randomPose(c)); else { FrameNode* p = c.pick(fs); if(!Hist::below(p, f)) { env.addChild(p, f); c.note(fmt("move %d under %d", idx(f), idx(p))); } } }
    if(c.chance(1, 8)) env.getRootNode()->setTransform(eu::randomPose(c)); // the root's own transform is on no path
    for(int k = 0; k < 4; k++) {
        FrameNode *a = c.pick(fs), *b = c.pick(fs), *d = c.pick(fs); c.note(fmt("query %d to %d (via %d)", idx(a), idx(b), idx(d))); if(a->getRoot() != b->getRoot()) { c.label("no common root"); CHECK_THROWS(env.relativeTransform(a, b), "frames without a common root"); CHECK_THROWS(env.relativeTransformWithUncertainty(a, b), "frames without a common root"); continue; }
        int len = 0; M4 exp = inv(up(b, &len))*up(a, &len); M4 got = env.relativeTransform(a, b).matrix(); CHECK(near(got, exp), fmt("relative transform\n%s\nexpected\n%s", mat(got).c_str(), mat(exp).c_str())); CHECK(near(a->relativeTransform(b).matrix(), exp), "relative transform asked at the frame"); CHECK(near(env.relativeTransformWithUncertainty(a, b).getTransform().matrix(), exp), "relative transform with uncertainty"); CHECK(near(env.relativeTransform(b, a).matrix()*got, M4::Identity()), "there and back is not the identity"); if(a != b && len >= 3) c.nontrivial();
        if(a == b) CHECK(got == M4(M4::Identity()), "from a frame to itself"); if(a->getParent()) CHECK(near(env.relativeTransform(a, a->getParent()).matrix(), a->getTransform().matrix()), "child to parent"); if(d->getRoot() == a->getRoot()) CHECK(near(env.relativeTransform(d, b).matrix()*env.relativeTransform(a, d).matrix(), got), "composition through a third frame");
    }
    // maps
    VpMap2* m2 = new VpMap2("m2"); VpMap3* m3 = new VpMap3("m3"); FrameNode *f2 = c.pick(fs), *f3 = c.pick(fs), *g = c.pick(fs); env.attachItem(m2, f2); env.attachItem(m3, f3); c.note(fmt("maps on %d and %d, other frame %d", idx(f2), idx(f3), idx(g))); for(int j = 0; j < 3; j++) { double x = c.signedReal(20), y = c.signedReal(20); if(x > y) std::swap(x, y); m3->ext.min()[j] = x; m3->ext.max()[j] = y; if(j < 2) { m2->ext.min()[j] = y - 1; m2->ext.max()[j] = y + (y - x); } }
    if(f2->getRoot() == f3->getRoot()) { M4 e = inv(up(f3))*up(f2); CHECK(near(env.relativeTransform(static_cast<CartesianMap*>(m2), static_cast<CartesianMap*>(m3)).matrix(), e), "relative transform of two maps"); CHECK(near(env.relativeTransformWithUncertainty(static_cast<CartesianMap*>(m2), static_cast<CartesianMap*>(m3)).getTransform().matrix(), e), "relative transform of two maps with uncertainty"); } else CHECK_THROWS(env.relativeTransform(static_cast<CartesianMap*>(m2), static_cast<CartesianMap*>(m3)), "maps without a common root");
    Eigen::Vector3d p(c.signedReal(10), c.signedReal(10), c.signedReal(10)); Eigen::Vector4d ph(p.x(), p.y(), p.z(), 1); auto close = [](const Eigen::Vector3d& a, const Eigen::Vector4d& b) { return (a - b.head<3>()).norm() < 1e-8*(1 + b.norm()); };
    CHECK(close(m3->fromMap(p), up(f3)*ph), "a point from a map to its root"); CHECK(close(m3->toMap(p), inv(up(f3))*ph), "a point from the root to a map"); if(g->getRoot() == f3->getRoot()) { CHECK(close(m3->fromMap(p, *g), inv(up(g))*up(f3)*ph), "a point from a map to a frame"); CHECK(close(m3->toMap(p, *g), inv(up(f3))*up(g)*ph), "a point from a frame to a map"); extents<3>(c, m3, g, m3->ext); } if(g->getRoot() == f2->getRoot()) extents<2>(c, m2, g, m2->ext);
    if(f3->getRoot() == env.getRootNode() && c.boolean()) { Environment o; if(c.boolean()) o.attachItem(new FrameNode()); m3->content.text = c.ident(); m3->cloneTo(o); auto v = o.getItems<VpMap3>(); CHECK_EQ(v.size(), (size_t)1, "maps in the target of a clone"); CHECK(v[0]->content.same(m3->content), "content of the clone"); CHECK(v[0]->getFrameNode() && v[0]->getFrameNode()->getRoot() == o.getRootNode(), "the clone is not connected to the root"); CHECK(near(up(v[0]->getFrameNode()), up(f3)), "global pose of the clone"); c.label("clone"); FrameNode *x = f3, *y = v[0]->getFrameNode(); while(x->getParent()) { CHECK(y->getParent() && near(x->getTransform().matrix(), y->getTransform().matrix()), "frames of the clone"); CHECK(x != y, "the clone shares a frame"); x = x->getParent(); y = y->getParent(); } CHECK(!y->getParent(), "frames of the clone"); }
}
