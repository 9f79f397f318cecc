//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/maps/MLSMap.cpp src/maps/MapSegment.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 150000
//@ thorough: 3000000
// Collections of maps: MLSMap (grids placed relative to each other) and MapSegment (weighted map hypotheses).
#include "mlsutil.hpp"
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/MapSegment.hpp>
using namespace mu;
namespace envire { ENVIRONMENT_ITEM_DEF(VpLayer) ENVIRONMENT_ITEM_DEF(VpMap2) ENVIRONMENT_ITEM_DEF(VpMap3) ENVIRONMENT_ITEM_DEF(VpOp) }
namespace pbt { const char* RULE = "MLS maps of up to five grids at arbitrary horizontal poses and heights, in a map frame of their own, through histories of up to 20 operations (look up, move a grid, add measurements, add, create and select grids, take the newest grid out, assign, clone). Every look up is compared with a search of the grids from the newest to the oldest with the current frames. Map segments of up to six two and three dimensional maps with arbitrary weights and poses. Non-trivial: two grids (parts) and at least one look up that finds something or an operation that changes the frames."; }
namespace {
Eigen::Affine3d yaw(Ctx& c, double mag, bool rot) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); if(rot && c.boolean()) t.linear() = Eigen::AngleAxisd(c.signedReal(M_PI), Eigen::Vector3d::UnitZ()).toRotationMatrix(); t.translation() = Eigen::Vector3d(c.signedReal(mag), c.signedReal(mag), c.signedReal(1)); return t; }
void fillGrid(Ctx& c, MLSGrid& g, size_t n) { for(size_t i = 0; i < n; i++) g.insertHead(c.draw(g.getCellSizeX()), c.draw(g.getCellSizeY()), patch(c, MLSConfiguration::KALMAN, 2, true)); }
Eigen::Affine3d toWorld(const FrameNode* f) { Eigen::Affine3d t = Eigen::Affine3d::Identity(); for(; f && f->getParent(); f = f->getParent()) t = Eigen::Affine3d(f->getTransform())*t; return t; }
Eigen::Affine3d rel(const FrameNode* a, const FrameNode* b) { return toWorld(b).inverse()*toWorld(a); }
bool in(const std::vector<MLSGrid::Ptr>& v, const MLSGrid* g) { for(auto& p : v) if(p.get() == g) return true; return false; }
bool child(Environment& e, Layer* m, const MLSGrid* g) { for(Layer* l : e.getChildren(m)) if(l == g) return true; return false; }
// the patch of the newest grid that matches
bool lookup(Ctx& c, MLSMap& m) {
    bool near = c.boolean() && !m.getGrids().empty(); Eigen::Vector3d p(c.signedReal(3), c.signedReal(3), 0); P probe(c.signedReal(3), c.real(0.02, 0.5)); double k = c.real(0.3, 4); if(near) { MLSGrid* g = m.getGrids()[c.draw(m.getGrids().size())].get(); Eigen::Affine3d t = rel(g->getFrameNode(), m.getFrameNode()); p = t*(g->fromGrid(c.draw(g->getCellSizeX()), c.draw(g->getCellSizeY())) + Eigen::Vector3d(c.signedReal(0.3*g->getScaleX()), 0, 0)); p.z() = 0; }
    std::string w = fmt("patch at %g %g height %g stdev %g within %g sigma: ", p.x(), p.y(), probe.mean, probe.stdev, k); std::vector<P> exp; bool unsure = false;
    for(size_t i = m.getGrids().size(); i-- > 0 && exp.empty();) { MLSGrid* g = m.getGrids()[i].get(); Eigen::Affine3d t = rel(m.getFrameNode(), g->getFrameNode()); Eigen::Vector3d q = t*p; double u = (q.x() - g->getOffsetX())/g->getScaleX(), v = (q.y() - g->getOffsetY())/g->getScaleY(); if(std::fabs(u - std::round(u)) < 1e-6 || std::fabs(v - std::round(v)) < 1e-6) unsure = true; if(u < 0 || v < 0 || u >= g->getCellSizeX() || v >= g->getCellSizeY()) continue; P pr(probe); double dz = t.translation().z(); pr.mean += dz; for(auto& s : cell((const MLSGrid&)*g, u, v)) { double lim = std::sqrt((double)s.stdev*s.stdev + (double)pr.stdev*pr.stdev)*k, d = s.distance(pr); if(std::fabs(d - lim) < 1e-4) unsure = true; if(d < lim && !s.isNegative()) { P r(s); r.mean -= dz; exp.push_back(r); } } }
    if(unsure) return false; P r(probe); bool ok = m.getPatch(p, r, k); c.note(w + (ok ? show(r) : "none")); CHECK_EQ(ok, !exp.empty(), w + "whether a patch is found"); if(!ok) { CHECK(same(r, probe), w + "the probe was changed"); return false; } for(auto& e : exp) if(std::fabs(e.mean - r.mean) < 1e-4 && e.height == r.height && e.stdev == r.stdev && e.update_idx == r.update_idx) return true; FAIL(w + "found " + show(r) + "\n instead of " + show(exp[0])); }
void extents(MLSMap& m, const std::vector<MLSGrid*>& gs) { Eigen::AlignedBox<double, 2> e; for(auto g : gs) { Eigen::Affine3d t = rel(g->getFrameNode(), m.getFrameNode()); if((t.linear() - Eigen::Matrix3d::Identity()).norm() > 1e-9) return; auto x = g->getExtents(); Eigen::Vector2d d = t.translation().head<2>(); e.extend(Eigen::AlignedBox<double, 2>(x.min() + d, x.max() + d)); } auto r = m.getExtents(); if(gs.empty()) CHECK(r.isEmpty(), "extents of a map without grids"); else CHECK((r.min() - e.min()).norm() < 1e-9 && (r.max() - e.max()).norm() < 1e-9, "extents of the map are not those of its grids: " + vec(Eigen::Vector2d(r.min())) + vec(Eigen::Vector2d(r.max())) + " instead of " + vec(Eigen::Vector2d(e.min())) + vec(Eigen::Vector2d(e.max()))); }
}
PROP(mlsmap, 4) {
    eu::Quiet q; Environment env; bool rot = c.boolean(); FrameNode* root = env.getRootNode(); FrameNode* mf = new FrameNode(yaw(c, 3, rot)); env.addChild(root, mf); MLSMap::Ptr m(new MLSMap()); env.setFrameNode(m.get(), mf); m->setLabel("name of the map"); std::vector<MLSGrid*> gs; bool nt = false;
    auto fresh = [&] { MLSGrid* g = new MLSGrid(c.range(1, 6), c.range(1, 6), 0.5, 0.5, c.boolean() ? 0 : -1.5, c.boolean() ? 0 : -1.5); g->getConfig().gapSize = c.real(0.1, 1); FrameNode* f = new FrameNode(yaw(c, 2, rot)); env.addChild(c.boolean() ? root : mf, f); env.setFrameNode(g, f); fillGrid(c, *g, c.range(0, 15)); return g; };
    size_t n = c.range(1, 20); for(size_t i = 0; i < n; i++) switch(c.weighted({8, 3, 2, 2, 3, 3, 1, 1, 2})) {
        case 0: if(lookup(c, *m) && gs.size() > 1) nt = true; break;
        case 1: { if(gs.size() >= 5) break; MLSGrid* g = fresh(); c.note("add a grid"); m->addGrid(g); gs.push_back(g); CHECK(m->getActiveGrid().get() == g, "the added grid is not the active one"); break; }
        case 2: { if(gs.empty()) break; c.note("add patches"); fillGrid(c, *gs[c.draw(gs.size())], 5); break; }
        case 3: { if(gs.empty()) break; size_t k = c.draw(gs.size()); Eigen::Affine3d t = yaw(c, 2, rot); c.note(fmt("move grid %zu", k)); gs[k]->getFrameNode()->setTransform(t); if(gs.size() > 1) nt = true; break; }
        case 4: { if(gs.size() >= 5) break; bool al = c.boolean(), rl = al || c.boolean(); Eigen::Affine3d t = yaw(c, 2, rot); MLSGrid* act = m->getActiveGrid().get(); c.note(fmt("create a grid, relative %d aligned %d\n", rl, al) + mat(t.matrix())); m->createGrid(t, rl, al); if(!act) { CHECK(m->getGrids().empty() && !m->getActiveGrid(), "a grid was created without a template"); break; } MLSGrid* g = m->getActiveGrid().get(); CHECK(g != act && m->getGrids().size() == gs.size() + 1 && m->getGrids().back().get() == g, "no grid was created"); gs.push_back(g); CHECK(child(env, m.get(), g) && g->isAttached(), "the new grid is not a child of the map"); CHECK(g->empty() && g->getCellSizeX() == act->getCellSizeX() && g->getCellSizeY() == act->getCellSizeY() && g->getScaleX() == act->getScaleX() && g->getOffsetX() == act->getOffsetX() && g->getOffsetY() == act->getOffsetY() && g->getConfig().gapSize == act->getConfig().gapSize, "the new grid does not have the properties of the template"); Eigen::Affine3d r = rel(g->getFrameNode(), rl ? act->getFrameNode() : m->getFrameNode()), e = t; if(al) { e.linear().setIdentity(); for(int a = 0; a < 2; a++) { double s = 0.5, u = r.translation()[a]/s, d = t.translation()[a] - r.translation()[a]; CHECK(std::fabs(u - std::round(u)) < 1e-6, "the new grid is not aligned to the cells of the active one"); CHECK(std::fabs(d) < s + 1e-6, "the aligned grid is more than a cell away from the position asked for"); e.translation()[a] = r.translation()[a]; } } CHECK((r.matrix() - e.matrix()).norm() < 1e-6, "position of the new grid\n" + mat(r.matrix()) + "\n instead of\n" + mat(e.matrix())); nt = true; fillGrid(c, *g, c.range(0, 8)); break; }
        case 5: { if(gs.empty()) break; FrameNode* f = new FrameNode(yaw(c, 4, rot)); env.addChild(c.boolean() ? root : mf, f); double th = c.real(0.3, 4); MLSGrid* best = 0; double bd = th; bool unsure = false; for(auto g : gs) { Eigen::Vector3d t = rel(f, g->getFrameNode()).translation(); double d = std::max(std::fabs(t.x()), std::fabs(t.y())); if(std::fabs(d - bd) < 1e-6) unsure = true; if(d < bd) { bd = d; best = g; } } if(unsure || (!best && gs.size() >= 5)) break; MLSGrid* act = m->getActiveGrid().get(); bool al = c.boolean(); c.note(fmt("select the active grid within %g, aligned %d: %s", th, al, best ? "a present one" : "a new one")); m->selectActiveGrid(f, th, al); MLSGrid* g = m->getActiveGrid().get(); if(best) { CHECK(g == best, "the nearest grid within the threshold is not the active one"); CHECK_EQ(m->getGrids().size(), gs.size(), "number of grids"); c.label("selected"); } else { CHECK(!std::count(gs.begin(), gs.end(), g) && m->getGrids().size() == gs.size() + 1, "no grid was created"); gs.push_back(g); Eigen::Affine3d r = rel(g->getFrameNode(), act->getFrameNode()), t = rel(f, act->getFrameNode()); Eigen::Vector3d d = rel(f, act->getFrameNode()).translation() - r.translation(); CHECK(std::fabs(d.x()) <= 0.5 + 1e-6 && std::fabs(d.y()) <= 0.5 + 1e-6, "the grid created is not at the frame"); if(al) CHECK((r.linear() - Eigen::Matrix3d::Identity()).norm() < 1e-9, "the aligned grid is rotated"); else CHECK((r.matrix() - t.matrix()).norm() < 1e-6, "the grid created without alignment is not at the frame"); c.label("created"); nt = true; } break; }
        case 6: { if(gs.empty() || m->getActiveGrid().get() == gs.back()) break; c.note("take the newest grid out"); env.removeChild(m.get(), gs.back()); env.detachItem(gs.back()); m->getGrids().pop_back(); gs.pop_back(); nt = true; break; }
        case 7: { c.note("assign to another map"); MLSMap::Ptr o(new MLSMap()); bool att = c.boolean(); if(att) { env.setFrameNode(o.get(), mf); if(c.boolean() && gs.size() < 5) { MLSGrid* x = fresh(); o->addGrid(x); } } *o = *m; CHECK(o->getActiveGrid().get() == m->getActiveGrid().get() && o->getGrids().size() == gs.size(), "grids of the assigned map"); if(att) { auto ch = env.getChildren(o.get()); CHECK_EQ(ch.size(), gs.size(), "children of the assigned map"); for(auto g : gs) CHECK(child(env, o.get(), g), "a grid is not a child of the assigned map"); for(auto g : gs) env.removeChild(o.get(), g); env.detachItem(o.get()); } break; }
        default: { if(gs.empty()) break; c.note("clone"); MLSGrid* act = m->getActiveGrid().get(); Content before = content(*act); MLSMap::Ptr o(m->cloneDeep()); MLSGrid* a = o->getActiveGrid().get(); CHECK(o->isAttached() && a->isAttached() && a != act, "the clone shares the active grid"); cmp(content(*a), before, a->getCellSizeY(), "active grid of the clone"); CHECK_EQ(o->getLabel(), m->getLabel(), "label of the clone"); CHECK_EQ(o->getGrids().size(), gs.size(), "grids of the clone"); for(size_t k = 0; k < gs.size(); k++) CHECK(o->getGrids()[k].get() == (gs[k] == act ? a : gs[k]), "grid of the clone"); for(auto& g : o->getGrids()) CHECK(child(env, o.get(), g.get()), "a grid is not a child of the clone"); CHECK((rel(a->getFrameNode(), act->getFrameNode()).matrix() - Eigen::Matrix4d::Identity()).norm() < 1e-9, "frame of the cloned grid"); CHECK((rel(o->getFrameNode(), mf).matrix() - Eigen::Matrix4d::Identity()).norm() < 1e-9, "the clone is not at the place of the map"); lookup(c, *o); a->clear(); cmp(content(*act), before, act->getCellSizeY(), "active grid after the clone was changed"); for(auto g : gs) CHECK(child(env, m.get(), g), "the map lost a grid to its clone"); CHECK(m->getActiveGrid().get() == act, "active grid of the map"); nt = true; for(auto g : o->getGrids()) env.removeChild(o.get(), g.get()); o->getGrids().clear(); env.detachItem(o.get()); break; } }
    CHECK_EQ(m->getGrids().size(), gs.size(), "number of grids"); for(size_t i = 0; i < gs.size(); i++) { CHECK(m->getGrids()[i].get() == gs[i], "grids of the map"); CHECK(child(env, m.get(), gs[i]), "a grid is not a child of the map"); } extents(*m, gs); if(gs.size() >= 2 && nt) c.nontrivial();
}
PROP(segment, 2) {
    eu::Quiet q; Environment env; FrameNode* sf = new FrameNode(yaw(c, 3, false)); env.addChild(env.getRootNode(), sf); MapSegment::Ptr s(new MapSegment()); env.setFrameNode(s.get(), sf); size_t n = c.range(0, 6); struct Part { CartesianMap* m; Eigen::Affine3d pose; double w; Eigen::Matrix<double,6,1> v; }; std::vector<Part> ps; Eigen::AlignedBox<double, 3> ext; double zv = 0, sw = 0; bool traj = c.boolean();
    CHECK(s->getBestMap() == 0, "best map of an empty segment"); CHECK_THROWS(s->getTransform(), "the transform of a segment that was never updated");
    for(size_t i = 0; i < n; i++) { Part p; FrameNode* f = new FrameNode(yaw(c, 5, false)); env.addChild(c.boolean() ? sf : env.getRootNode(), f); Eigen::Vector3d d = (toWorld(sf).inverse()*toWorld(f)).translation(); if(c.boolean()) { VpMap3* m = new VpMap3(); env.setFrameNode(m, f); Eigen::Vector3d a(c.signedReal(2), c.signedReal(2), c.signedReal(2)), b = a + Eigen::Vector3d(c.real(0, 2), c.real(0, 2), c.real(0, 2)); m->ext = VpMap3::Extents(a, b); p.m = m; ext.extend(a + d); ext.extend(b + d); } else { VpMap2* m = new VpMap2(); env.setFrameNode(m, f); Eigen::Vector2d a(c.signedReal(2), c.signedReal(2)), b = a + Eigen::Vector2d(c.real(0, 2), c.real(0, 2)); m->ext = VpMap2::Extents(a, b); p.m = m; ext.extend(Eigen::Vector3d(a.x(), a.y(), 0) + d); ext.extend(Eigen::Vector3d(b.x(), b.y(), 0) + d); }
        p.pose = Eigen::Affine3d(Eigen::Translation3d(c.signedReal(5), c.signedReal(5), c.signedReal(1))*Eigen::AngleAxisd(c.signedReal(0.5), Eigen::Vector3d::UnitZ())); p.w = c.real(0.05, 1); Eigen::AngleAxisd aa(p.pose.linear()); p.v.head<3>() = aa.axis()*aa.angle(); p.v.tail<3>() = p.pose.translation(); double z = c.real(0, 0.2); s->addPart(base::Affine3d(p.pose), p.m, p.w, z); zv += p.w*z; sw += p.w; ps.push_back(p); if(traj) s->trajectories.push_back(std::vector<base::Vector3d>(c.draw(5))); c.note(fmt("part of weight %g at ", p.w) + vec(p.v)); }
    if(n >= 2) c.nontrivial(); if(!n) { Eigen::Affine3d mp; size_t ts = 0; CHECK(!s->getMapForPose(base::Affine3d(Eigen::Affine3d::Identity()), (base::Affine3d&)mp, ts), "a map of an empty segment"); CHECK(s->getExtents().isEmpty(), "extents of an empty segment"); return; }
    size_t b = 0; for(size_t i = 1; i < n; i++) if(ps[i].w > ps[b].w) b = i; CHECK(s->getBestMap(), "best map"); bool okb = false; for(auto& p : ps) okb = okb || (p.m == s->getBestMap() && p.w == ps[b].w); CHECK(okb, "the best map is not one of the largest weight");
    for(int r = 0; r < 3; r++) { Eigen::Affine3d q = c.boolean() ? ps[c.draw(n)].pose : ps[0].pose; q.translation() += Eigen::Vector3d(c.signedReal(2), c.signedReal(2), 0); Eigen::Matrix<double,6,1> v; Eigen::AngleAxisd aa(q.linear()); v.head<3>() = aa.axis()*aa.angle(); v.tail<3>() = q.translation(); std::vector<double> d; for(auto& p : ps) d.push_back((p.v - v).norm()); double best = *std::min_element(d.begin(), d.end()); base::Affine3d mp; size_t ts = 77; CartesianMap* m = s->getMapForPose(base::Affine3d(q), mp, ts); bool ok = false; for(size_t i = 0; i < n; i++) if(ps[i].m == m && d[i] < best + 1e-6) { ok = (Eigen::Matrix4d(mp.matrix()) - ps[i].pose.matrix()).norm() < 1e-6 && ts == (traj ? s->trajectories[i].size() : 77); if(ok) break; } CHECK(ok, "the map for a pose is not the closest one with its pose and trajectory"); }
    auto e = s->getExtents(); CHECK((e.min() - ext.min()).norm() < 1e-9 && (e.max() - ext.max()).norm() < 1e-9, "extents of the segment are not those of its maps: " + vec(Eigen::Vector3d(e.min())) + vec(Eigen::Vector3d(e.max())) + " instead of " + vec(Eigen::Vector3d(ext.min())) + vec(Eigen::Vector3d(ext.max())));
    s->update(); TransformWithUncertainty t = s->getTransform(); Eigen::Matrix<double,6,1> mean = Eigen::Matrix<double,6,1>::Zero(); for(auto& p : ps) mean += p.w/sw*p.v; Eigen::Matrix<double,6,6> cov = Eigen::Matrix<double,6,6>::Zero(); for(auto& p : ps) cov += p.w/sw*(p.v - mean)*(p.v - mean).transpose(); double a1 = std::pow(M_PI/180, 2); cov(0, 0) += a1; cov(1, 1) += a1; cov(5, 5) += zv/sw; Eigen::Affine3d et = Eigen::Affine3d::Identity(); if(mean.head<3>().norm() > 1e-12) et.linear() = Eigen::AngleAxisd(mean.head<3>().norm(), mean.head<3>().normalized()).toRotationMatrix(); et.translation() = mean.tail<3>(); CHECK((Eigen::Matrix4d(t.getTransform().matrix()) - et.matrix()).norm() < 1e-6, "mean pose of the segment"); CHECK((t.getCovariance() - cov).norm() < 1e-6*std::max(1.0, cov.norm()), "covariance of the segment's pose\n" + mat(t.getCovariance()) + "\n instead of\n" + mat(cov));
    if(c.boolean()) { s->update(); CHECK((s->getTransform().getCovariance() - cov).norm() < 1e-6*std::max(1.0, cov.norm()), "covariance after another update"); }
}
