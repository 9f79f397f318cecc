//@ sources: src/core/*.cpp src/maps/Pointcloud.cpp src/maps/TriMesh.cpp src/tools/PlyFile.cpp icp/icp.cpp icp/stability.cpp icp/icpLocalization.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 30000
//@ thorough: 1500000
// ICP localisation: collecting scans, scan matching, and the statistics about the stability of its results.
#include "envutil.hpp"
#include <envire_icp/icpLocalization.hpp>
#include <envire_icp/stability.hpp>
#include <boost/filesystem.hpp>
#include <memory>
using namespace pbt; using namespace envire; using namespace envire::icp; typedef Eigen::Vector3d V3; typedef Eigen::Affine3d A3; typedef Eigen::Matrix3d M3;
namespace pbt { const char* RULE = "Sets of up to 30 poses about a place and a yaw anywhere on the circle, with up to five outliers, clustered with and without removal; covariances with and without variance in each direction as regions for samples; sorted distances in and outside of the range of a histogram; histories of laser scans offered to the localisation while body and laser move by less or more than the thresholds, and scan matches of the point clouds made of them against a saved scene. Non-trivial: clusters of three or more poses with outliers or a yaw near the end of the circle, covariances without variance in a direction or with correlations, histograms with points in three bins, histories with scans that are taken and scans that are not, matches with pairs."; }
namespace {
double wrap(double a) { return remainder(a, 2*M_PI); }
V3 v3(Ctx& c, double m) { return V3(c.signedReal(m), c.signedReal(m), c.signedReal(m)); }
V3 g3(Ctx& c, double m) { return V3((c.unit() - 0.5)*2*m, (c.unit() - 0.5)*2*m, (c.unit() - 0.5)*2*m); }
A3 pose(const V3& t, double yaw) { A3 a = A3::Identity(); a.linear() = Eigen::AngleAxisd(yaw, V3::UnitZ()).toRotationMatrix(); a.translation() = t; return a; }
double yawOf(const A3& a) { return atan2(a.linear()(1, 0), a.linear()(0, 0)); }
struct Stat { V3 m; double yaw; V3 var; double vy; };
// offsets of the yaw are known, so that there is no question about the circle
struct P4 { V3 t; double dy; };
Stat stat(const std::vector<P4>& v) { Stat s; s.m = V3::Zero(); s.yaw = 0; for(auto& p : v) { s.m += p.t; s.yaw += p.dy; } s.m /= v.size(); s.yaw /= v.size(); s.var = V3::Zero(); s.vy = 0; for(auto& p : v) { V3 d = p.t - s.m; s.var += V3(d.array().square()); s.vy += (p.dy - s.yaw)*(p.dy - s.yaw); } s.var /= v.size(); s.vy /= v.size(); return s; }
}
PROP(cluster, 3) {
    eu::Quiet q; ClusteringConfiguration cf; cf.min_number_of_points = c.range(1, 5); cf.remove_outliers = c.chance(2, 3); auto lim = [&](SigmaPointConfiguration& k) { k.min_norm = c.real(0.01, 0.5); k.max_norm = k.min_norm + c.real(0.01, 2); k.n_sigma = c.range(1, 3); }; lim(cf.outliers_position); lim(cf.outliers_orientation); Clustering cl(cf); V3 cp, co; for(int i = 0; i < 3; i++) { cp[i] = c.real(0.001, 1); co[i] = c.real(0.001, 1); } cl.defOutlinerRegion(cp.asDiagonal(), co.asDiagonal());
    auto limit = [](V3 cov, const SigmaPointConfiguration& k) { V3 r; for(int i = 0; i < 3; i++) { double s = k.n_sigma*sqrt(cov[i]); s = std::min(std::max(s, k.min_norm), k.max_norm); r[i] = s*s; } return r; }; V3 lp = limit(cp, cf.outliers_position), lo = limit(co, cf.outliers_orientation);
    size_t rounds = c.size(1, 2); for(size_t r = 0; r < rounds; r++) { std::vector<P4> v; size_t n = c.size(0, 30), out = 0; V3 m = v3(c, 10); double y0 = c.chance(1, 2) ? c.signedReal(M_PI) : c.chance(1, 2) ? M_PI - 0.05 : 0, sp = c.real(0.01, 1), sy = c.real(0.01, 0.5); for(size_t i = 0; i < n; i++) { P4 p{m + g3(c, sp), (c.unit() - 0.5)*2*sy}; if(out < 5 && c.chance(1, 6)) { out++; if(c.boolean()) p.t = c.boolean() ? V3(2*V3::Zero() - p.t) : V3(m + g3(c, 10)); else p.dy = (c.unit() - 0.5)*2; } v.push_back(p); c.note(vec(p.t) + fmt(" yaw %.9g", wrap(y0 + p.dy))); }
        std::vector<A3> in; for(auto& p : v) in.push_back(pose(p.t, y0 + p.dy)); c.note(fmt("at least %u points, remove %d, limits %g %g", cf.min_number_of_points, (int)cf.remove_outliers, lp.norm(), lo[2])); bool ok = cl.cluster(in), e = n >= cf.min_number_of_points; Stat s; if(n) s = stat(v);
        if(e && cf.remove_outliers) { e = false; while(v.size() >= cf.min_number_of_points && !v.empty()) { s = stat(v); if(fabs(s.var.norm() - lp.norm()) < 1e-9 || fabs(s.vy - lo[2]) < 1e-9) { c.label("near"); return; } int far = -1; double d = 0; if(s.var.norm() > lp.norm()) { for(size_t i = 0; i < v.size(); i++) { double x = (v[i].t - s.m).norm(); if(fabs(x - d) < 1e-9 && far >= 0) { c.label("near"); return; } if(x > d) { d = x; far = i; } } } else if(s.vy > lo[2]) for(size_t i = 0; i < v.size(); i++) { double x = fabs(v[i].dy - s.yaw); if(fabs(x - d) < 1e-9 && far >= 0) { c.label("near"); return; } if(x > d) { d = x; far = i; } } if(far < 0) { e = true; break; } v.erase(v.begin() + far); } }
        CHECK_EQ(ok, e, "whether there is a cluster"); CHECK_EQ(cl.getSizePoints(), v.size(), "number of points in the cluster"); auto got = cl.getPoints(); for(size_t i = 0; i < v.size(); i++) CHECK((got[i].matrix() - pose(v[i].t, y0 + v[i].dy).matrix()).norm() < 1e-9, fmt("point %zu of the cluster", i)); if(!ok) continue;
        A3 g = cl.getMean(); CHECK((g.translation() - s.m).norm() < 1e-9*(1 + s.m.norm()), "mean position " + vec(V3(g.translation())) + " instead of " + vec(s.m)); CHECK(fabs(wrap(yawOf(g) - y0 - s.yaw)) < 1e-9, fmt("mean yaw %.9g instead of %.9g", yawOf(g), wrap(y0 + s.yaw))); M3 T = cl.getTranslationCovariance(), R = cl.getRotationCovariance(), D = M3::Zero(); D(2, 2) = s.vy; CHECK((T - M3(s.var.asDiagonal())).norm() < 1e-9*(1 + s.var.norm()), "variance of the position\n" + mat(T) + "\n instead of " + vec(s.var)); CHECK((R - D).norm() < 1e-9, fmt("variance of the yaw %.9g instead of %.9g", R(2, 2), s.vy)); if(n > 2 && (out || fabs(y0) > 3 || fabs(y0) < 0.3)) c.nontrivial(); }
}
PROP(samples, 2) {
    eu::Quiet q; SamplingConfiguration cf; auto lim = [&](SigmaPointConfiguration& k) { k.min_norm = c.chance(1, 3) ? 0 : c.real(0.01, 0.5); k.max_norm = k.min_norm + c.real(0.01, 3); k.n_sigma = c.range(1, 3); }; lim(cf.region_sample_position); lim(cf.region_sample_orientation); Sampling s(cf); size_t rounds = c.size(1, 2);
    for(size_t r = 0; r < rounds; r++) { auto cov = [&] { M3 L = M3::Zero(); int corr = c.draw(2); unsigned none = c.chance(1, 2) ? c.draw(8) : 0; for(int i = 0; i < 3; i++) for(int j = 0; j <= i; j++) if(!(none & 1u << j)) L(i, j) = i == j ? c.real(0.05, 1) : corr ? c.signedReal(0.5) : 0; if(none || corr) c.nontrivial(); return L; }; M3 L[2] = {cov(), cov()}; M3 P = L[0]*L[0].transpose(), O = L[1]*L[1].transpose(); s.defSearchRegion(P, O); M3 S[2] = {s.getSigmaPointsOfSamplingRegionTranslation(), s.getSigmaPointsOfSamplingRegionRotation()};
        for(int k = 0; k < 2; k++) { auto& f = k ? cf.region_sample_orientation : cf.region_sample_position; for(int j = 0; j < 3; j++) { V3 e = f.n_sigma*L[k].col(j), g = S[k].col(j); if(fabs(e.norm() - f.min_norm) < 1e-5 || fabs(e.norm() - f.max_norm) < 1e-5) continue; if(e.norm() < f.min_norm) e = V3::Unit(j)*f.min_norm; else if(e.norm() > f.max_norm) e = V3::Unit(j)*f.max_norm; CHECK((e - g).norm() < 1e-5, fmt("sigma point %d is ", j) + vec(g) + " instead of " + vec(e) + " for\n" + mat(k ? O : P)); } }
        double ym = S[1].col(2).norm(); size_t draws = c.size(1, 6); M3 A = S[0]; for(size_t i = 0; i < draws; i++) { A3 o = s.getUniformOffset(); double y = yawOf(o); CHECK((o.matrix() - pose(o.translation(), y).matrix()).norm() < 1e-9, "an offset is a move and a turn about z"); CHECK(o.translation()[2] == 0, "height of an offset"); if(ym < M_PI) CHECK(fabs(y) <= ym*(1 + 1e-9), "yaw of an offset"); for(int a = 0; a < 2; a++) { double m = A.row(a).cwiseAbs().sum(); CHECK(fabs(o.translation()[a]) <= m*(1 + 1e-9), "an offset outside of the region"); } }
        size_t want = c.size(1, 9); bool over = false; std::vector<A3> ex; ex.push_back(A3::Identity()); for(int sg = 1; sg >= -1; sg -= 2) { for(int k = 0; k < 2; k++) ex.push_back(pose(sg*S[0].col(k), 0)); ex.push_back(pose(V3::Zero(), sg*ym)); } for(size_t i = 0; i < want; i++) { A3 o = s.getSigmaOffset(); over = i >= ex.size(); CHECK((o.matrix() - (over ? A3::Identity() : ex[i]).matrix()).norm() < 1e-9, fmt("sigma sample %zu is\n", i) + mat(o.matrix())); } }
}
PROP(histogram, 1) {
    eu::Quiet q; HistogramConfiguration cf; cf.number_bins = c.range(7, 12); cf.area = c.real(0.5, 6); cf.normalization = true; cf.outliners = true; cf.mean = c.signedReal(1); cf.sigma = c.real(0.1, 2); Histogram h(cf); size_t rounds = c.size(1, 2); for(size_t r = 0; r < rounds; r++) { size_t n = c.size(1, 40); std::vector<double> d; double w = c.real(0.2, 3); for(size_t i = 0; i < n; i++) d.push_back(cf.mean + cf.sigma*(c.unit() - 0.5)*w*cf.area); std::sort(d.begin(), d.end()); for(double x : d) c.note(fmt("%.9g", (x - cf.mean)/cf.sigma)); h.calculateHistogram(d); auto f = h.getHistogram(), l = h.getHistogramLimits(); size_t b = cf.number_bins; CHECK_EQ(f.size(), b + 2, "number of bins"); CHECK_EQ(l.size(), b + 3, "number of limits"); for(size_t i = 0; i <= b; i++) CHECK_CLOSE(l[i + 1], -cf.area/2 + i*cf.area/b, 1e-9, 1e-9, fmt("limit of bin %zu", i)); CHECK(l[0] < l[1] && l[b + 2] > l[b + 1], "bins for outliers without width");
        double sum = 0; size_t used = 0; std::vector<double> z; for(double x : d) z.push_back((x - cf.mean)/cf.sigma); for(size_t i = 0; i < b + 2; i++) { size_t k = 0; bool near = false; for(double x : z) { if(fabs(x - l[i]) < 1e-9 || fabs(x - l[i + 1]) < 1e-9) near = true; if((i == 0 || x >= l[i]) && (i == b + 1 || x < l[i + 1])) k++; } sum += f[i]*(l[i + 1] - l[i]); used += k > 0; if(!near) CHECK_CLOSE(f[i], k/(n*(l[i + 1] - l[i])), 1e-9, 1e-12, fmt("density of bin %zu of %zu with %zu of %zu points", i, b + 2, k, n)); } CHECK_CLOSE(sum, 1, 1e-9, 0, "the densities do not sum up to one"); if(used > 2) c.nontrivial();
        double s = 8.25721077416*f[2] + 7.27432450174*f[3] + 0.901085498402*f[4] + 1.7194718866*f[5] - 5.12025789975*f[6] - 5.57942365201*f[7] - 3.69004685039*f[8] - 2.61875927499*0.13068 - 6.33104159879; CHECK_CLOSE(h.getSVMValue(), s, 1e-9, 1e-9, "value of the classifier"); }
}
namespace {
struct Line { A3 odo, world, laser; base::samples::LaserScan s; };
struct Temp { std::string d; Temp(const std::string& n) : d(scratchDir() + "/" + n) { boost::filesystem::remove_all(d); } ~Temp() { boost::filesystem::remove_all(d); } };
base::samples::LaserScan scan(Ctx& c, int64_t t) { base::samples::LaserScan s; s.time = base::Time(t); s.start_angle = c.signedReal(1.5); s.angular_resolution = 0.01 + 0.09*c.unit(); s.minRange = 100; s.maxRange = 20000; size_t n = c.size(0, 12); for(size_t i = 0; i < n; i++) s.ranges.push_back(c.chance(1, 6) ? c.pick(std::vector<uint32_t>{0, 1, 3, 50, 30000}) : 100 + c.draw(19000)); return s; }
}
PROP(localization, 3) {
    eu::Quiet q; Temp scene("scene"), debug("debug"); Environment me; FrameNode* mf = new FrameNode(eu::randomPose(c, 2)); me.addChild(me.getRootNode(), mf); Pointcloud* model = new Pointcloud(); me.setFrameNode(model, mf); size_t mn = c.size(0, 30); std::vector<V3> pts; for(size_t i = 0; i < mn; i++) pts.push_back(g3(c, 10)); A3 mi = mf->getTransform().inverse(); for(auto& p : pts) model->vertices.push_back(mi*p);
    ICPLocalization loc; ICPConfiguration ic; ic.model_density = 1; ic.measurement_density = c.chance(2, 3) ? 1.0 : c.real(0.3, 2); ic.max_iterations = c.range(1, 5); ic.overlap = c.real(0.3, 1); ic.min_mse = c.boolean() ? -1 : c.real(0, 0.1); ic.min_mse_diff = c.boolean() ? -1e9 : c.real(0, 0.01); ic.cov_conf.mode = (COV_MODE)c.draw(3); M3 cp = M3::Random(), co = M3::Random(); for(int i = 0; i < 9; i++) { cp.data()[i] = c.signedReal(1); co.data()[i] = c.signedReal(1); } ic.cov_conf.cov_position = cp; ic.cov_conf.cov_orientation = co; bool dbg = c.boolean(); if(dbg) ic.environment_debug_path = debug.d; loc.loadIcpConfiguration(ic);
    ICPPointCloudConfiguration pc; pc.lines_per_point_cloud = c.range(1, 5); pc.min_line_advance = c.range(0, 3); pc.min_distance_travelled_for_new_line = c.real(0.05, 0.5); pc.min_rotation_for_new_line = c.real(0.05, 0.5); pc.min_rotation_head_for_new_line = c.real(0.05, 0.5); loc.initializePointCloud(pc); bool loaded = false; std::vector<Line> kept; size_t count = 0, last = 0, refused = 0, saved = 0; A3 odo = eu::randomPose(c), off = eu::randomPose(c), laser = eu::randomPose(c, 1); size_t n = c.size(1, 20); std::vector<A3, Eigen::aligned_allocator<A3>> where; bool lastSaved = false;
    c.note(fmt("%d lines, advance %d, distance %g rotation %g head %g", pc.lines_per_point_cloud, pc.min_line_advance, pc.min_distance_travelled_for_new_line, pc.min_rotation_for_new_line, pc.min_rotation_head_for_new_line));
    for(size_t s = 0; s < n; s++) switch(c.weighted({10, 3, 1})) {
    case 0: { int k = c.draw(4); if(k == 1) odo.translation() += V3::Unit(c.draw(3))*c.signedReal(0.6); if(k == 2) odo.linear() = odo.linear()*Eigen::AngleAxisd(c.signedReal(0.6), V3::Unit(c.draw(3))).toRotationMatrix(); if(k == 3) laser.linear() = Eigen::AngleAxisd(c.signedReal(0.6), V3::Unit(c.draw(3))).toRotationMatrix()*laser.linear(); if(c.chance(1, 5)) off = eu::randomPose(c, 0.1)*off; Line l{odo, off*odo, laser, scan(c, 1000 + s)};
        bool take = true; for(auto& o : kept) { A3 d = l.odo.inverse()*o.odo; double rot = Eigen::AngleAxisd(M3(d.linear())).angle(), tr = d.translation().norm(), head = acos(std::max(-1.0, std::min(1.0, l.laser.linear().col(1).dot(o.laser.linear().col(1))))); auto over = [&](double a, double b) { if(fabs(a - b) < 1e-6) c.discard(); return a > b; }; bool x = over(rot, pc.min_rotation_for_new_line), y = over(tr, pc.min_distance_travelled_for_new_line), z = over(head, pc.min_rotation_head_for_new_line); if(!(x || y || z)) take = false; }
        c.note(fmt("scan of %zu ranges, is to be %s", l.s.ranges.size(), take ? "taken" : "left")); loc.addScanLineToPointCloud(l.odo, l.world, l.laser, l.s); if(take) { kept.push_back(l); count++; if(kept.size() > (size_t)pc.lines_per_point_cloud) kept.erase(kept.begin()); } else refused++; break; }
    case 1: if(!kept.empty()) { c.note("point cloud"); ICPInputData d = loc.generatePointcloud(); last = count; Line& b = kept.back(); std::vector<V3> e; for(auto& l : kept) { A3 t = b.odo.inverse()*l.odo*l.laser; for(size_t i = 0; i < l.s.ranges.size(); i++) if(l.s.ranges[i] >= l.s.minRange && l.s.ranges[i] <= l.s.maxRange) { double a = l.s.start_angle + i*l.s.angular_resolution; e.push_back(t*V3(cos(a)*l.s.ranges[i]/1000, sin(a)*l.s.ranges[i]/1000, 0)); } } boost::intrusive_ptr<Pointcloud> keep = d.pc;
            CHECK_EQ(d.pc->vertices.size(), e.size(), "number of points"); for(size_t i = 0; i < e.size(); i++) CHECK((d.pc->vertices[i] - e[i]).norm() < 1e-6, fmt("point %zu is ", i) + vec(d.pc->vertices[i]) + " instead of " + vec(e[i])); CHECK((d.pc2World.matrix() - b.world.matrix()).norm() < 1e-9, "pose of the point cloud"); CHECK(d.pointCloudTime == b.s.time, "time of the point cloud"); if(refused && count > 1) c.nontrivial();
            if(!loaded) { loaded = true; me.serialize(scene.d); loc.loadEnvironment(scene.d, ic.model_density); }
            A3 o = pose(g3(c, 0.3), 0.2*(c.unit() - 0.5)); ICPInputData m = loc.generatePointcloudSample(d, o); boost::intrusive_ptr<Pointcloud> copy = m.pc; CHECK(m.pc != d.pc && m.pc->vertices.size() == e.size() && m.pointCloudTime == d.pointCloudTime, "sample of a point cloud"); A3 w = d.pc2World; w.linear() = o.linear()*w.linear(); w.translation() += o.translation(); CHECK((m.pc2World.matrix() - w.matrix()).norm() < 1e-9, "pose of a sample");
            // the same in an environment of our own
            FrameNode* f = new FrameNode(m.pc2World); me.addChild(me.getRootNode(), f); Pointcloud* k = new Pointcloud(); k->vertices = m.pc->vertices; me.setFrameNode(k, f); TrimmedKD t; t.addToModel(PointcloudAdapter(model, 1)); t.align(PointcloudAdapter(k, ic.measurement_density), ic.max_iterations, ic.min_mse, ic.min_mse_diff, ic.overlap); A3 to = f->getTransform(); me.detachItem(k); me.detachItem(f);
            bool save = c.boolean(); c.note(fmt("match, save %d, %zu pairs", (int)save, t.getPairs())); ICPResult r = loc.doScanMatch(m, save); CHECK(r.time == d.pointCloudTime, "time of the result"); CHECK_EQ(r.points, (int)e.size(), "points of the result"); CHECK_EQ(r.pairs, (int)t.getPairs(), "pairs of the result"); CHECK((r.from.matrix() - m.pc2World.matrix()).norm() < 1e-12, "start of the match"); bool there = save && dbg; if(!there) CHECK(!copy->isAttached(), "the point cloud is still in the environment"); else { CHECK(copy->isAttached() && (copy->getFrameNode()->getTransform().matrix() - to.matrix()).norm() < 1e-5*(1 + to.matrix().norm()), "the saved point cloud"); saved++; }
            if(r.pairs > 0) { CHECK((r.to.matrix() - to.matrix()).norm() < 1e-5*(1 + to.matrix().norm()), "the result is\n" + mat(r.to.matrix()) + "\n instead of\n" + mat(to.matrix())); double mse = t.getMeanSquareError(); if(std::isfinite(mse)) CHECK_CLOSE(r.mse, mse, 1e-5, 1e-9, "mse of the result"); if(r.pairs > 2) c.nontrivial(); M3 a, b2; switch(ic.cov_conf.mode) { case HARD_CODED: a = cp; b2 = co; break; case MSE_BASED: { double f = std::max(1.0, ic.measurement_density)/4/sqrt(mse); a = M3::Identity()*(1e-3*2/pow(f/2, 4)); b2 = M3::Identity()*(M_PI/180/pow(f/2, 4)); break; } default: a = b2 = M3::Constant(INFINITY); } for(int i = 0; i < 9; i++) { CHECK_CLOSE(r.cov_position.data()[i], a.data()[i], 1e-4, 1e-9, "covariance of the position"); CHECK_CLOSE(r.cov_orientation.data()[i], b2.data()[i], 1e-4, 1e-9, "covariance of the orientation"); } }
            if(there && c.chance(1, 3)) { c.note("remove"); loc.removeLastSavedPointCloud(); saved--; CHECK(!copy->isAttached(), "a removed point cloud is still in the environment"); } } break;
    default: { bool h = loc.hasNewPointCloud(); long adv = (long)count - last; if((long)count < pc.lines_per_point_cloud || adv < pc.min_line_advance) CHECK(!h, "a point cloud of too few lines"); if((long)count > pc.lines_per_point_cloud && adv > pc.min_line_advance) CHECK(h, "there are enough lines for a point cloud"); } }
    if(loaded && dbg) { loc.saveEnvironment(); std::unique_ptr<Environment> l(Environment::unserialize(debug.d)); CHECK_EQ(l->getItems<Pointcloud>().size(), saved + 1, "point clouds in the saved environment"); }
}
