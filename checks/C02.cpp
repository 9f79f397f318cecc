//@ quick: 60000
//@ thorough: 2500000
// k-means and expectation maximisation.
#include "pbt.hpp"
#include <iostream>
#include <stdexcept>
#include "gmmutil.hpp"
#include <envire/tools/ExpectationMaximization.hpp>
using namespace pbt; using namespace gm;
namespace pbt { const char* RULE = "Random sample sets in 1-3 dimensions (Gaussian-ish blobs, uniform clouds, sets with repeated points), with and without sample weights, 1-6 classes. k-means: the returned clusters must be the weighted mean and covariance of the samples nearest to them, every sample in exactly one. EM: each step is compared with an independent long-double responsibility update, the weighted log likelihood must be the one returned and not drop, the unit of the weights must not matter, components without a density and unexplained samples must not change what becomes of the others, run() must stop exactly where stepping by hand with the same threshold stops. Non-trivial: at least two clusters (k-means), at least two components with overlapping responsibilities (EM step), a run of at least two iterations (EM run)."; }

template<int D> struct Set { typedef envire::GaussianMixture<double, D> GMM; std::vector<typename GMM::Vector> s; std::vector<double> w; };
template<int D> Set<D> gen(Ctx& c, size_t lo, size_t hi, bool dup) {
    Set<D> r; size_t n = c.size(lo, hi); size_t blobs = c.range(1, 4); bool wt = c.boolean(); double unit = c.chance(1, 3) ? c.pick<double>({1e-6, 1e-3, 1e4}) : 1; bool d = dup && c.chance(1, 4);
    std::vector<typename Set<D>::GMM::Vector> ctr(blobs); for(auto& v : ctr) for(int a = 0; a < D; a++) v[a] = c.signedReal(6);
    for(size_t i = 0; i < n; i++) { typename Set<D>::GMM::Vector v;
        if(d && i && c.chance(1, 3)) v = r.s[c.draw(i)];
        else { const auto& m = ctr[c.draw(blobs)]; for(int a = 0; a < D; a++) v[a] = m[a] + (c.unit() + c.unit() + c.unit() - 1.5)*2; }
        r.s.push_back(v); if(wt) r.w.push_back(unit*c.real(0.1, 3)); c.note(fmt("sample %s", vec(v).c_str()) + (wt ? fmt(" weight %.17g", r.w.back()) : std::string())); }
    if(d) c.label("repeated points"); if(wt) c.label("weighted");
    return r;
}

template<int D> void kmeans(Ctx& c) {
    typedef typename Set<D>::GMM GMM; typedef typename GMM::Vector V; typedef typename GMM::Matrix M;
    envire::KMeans<GMM> km; int rounds = c.chance(1, 4) ? 2 : 1; // the object may be used again
    for(int r = 0; r < rounds; r++) {
        Set<D> s = gen<D>(c, 1, 40, true); size_t k = c.range(1, std::min<size_t>(6, s.s.size())); c.note(fmt("classes: %zu", k)); size_t n = s.s.size();
        if(s.w.empty() && c.boolean()) km.initialize(k, s.s); else km.initialize(k, s.s, s.w);
        km.run(); auto cl = km.getClusters();
        CHECK(cl.size() >= 1 && cl.size() <= k, fmt("%zu clusters for %zu classes", cl.size(), k));
        std::vector<LD> sw(cl.size(), 0); std::vector<std::vector<size_t>> mem(cl.size());
        for(size_t j = 0; j < cl.size(); j++) for(int a = 0; a < D; a++) CHECK(std::isfinite(cl[j].mean[a]), fmt("cluster %zu of %zu has mean %s", j, cl.size(), vec(cl[j].mean).c_str()));
        for(size_t i = 0; i < n; i++) { size_t b = 0; double bd = INFINITY, sd = INFINITY; for(size_t j = 0; j < cl.size(); j++) { double d = (cl[j].mean - s.s[i]).squaredNorm(); if(d < bd) { sd = bd; bd = d; b = j; } else if(d < sd) sd = d; }
            if(sd - bd < 1e-9) { c.label("tie"); return; } // a sample between two means may belong to either
            mem[b].push_back(i); sw[b] += s.w.empty() ? 1.0 : s.w[i]; }
        for(size_t j = 0; j < cl.size(); j++) {
            CHECK(!mem[j].empty(), fmt("cluster %zu has no nearest samples", j));
            LD m[D]; for(int a = 0; a < D; a++) { m[a] = 0; for(size_t i : mem[j]) m[a] += (s.w.empty() ? 1.0L : s.w[i])*s.s[i][a]; m[a] /= sw[j]; CHECK_CLOSE(cl[j].mean[a], (double)m[a], 1e-9, 1e-9, fmt("mean of cluster %zu against that of its nearest samples", j)); }
            for(int a = 0; a < D; a++) for(int b = 0; b < D; b++) { LD v = 0; for(size_t i : mem[j]) v += (s.w.empty() ? 1.0L : s.w[i])*(s.s[i][a] - m[a])*(s.s[i][b] - m[b]); v /= sw[j]; CHECK_CLOSE(cl[j].cov(a, b), (double)v, 1e-8, 1e-9, fmt("covariance of cluster %zu", j)); }
        }
        if(cl.size() >= 2) c.nontrivial();
        if(cl.size() < k) c.label("fewer clusters than classes");
        if(r) c.label("reused");
    }
}
PROP(kmeans, 2) { switch(c.draw(3)) { case 0: kmeans<1>(c); break; case 1: kmeans<2>(c); break; default: kmeans<3>(c); } }

template<int D> bool wellConditioned(const typename Set<D>::GMM& g) { for(auto& p : g.params) { if(!(p.weight > 1e-6)) return false; for(int a = 0; a < D; a++) for(int b = 0; b < D; b++) if(!std::isfinite(p.dist.cov(a, b))) return false; if(!(cond(p.dist.cov) < 1e5) || !(p.dist.cov.trace() > 1e-4)) return false; } return !g.params.empty(); }
template<int D> LD loglik(const typename Set<D>::GMM& g, const Set<D>& s, bool weighted, LD& worst) {
    LD t = 0, n = 0; worst = INFINITY; for(size_t i = 0; i < s.s.size(); i++) { LD v = 0; for(auto& p : g.params) v += p.weight*std::exp(logDensity<D>(s.s[i], p.dist.mean, p.dist.cov)); worst = std::min(worst, v); LD w = weighted && !s.w.empty() ? s.w[i] : 1.0; t += w*std::log(v); n += w; } return t/n;
}

template<int D> void emStep(Ctx& c) {
    typedef typename Set<D>::GMM GMM; typedef typename GMM::Vector V;
    Set<D> s = gen<D>(c, 6, 40, false); size_t n = s.s.size(); envire::ExpectationMaximization<GMM> em; size_t k = c.range(1, 4);
    bool viaInit = c.boolean();
    if(viaInit) { em.initialize(k, s.s, s.w); double sw = 0; for(auto& p : em.gmm.params) sw += p.weight; CHECK_CLOSE(sw, 1.0, 0, 1e-12, "weights after initialize"); CHECK(em.gmm.params.size() <= k && em.gmm.params.size() >= 1, "components after initialize"); CHECK_EQ(em.samples.size(), n, "samples after initialize"); }
    else { em.samples = s.s; em.weights = s.w; for(size_t j = 0; j < k; j++) { Cov<D> q = genCov<D>(c, 0.6, 2.5); typename GMM::Parameter p; for(int a = 0; a < D; a++) { p.dist.mean[a] = s.s[c.draw(n)][a] + c.signedReal(1); for(int b = 0; b < D; b++) p.dist.cov(a, b) = q.C[a][b]; } p.weight = c.real(0.2, 1); em.gmm.params.push_back(p); c.note(fmt("component %.17g at %s", p.weight, vec(p.dist.mean).c_str())); } em.gmm.normalize(); }
    size_t steps = c.range(1, 5);
    for(size_t st = 0; st < steps; st++) {
        if(!wellConditioned<D>(em.gmm)) { c.label("degenerate"); return; }
        GMM old = em.gmm; k = old.params.size(); LD worst; LD before = loglik<D>(old, s, true, worst), plain = loglik<D>(old, s, false, worst); if(!(worst > 1e-200L)) { c.label("underflow"); return; }
        // reference step
        std::vector<std::vector<LD>> ga(n, std::vector<LD>(k)); bool overlap = false; LD sumw = 0;
        for(size_t i = 0; i < n; i++) { LD t = 0; for(size_t j = 0; j < k; j++) t += ga[i][j] = old.params[j].weight*std::exp(logDensity<D>(s.s[i], old.params[j].dist.mean, old.params[j].dist.cov)); LD w = s.w.empty() ? 1.0 : s.w[i]; sumw += w; for(size_t j = 0; j < k; j++) { if(ga[i][j] > 0.05*t && ga[i][j] < 0.95*t) overlap = true; ga[i][j] *= w/t; } }
        GMM ref; bool removed = false; (void)plain;
        for(size_t j = 0; j < k; j++) { LD nj = 0, m[D] = {0}; for(size_t i = 0; i < n; i++) { nj += ga[i][j]; for(int a = 0; a < D; a++) m[a] += ga[i][j]*s.s[i][a]; }
            LD rel = nj*n/sumw; if(rel > 0.5e-4L && rel < 2e-4L) return; if(rel < 1e-4L) { removed = true; continue; }
            typename GMM::Parameter p; p.weight = nj/sumw; for(int a = 0; a < D; a++) p.dist.mean[a] = m[a]/nj; for(int a = 0; a < D; a++) for(int b = 0; b < D; b++) { LD v = 0; for(size_t i = 0; i < n; i++) v += ga[i][j]*(s.s[i][a] - m[a]/nj)*(s.s[i][b] - m[b]/nj); p.dist.cov(a, b) = v/nj; } ref.params.push_back(p); }
        double ret = em.step();
        CHECK_CLOSE(ret, (double)before, 1e-8, 1e-8, "log likelihood returned by step()");
        CHECK_EQ(em.gmm.params.size(), ref.params.size(), "components after the step");
        double sw = 0; if(removed) ref.normalize();
        for(size_t j = 0; j < ref.params.size(); j++) { auto& p = em.gmm.params[j]; auto& q = ref.params[j]; sw += p.weight; CHECK_CLOSE(p.weight, q.weight, 1e-6, 1e-9, fmt("weight of component %zu", j)); for(int a = 0; a < D; a++) { CHECK_CLOSE(p.dist.mean[a], q.dist.mean[a], 1e-6, 1e-6, fmt("mean of component %zu", j)); for(int b = 0; b < D; b++) CHECK_CLOSE(p.dist.cov(a, b), q.dist.cov(a, b), 1e-5, 1e-6, fmt("covariance of component %zu", j)); } }
        if(k >= 2 && overlap) c.nontrivial();
        c.label(removed ? "component removed" : "em step");
        if(!em.gmm.params.empty()) CHECK_CLOSE(sw, 1.0, 0, 1e-9, "sum of the component weights"); if(!removed) { CHECK_CLOSE(sw, 1.0, 0, 1e-9, "sum of the component weights");
            if(wellConditioned<D>(em.gmm)) { LD w2; LD after = loglik<D>(em.gmm, s, true, w2); CHECK(after >= before - 1e-8L*(1 + std::fabs(before)), fmt("a step lowered the log likelihood from %.12Lg to %.12Lg", before, after)); } }
    }
}
PROP(em_step, 3) { switch(c.draw(3)) { case 0: emStep<1>(c); break; case 1: emStep<2>(c); break; default: emStep<3>(c); } }

PROP(em_run, 1) {
    typedef Set<2>::GMM GMM; Set<2> s = gen<2>(c, 12, 40, false); envire::ExpectationMaximization<GMM> em; em.initialize(c.range(1, 3), s.s, s.w);
    double delta = c.pick<double>({0.5, 0.1, 1e-2, 1e-3, 1e-4, 1e-6}); size_t maxIter = c.pick<size_t>({0, 1, 2, 5, 30}); c.note(fmt("delta %g max %zu", delta, maxIter));
    envire::ExpectationMaximization<GMM> ref = em; size_t it = 0; double last = 0; bool ok = true;
    while(it < maxIter) { if(!wellConditioned<2>(ref.gmm)) { ok = false; break; } double ll = ref.step(); it++; double d = std::fabs(ll - last); if(it == 1 && d <= delta*1.01) { ok = false; break; } if(std::fabs(d - delta) < 1e-9) { ok = false; break; } if(it > 1 && d <= delta) break; last = ll; }
    if(!ok) { c.label("degenerate"); return; }
    em.run(delta, maxIter);
    CHECK_EQ(em.gmm.params.size(), ref.gmm.params.size(), "components after run()");
    for(size_t j = 0; j < ref.gmm.params.size(); j++) { auto &p = em.gmm.params[j], &q = ref.gmm.params[j]; CHECK(nearly(p.weight, q.weight, 1e-9, 1e-12) && (p.dist.mean - q.dist.mean).norm() <= 1e-9*(1 + q.dist.mean.norm()) && (p.dist.cov - q.dist.cov).norm() <= 1e-9*(1 + q.dist.cov.norm()), fmt("run(%g, %zu) did not stop after the %zu iterations its threshold asks for", delta, maxIter, it)); }
    if(it >= 2) c.nontrivial(); c.label(fmt("iterations %s", it < 2 ? "<2" : it < 6 ? "2-5" : "6+"));
}

// components without a density, and samples without an explanation, leave the rest alone
template<int D> void emDegenerate(Ctx& c) {
    typedef typename Set<D>::GMM GMM; Set<D> s = gen<D>(c, 6, 30, false), all; envire::ExpectationMaximization<GMM> em, ref; size_t k = c.range(1, 3), bad = c.draw(3), far = c.draw(3); all = s;
    for(size_t j = 0; j < k; j++) { Cov<D> q = genCov<D>(c, 0.8, 2.5); typename GMM::Parameter p; for(int a = 0; a < D; a++) { p.dist.mean[a] = s.s[c.draw(s.s.size())][a] + c.signedReal(1); for(int b = 0; b < D; b++) p.dist.cov(a, b) = q.C[a][b]; } p.weight = c.real(0.2, 1); ref.gmm.params.push_back(p); }
    em.gmm = ref.gmm; for(size_t j = 0; j < bad; j++) { typename GMM::Parameter p; p.weight = c.real(0.2, 1); p.dist.mean = s.s[c.draw(s.s.size())]; p.dist.cov.setIdentity(); int a = c.draw(D); p.dist.cov(a, a) = 0; if(c.boolean()) p.dist.cov.setZero(); if(c.chance(1, 3)) p.dist.mean.setConstant(NAN); em.gmm.params.insert(em.gmm.params.begin() + c.draw(em.gmm.params.size() + 1), p); }
    for(size_t i = 0; i < far; i++) { typename GMM::Vector v; for(int a = 0; a < D; a++) v[a] = 2000 + c.real(0, 1e4); if(c.boolean()) v = -v; size_t at = c.draw(all.s.size() + 1); all.s.insert(all.s.begin() + at, v); if(!s.w.empty()) all.w.insert(all.w.begin() + at, s.w[0]*c.real(0.5, 2)); }
    c.note(fmt("%zu components, %zu without a density, %zu samples without an explanation", k, bad, far)); ref.samples = s.s; ref.weights = s.w; em.samples = all.s; em.weights = all.w; LD worst; loglik<D>(ref.gmm, s, true, worst); if(!(worst > 1e-200L)) { c.label("underflow"); return; }
    // (the threshold for components to be dropped is relative to all samples)
    GMM start = ref.gmm; ref.step(); if(ref.gmm.params.size() != k) return; for(auto& p : ref.gmm.params) if(p.weight < 1e-3) return; double ret = em.step(); if(!far && !bad) CHECK(std::isfinite(ret), "log likelihood"); if(far) CHECK(ret < -1e5, "log likelihood with unexplained samples");
    CHECK_EQ(em.gmm.params.size(), k, "components that are left"); for(size_t j = 0; j < k; j++) { auto &p = em.gmm.params[j], &q = ref.gmm.params[j]; CHECK_CLOSE(p.weight, q.weight, 1e-9, 1e-12, fmt("weight of component %zu", j)); CHECK((p.dist.mean - q.dist.mean).norm() <= 1e-9*(1 + q.dist.mean.norm()) && (p.dist.cov - q.dist.cov).norm() <= 1e-9*(1 + q.dist.cov.norm()), fmt("component %zu", j)); }
    if(bad || far) c.nontrivial(); c.label(bad ? "degenerate component" : far ? "unexplained sample" : "plain");
}
PROP(em_degenerate, 1) { switch(c.draw(3)) { case 0: emDegenerate<1>(c); break; case 1: emDegenerate<2>(c); break; default: emDegenerate<3>(c); } }

// few samples per class: what is left after any number of steps is a mixture
PROP(em_small, 1) {
    typedef Set<2>::GMM GMM; Set<2> s = gen<2>(c, 2, 15, true); envire::ExpectationMaximization<GMM> em; size_t k = c.range(1, std::min<size_t>(s.s.size(), 5)); em.initialize(k, s.s, s.w); bool good = false; for(auto& p : em.gmm.params) good |= cond(p.dist.cov) < 1e4 && p.dist.cov.trace() > 1e-2; size_t n = c.range(1, 8), had = em.gmm.params.size();
    if(c.boolean()) em.run(1e-4, n); else for(size_t i = 0; i < n; i++) em.step(); size_t left = em.gmm.params.size(); if(n == 1 && good && s.s.size() >= had) CHECK(left >= 1, "nothing is left of a mixture with a proper component"); double sw = 0; for(auto& p : em.gmm.params) { sw += p.weight; CHECK(std::isfinite(p.weight) && p.dist.mean.allFinite() && p.dist.cov.allFinite(), "a component that is not finite is left"); } if(left) CHECK_CLOSE(sw, 1.0, 0, 1e-6, "sum of the weights"); if(left && left < had) c.nontrivial();
}
