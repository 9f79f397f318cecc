//@ quick: 5000
//@ thorough: 40000
// Samples drawn from a mixture follow it.
#include "pbt.hpp"
#include <iostream>
#include <stdexcept>
#include "gmmutil.hpp"
#include <envire/tools/ExpectationMaximization.hpp>
using namespace pbt; using namespace gm;
namespace pbt { const char* RULE = "Random normalised mixtures of 1-5 components (well separated, so that each sample can be attributed), dimension 1-3, random generator seeds; 3000 samples each. Component frequencies, per-component mean and covariance (bounds of 7 standard errors) and the share of samples in one-sigma ellipsoids are compared with the model; equal seeds must give equal sequences. Non-trivial: two or more components of non-zero weight, or a covariance with off-diagonal entries."; }

template<int D> void sampling(Ctx& c) {
    typedef envire::GaussianMixture<double, D> GMM; typedef typename GMM::Vector V;
    GMM g; size_t k = c.range(1, 5); bool corr = false; std::vector<Cov<D>> cs; double sc = c.pick<double>({1.0, 0.01, 20.0});
    size_t nz = 0;
    for(size_t j = 0; j < k; j++) { Cov<D> q = genCov<D>(c, 0.5*sc, 1.5*sc); cs.push_back(q); typename GMM::Parameter p; p.weight = c.chance(1, 6) && nz + k - j > 1 ? 0.0 : c.real(0.05, 1); if(p.weight > 0) nz++; for(int a = 0; a < D; a++) { p.dist.mean[a] = a == 0 ? (double)j*60*sc - 50*sc : c.signedReal(3*sc); for(int b = 0; b < D; b++) { p.dist.cov(a, b) = q.C[a][b]; if(a != b && std::fabs(q.C[a][b]) > 1e-3*sc*sc) corr = true; } } g.params.push_back(p); }
    if(nz == 0) g.params[0].weight = 1;
    g.normalize(); for(auto& p : g.params) c.note(fmt("weight %.6g mean %s cov\n", p.weight, vec(p.dist.mean).c_str()) + mat(p.dist.cov));
    long seed = c.range(1, 2000000); c.note(fmt("seed %ld", seed)); envire::GaussianMixtureSampling<GMM> sa(g, seed), sb(g, seed);
    const int N = 3000; std::vector<int> cnt(k, 0), in(k, 0); std::vector<std::vector<V>> xs(k);
    for(int i = 0; i < N; i++) {
        V x = sa.sample(); if(i < 20) { V y = sb.sample(); CHECK(x == y, "two samplers with the same seed disagree"); }
        size_t b = 0; double bd = INFINITY; for(size_t j = 0; j < k; j++) { double d = std::fabs(x[0] - g.params[j].dist.mean[0]); if(d < bd) { bd = d; b = j; } }
        CHECK(std::isfinite(bd) && bd < 15*sc, fmt("sample %s belongs to no component", vec(x).c_str()));
        CHECK(g.params[b].weight > 0, fmt("sample %s from a component of weight 0", vec(x).c_str()));
        cnt[b]++; xs[b].push_back(x);
        double y[D], q = 0; for(int a = 0; a < D; a++) { double s = x[a] - g.params[b].dist.mean[a]; for(int e = 0; e < a; e++) s -= cs[b].L[a][e]*y[e]; y[a] = s/cs[b].L[a][a]; q += y[a]*y[a]; } if(q <= 1) in[b]++;
    }
    const double p1[4] = {0, 0.6826894921, 0.3934693403, 0.1987480431}; // P(chi2_D <= 1)
    for(size_t j = 0; j < k; j++) { double w = g.params[j].weight; CHECK(std::fabs(cnt[j] - N*w) <= 7*std::sqrt(N*w*(1 - w)) + 3, fmt("component %zu of weight %.4f got %d of %d samples", j, w, cnt[j], N));
        int n = cnt[j]; if(n < 60) continue; auto& d = g.params[j].dist; V m = V::Zero(); for(auto& x : xs[j]) m += x; m /= n;
        CHECK(std::fabs(in[j] - n*p1[D]) <= 7*std::sqrt(n*p1[D]*(1 - p1[D])) + 3, fmt("component %zu: %d of %d samples within the one-sigma ellipsoid, expected a share of %.4f", j, in[j], n, p1[D]));
        for(int a = 0; a < D; a++) { double sa2 = std::sqrt(d.cov(a, a)); CHECK(std::fabs(m[a] - d.mean[a]) <= 7*sa2/std::sqrt(n), fmt("component %zu: sample mean %.6g, model mean %.6g in axis %d", j, m[a], d.mean[a], a));
            for(int b = 0; b < D; b++) { double v = 0; for(auto& x : xs[j]) v += (x[a] - m[a])*(x[b] - m[b]); v /= n; double se = std::sqrt((d.cov(a, a)*d.cov(b, b) + d.cov(a, b)*d.cov(a, b))/n); CHECK(std::fabs(v - d.cov(a, b)) <= 8*se + 1e-12, fmt("component %zu: sample covariance (%d,%d) %.6g, model %.6g", j, a, b, v, d.cov(a, b))); } } }
    if(nz >= 2 || corr) c.nontrivial(); c.label(fmt("components %zu", k)); c.label(fmt("dim %d", D));
}
PROP(sampling, 1) { switch(c.draw(3)) { case 0: sampling<1>(c); break; case 1: sampling<2>(c); break; default: sampling<3>(c); } }
