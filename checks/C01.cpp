//@ quick: 200000
//@ thorough: 6000000
// Gaussian and mixture densities, statistics, normalisation.
#include "pbt.hpp"
#include <iostream>
#include <stdexcept>
#include "gmmutil.hpp"
#include <envire/tools/GaussianMixture.hpp>
using namespace pbt; using namespace gm;
namespace pbt { const char* RULE = "Random well-conditioned covariances (built from a Cholesky factor), means, weights and evaluation points within 6 sigma in 1, 2, 3 and 6 dimensions, double and float; the density is compared with a long-double Cholesky evaluation, mixtures with the weighted sum of component densities, sample statistics with two-pass weighted mean and covariance. Non-trivial: a determinant away from 1 (density), at least two components of different weight (mixture), at least two samples of different weight (statistics)."; }

template<class S, int D> void density(Ctx& c, double tol) {
    typedef envire::Gaussian<S, D> G; typedef typename G::Vector V; typedef typename G::Matrix M;
    double sc = c.pick<double>({1.0, 0.1, 0.02, 5.0, 30.0}); Cov<D> k = genCov<D>(c, 0.5*sc, 1.5*sc);
    V mean, x; M cov; double z[D]; for(int i = 0; i < D; i++) { mean[i] = (S)c.signedReal(10*sc); z[i] = c.signedReal(2.4); for(int j = 0; j < D; j++) cov(i, j) = (S)k.C[i][j]; }
    for(int i = 0; i < D; i++) { double s = mean[i]; for(int j = 0; j <= i; j++) s += k.L[i][j]*z[j]; x[i] = (S)s; }
    c.note(fmt("D=%d %s mean=%s x=%s cov=\n", D, sizeof(S) == 8 ? "double" : "float", vec(mean).c_str(), vec(x).c_str()) + mat(cov));
    G g(mean, cov); LD ref = std::exp(logDensity<D>(x, mean, cov)); double v = (double)g.eval(x);
    if(std::fabs(k.logdet) > 0.2) c.nontrivial();
    c.label(fmt("dim%d", D));
    CHECK(nearly(v, (double)ref, tol, 1e-300), fmt("density is %.12g, expected %.12Lg", v, ref));
    // density is symmetric about the mean and maximal there
    V xm = mean + (mean - x); CHECK(nearly((double)g.eval(xm), v, tol*20, 1e-300), "density is not symmetric about the mean");
    CHECK(g.eval(mean) >= v*(1 - tol), "density exceeds its value at the mean");
}
PROP(density, 4) { switch(c.draw(5)) { case 0: density<double,1>(c, 1e-8); break; case 1: density<double,2>(c, 1e-8); break; case 2: density<double,3>(c, 1e-8); break; case 3: density<double,6>(c, 1e-7); break; default: density<float,2>(c, 2e-3); } }

template<int D> void mixture(Ctx& c) {
    typedef envire::GaussianMixture<double, D> G; typedef typename G::Vector V; typedef typename G::Matrix M;
    G g; size_t n = c.size(1, 6); std::vector<double> w; double sum = 0;
    bool tiny = c.chance(1, 12);
    for(size_t i = 0; i < n; i++) {
        Cov<D> k = genCov<D>(c, 0.3, 2); V m; M cov; for(int a = 0; a < D; a++) { m[a] = c.signedReal(4); for(int b = 0; b < D; b++) cov(a, b) = k.C[a][b]; }
        double wi = tiny ? c.real(0, 1e-7) : c.chance(1, 8) ? 0.0 : c.real(0.01, 3); w.push_back(wi); sum += wi;
        if(c.boolean()) g.params.push_back(typename G::Parameter(wi, m, cov)); else g.params.push_back(typename G::Parameter(wi, envire::Gaussian<double, D>(m, cov)));
        c.note(fmt("weight %.17g mean %s", wi, vec(m).c_str()));
    }
    bool diff = false; for(double x : w) if(x != w[0]) diff = true; if(n >= 2 && diff) c.nontrivial();
    V x; for(int a = 0; a < D; a++) x[a] = c.signedReal(5); c.note("x = " + vec(x));
    for(int round = 0; round < 2; round++) {
        LD ref = 0; for(size_t i = 0; i < n; i++) ref += (LD)g.params[i].weight*std::exp(logDensity<D>(x, g.params[i].dist.mean, g.params[i].dist.cov));
        CHECK(nearly(g.eval(x), (double)ref, 1e-8, 1e-290), fmt("mixture density is %.12g, expected the weighted sum %.12Lg (%s)", g.eval(x), ref, round ? "normalised" : "as given"));
        if(round == 1) break;
        std::vector<V> ms; std::vector<M> cs; for(auto& p : g.params) { ms.push_back(p.dist.mean); cs.push_back(p.dist.cov); }
        g.normalize();
        CHECK_EQ(g.params.size(), n, "number of components after normalize");
        double s = 0; for(size_t i = 0; i < n; i++) { s += g.params[i].weight; CHECK(g.params[i].dist.mean == ms[i] && g.params[i].dist.cov == cs[i], "normalize changed a component's distribution"); }
        CHECK_CLOSE(s, 1.0, 0, 1e-12, "sum of normalised weights");
        if(sum > 1.1e-5) for(size_t i = 0; i < n; i++) CHECK_CLOSE(g.params[i].weight, w[i]/sum, 1e-12, 1e-300, "normalised weight keeps its share");
        else if(sum < 0.9e-5) for(size_t i = 0; i < n; i++) CHECK_CLOSE(g.params[i].weight, 1.0/n, 1e-12, 0, "uniform weight for a vanishing sum");
        g.normalize(); s = 0; for(auto& p : g.params) s += p.weight; CHECK_CLOSE(s, 1.0, 0, 1e-12, "sum of weights normalised twice");
    }
}
PROP(mixture, 3) { switch(c.draw(3)) { case 0: mixture<1>(c); break; case 1: mixture<2>(c); break; default: mixture<3>(c); } }

template<int D> void stats(Ctx& c) {
    typedef envire::Gaussian<double, D> G; typedef typename G::Vector V; typedef typename G::Matrix M;
    size_t n = c.size(1, 25); std::vector<V> s(n); std::vector<double> w(n); std::vector<bool> dflt; typename G::Stats st, st2; bool weighted = c.chance(3, 4), diff = false;
    double mag = c.pick<double>({1, 10, 100}); V base; for(int a = 0; a < D; a++) base[a] = c.signedReal(mag);
    LD sw = 0, m[D] = {0}; for(size_t i = 0; i < n; i++) { for(int a = 0; a < D; a++) s[i][a] = base[a] + c.signedReal(mag); dflt.push_back(!weighted || c.chance(1, 3)); w[i] = dflt[i] ? 1.0 : c.real(0.01, 5); if(w[i] != w[0]) diff = true; c.note(fmt("w=%.17g v=%s", w[i], vec(s[i]).c_str())); }
    for(size_t i = 0; i < n; i++) { if(!dflt[i]) st.insert(s[i], w[i]); else st.insert(s[i]); sw += w[i]; for(int a = 0; a < D; a++) m[a] += (LD)w[i]*s[i][a]; }
    for(size_t i = n; i-- > 0;) st2.insert(s[i], w[i]);
    for(int a = 0; a < D; a++) m[a] /= sw;
    G g = st.update(), g2 = st2.update(); CHECK_CLOSE(st.sum, (double)sw, 1e-12, 0, "sum of weights");
    for(int a = 0; a < D; a++) { CHECK_CLOSE(g.mean[a], (double)m[a], 1e-10, 1e-10*mag, "mean"); CHECK_CLOSE(g2.mean[a], (double)m[a], 1e-10, 1e-10*mag, "mean, inserted in reverse");
        for(int b = 0; b < D; b++) { LD v = 0; for(size_t i = 0; i < n; i++) v += w[i]*(s[i][a] - m[a])*(s[i][b] - m[b]); v /= sw; CHECK_CLOSE(g.cov(a, b), (double)v, 1e-8, 1e-11*mag*mag, fmt("covariance(%d,%d)", a, b)); CHECK_CLOSE(g2.cov(a, b), (double)v, 1e-8, 1e-11*mag*mag, fmt("covariance(%d,%d), inserted in reverse", a, b)); } }
    if(n >= 2 && diff) c.nontrivial();
    c.label("stats");
}
PROP(statistics, 2) { switch(c.draw(3)) { case 0: stats<1>(c); break; case 1: stats<2>(c); break; default: stats<4>(c); } }
