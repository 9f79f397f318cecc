//@ quick: 1500000
//@ thorough: 60000000
// Scalar Kalman fusion of two estimates.
#include "pbt.hpp"
#include <cmath>
using std::sqrt;
#include <envire/tools/Numeric.hpp>
using namespace pbt;
namespace pbt { const char* RULE = "Random estimates and measurements (means of any sign over 8 decades, standard deviations from 0 to 1e4 including exactly 0 and equal ones), float and double, single updates and sequences of up to 12. Oracle: the information-form posterior (inverse variances add, means weighted by them). Non-trivial: both deviations positive and the means different."; }
namespace { double dev(Ctx& c) { switch(c.draw(6)) { case 0: return 0; case 1: return 1; case 2: return std::pow(10.0, c.real(-4, 4)); default: return c.real(0.01, 5); } } double mean(Ctx& c) { return c.chance(1, 5) ? std::pow(10.0, c.real(-4, 4))*(c.boolean() ? -1 : 1) : c.signedReal(20); } }
template<class T> void single(Ctx& c, double tol) {
    T m0 = mean(c), s0 = dev(c), m1 = mean(c), s1 = c.chance(1, 6) ? s0 : (T)dev(c); T m = m0, s = s0; c.note(fmt("estimate %.17g +- %.17g, measurement %.17g +- %.17g", (double)m0, (double)s0, (double)m1, (double)s1));
    kalman_update(m, s, m1, s1); CHECK(std::isfinite(m) && std::isfinite(s), fmt("fused estimate %g +- %g is not finite", (double)m, (double)s));
    double v0 = (double)s0*s0, v1 = (double)s1*s1, em, es; if(v0 == 0 && v1 == 0) { em = 0.5*((double)m0 + m1); es = 0; } else { em = ((double)m0*v1 + (double)m1*v0)/(v0 + v1); es = std::sqrt(v0*v1/(v0 + v1)); }
    double mag = std::max(std::fabs((double)m0), std::fabs((double)m1)); CHECK_CLOSE(m, em, tol, tol*mag, "fused mean"); 
    // the deviation comes from 1-gain, which cancels when the measurement is far more certain
    CHECK_CLOSE(s, es, tol, 2e-8*(double)s0 + tol*es, "fused deviation");
    CHECK(m >= std::min(m0, m1) - tol*mag && m <= std::max(m0, m1) + tol*mag, "the fused mean is not between the means");
    CHECK(s <= std::min(s0, s1)*(1 + tol) + 2e-8*s0, "fusion increased the uncertainty"); 
    if(s0 > 0 && s1 > 0 && m0 != m1) c.nontrivial(); if(v0 == 0 || v1 == 0) c.label("zero deviation");
    CHECK_EQ(sq(m0), m0*m0, "square");
}
PROP(single, 3) { if(c.boolean()) single<double>(c, 1e-9); else single<float>(c, 2e-5); }
PROP(sequence, 1) {
    size_t n = c.range(2, 12); std::vector<double> ms, ss; for(size_t i = 0; i < n; i++) { ms.push_back(c.signedReal(20)); ss.push_back(c.real(0.05, 5)); c.note(fmt("%.17g +- %.17g", ms[i], ss[i])); }
    auto fuse = [&](bool rev) { double m = ms[rev ? n - 1 : 0], s = ss[rev ? n - 1 : 0]; for(size_t i = 1; i < n; i++) { size_t k = rev ? n - 1 - i : i; kalman_update(m, s, ms[k], ss[k]); } return std::make_pair(m, s); };
    double iv = 0, im = 0; for(size_t i = 0; i < n; i++) { iv += 1/(ss[i]*ss[i]); im += ms[i]/(ss[i]*ss[i]); } auto a = fuse(false), b = fuse(true);
    CHECK_CLOSE(a.first, im/iv, 1e-7, 1e-7, "mean of a sequence"); CHECK_CLOSE(a.second, 1/std::sqrt(iv), 1e-7, 0, "deviation of a sequence"); CHECK_CLOSE(b.first, im/iv, 1e-7, 1e-7, "mean of the reversed sequence"); CHECK_CLOSE(b.second, 1/std::sqrt(iv), 1e-7, 0, "deviation of the reversed sequence"); c.nontrivial();
}
