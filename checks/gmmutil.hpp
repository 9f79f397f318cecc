// generators shared by the Gaussian-mixture checks
#pragma once
#include "pbt.hpp"
#include <vector>
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>
namespace gm {
typedef long double LD;
// a well-conditioned covariance with its Cholesky factor
template<int D> struct Cov { double L[D][D]; double C[D][D]; double logdet; };
template<int D> Cov<D> genCov(pbt::Ctx& c, double lo, double hi) {
    Cov<D> r; r.logdet = 0;
    for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) r.L[i][j] = j > i ? 0 : j == i ? c.real(lo, hi) : c.signedReal(0.7*lo + 0.3*(hi - lo)*0.3);
    for(int i = 0; i < D; i++) r.logdet += 2*std::log(r.L[i][i]);
    for(int i = 0; i < D; i++) for(int j = 0; j < D; j++) { LD s = 0; for(int k = 0; k < D; k++) s += (LD)r.L[i][k]*r.L[j][k]; r.C[i][j] = (double)s; }
    for(int i = 0; i < D; i++) for(int j = 0; j < i; j++) r.C[i][j] = r.C[j][i];
    return r;
}
// reference log density by Cholesky in long double
template<int D, class V, class M> LD logDensity(const V& x, const V& mean, const M& cov) {
    LD L[D][D]; LD ld = 0;
    for(int i = 0; i < D; i++) for(int j = 0; j <= i; j++) { LD s = cov(i, j); for(int k = 0; k < j; k++) s -= L[i][k]*L[j][k]; if(i == j) { if(!(s > 0)) return NAN; L[i][i] = std::sqrt(s); ld += 2*std::log(L[i][i]); } else L[i][j] = s/L[j][j]; }
    LD q = 0, y[D]; for(int i = 0; i < D; i++) { LD s = (LD)x[i] - mean[i]; for(int k = 0; k < i; k++) s -= L[i][k]*y[k]; y[i] = s/L[i][i]; q += y[i]*y[i]; }
    return -0.5L*(D*std::log(2*acosl(-1.0L)) + ld + q);
}
template<class M> double cond(const M& m) { Eigen::MatrixXd x = m.template cast<double>(); Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> e(x); double a = e.eigenvalues().minCoeff(), b = e.eigenvalues().maxCoeff(); return a > 0 ? b/a : INFINITY; }
}
