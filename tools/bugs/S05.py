prop="C03"; needs="a mixture whose covariances are not diagonal"; breaks="samples are drawn with the transposed Cholesky factor, so their covariance is not the one of the mixture"
edits=[("src/tools/ExpectationMaximization.hpp","param.dist.cov.llt().matrixL() * sample;","param.dist.cov.llt().matrixU() * sample;")]
demo='''#include <cassert>
#include <cmath>
#include <cstdio>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire;
int main() { typedef GaussianMixture<double,2> G; G g; G::Vector m; m << 0, 0; G::Matrix c; c << 1, 1.5, 1.5, 4; g.params.push_back(G::Parameter(1.0, m, c)); GaussianMixtureSampling<G> s(g); G::Matrix S = G::Matrix::Zero(); int n = 20000; for(int i = 0; i < n; i++) { G::Vector v = s.sample(); S += v*v.transpose()/n; } for(int i = 0; i < 4; i++) if(std::fabs(S.data()[i] - c.data()[i]) > 0.3) { printf("covariance entry %d is %g, expected %g\\n", i, S.data()[i], c.data()[i]); return 1; } return 0; }
'''
