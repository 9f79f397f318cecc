prop="C02"; needs="weighted samples with different weights and an EM step"; breaks="the mixture weights are normalised by the number of samples although the responsibilities are weighted, so they do not sum up to one"
edits=[("src/tools/ExpectationMaximization.hpp","weighted ? std::accumulate( weights.begin(), weights.end(), 0.0 ) : n;","weighted ? std::accumulate( weights.begin(), weights.end(), 0 ) : n;")]
demo='''#include <cassert>
#include <cmath>
#include <cstdio>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire;
int main() { typedef GaussianMixture<double,1> G; typedef G::Vector V; typedef G::Matrix M; ExpectationMaximization<G> em; V v; M I = M::Identity(); v[0] = 0; em.gmm.params.push_back(G::Parameter(0.5, v, I)); v[0] = 4; em.gmm.params.push_back(G::Parameter(0.5, v, I)); for(int i = 0; i < 10; i++) { v[0] = 0.5*i; em.samples.push_back(v); em.weights.push_back(0.5 + 0.25*(i % 4)); } em.step(); double s = 0; for(auto& p : em.gmm.params) s += p.weight; if(std::fabs(s - 1) > 1e-9) { printf("weights sum up to %g\\n", s); return 1; } return 0; }
'''
