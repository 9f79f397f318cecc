prop="C02"; needs="two components losing all their responsibility in the same EM step"; breaks="removing several empty components deletes the wrong ones, so a component that explains samples is dropped"
edits=[("src/tools/ExpectationMaximization.hpp","for( std::vector<size_t>::reverse_iterator it = remove.rbegin(); it != remove.rend(); it++ )","for( std::vector<size_t>::iterator it = remove.begin(); it != remove.end() && *it < gmm.params.size(); it++ )")]
demo='''#include <cassert>
#include <cmath>
#include <cstdio>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire;
int main() { typedef GaussianMixture<double,1> G; typedef G::Vector V; typedef G::Matrix M; ExpectationMaximization<G> em; M I = M::Identity(); V v; double at[] = {0, 1000, 2000, 3}; for(double x : at) { v[0] = x; em.gmm.params.push_back(G::Parameter(0.25, v, I)); } for(int i = 0; i < 20; i++) { v[0] = (i % 2 ? 3 : 0) + 0.01*i; em.samples.push_back(v); } em.step(); if(em.gmm.params.size() != 2) { printf("%zu components\\n", em.gmm.params.size()); return 1; } for(auto& p : em.gmm.params) if(!(p.weight > 0.1) || !(p.dist.mean[0] < 10)) { printf("component of weight %g at %g\\n", p.weight, p.dist.mean[0]); return 1; } return 0; }
'''
