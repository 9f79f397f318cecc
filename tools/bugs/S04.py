prop="C06"; needs="a measurement without any uncertainty (deviation zero)"; breaks="a perfect measurement is ignored instead of replacing the estimate"
edits=[("src/tools/Numeric.hpp","    double gain = var / (var + m_var);\n","    double gain = m_var > 0 ? var / (var + m_var) : (var > 0 ? 0.0 : 0.5);\n")]
demo='''#include <cmath>
#include <cstdio>
using namespace std;
#include <envire/tools/Numeric.hpp>
int main() { double m = 1, s = 2; kalman_update(m, s, 5.0, 0.0); if(m != 5 || s != 0) { printf("mean %g deviation %g\\n", m, s); return 1; } return 0; }
'''
