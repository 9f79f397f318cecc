prop="C05"; src="src/tools/BoxLookUpTable.cpp"; needs="a reconfiguration that changes only the length of the box in y, after an earlier one"; breaks="the table is not recomputed and answers with the distances of the old box"
edits=[("src/tools/BoxLookUpTable.cpp","        && (fabs(sizeYi - sizeY) < epsilon) \n","        && (sizeYi - sizeY < epsilon) \n")]
demo='''#include <cstdio>
#include <cmath>
#include <envire/tools/BoxLookUpTable.hpp>
int main() { envire::BoxLookUpTable t; t.recompute(0.1, 1, 2, 1); t.recompute(0.1, 1, 1, 1); double d = t.getDistanceToBox(0.05, 0.95); if(std::fabs(d - 0.45) > 0.15) { printf("distance %g, expected 0.45\\n", d); return 1; } return 0; }
'''
