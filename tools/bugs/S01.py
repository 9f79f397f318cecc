prop="C04"; needs="erasing the head of a cell's list whose successor is the last element, then erasing that successor"; breaks="the last element keeps a back reference into the freed node, so it is not removed from its cell when it is erased"
edits=[("src/tools/ListGrid.hpp","	if( p->next )\n	    p->next->pthis = p->pthis; ","	if( p->next && p->next->next )\n	    p->next->pthis = p->pthis; ")]
demo='''#include <cassert>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <envire/tools/ListGrid.hpp>
struct E { int v; };
int main() { envire::ListGrid<E> g(2, 2); E a = {1}, b = {2}; g.insertTail(0, 1, a); g.insertTail(0, 1, b); g.erase(g.beginCell(0, 1)); if(g.beginCell(0, 1) == g.endCell() || g.beginCell(0, 1)->v != 2) { puts("wrong element left"); return 1; } g.erase(g.beginCell(0, 1)); if(g.beginCell(0, 1) != g.endCell()) { puts("the cell is not empty"); return 1; } return 0; }
'''
