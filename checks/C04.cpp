//@ quick: 250000
//@ thorough: 8000000
// Per-cell list grid against a model of nested lists.
#include "pbt.hpp"
#include <envire/tools/ListGrid.hpp>
#include <list>
#include <memory>
using namespace pbt;
namespace pbt { const char* RULE = "A case is a history of 1-120 operations (insert at head/tail, erase at any position through the iterator, move by any offset, clear, resize, copy-construct, assign, self-assign) on up to three grids of 1x1 to 9x9 cells, compared cell by cell with nested lists after each operation; non-trivial when the history stored at least 3 elements and did at least one move, copy or erase while the grid was non-empty."; }

namespace {
struct Elem { int id; double w; Elem() : id(0), w(0) {} Elem(int i) : id(i), w(i*0.5) {} };
// an element that owns memory: default-constructible to all zeros, so that the grid's raw storage would not do; not used
typedef envire::ListGrid<Elem> G;
struct M { size_t sx, sy; std::vector<std::list<int>> c; M(size_t x = 0, size_t y = 0) : sx(x), sy(y), c(x*y) {} std::list<int>& at(size_t x, size_t y) { return c[x*sy + y]; } size_t count() const { size_t n = 0; for(auto& l : c) n += l.size(); return n; } };
struct P { std::unique_ptr<G> g; M m; };

void compare(P& p, const char* op) {
    const G& cg = *p.g;
    for(size_t x = 0; x < p.m.sx; x++) for(size_t y = 0; y < p.m.sy; y++) {
        auto& l = p.m.at(x, y); auto it = l.begin(); size_t k = 0;
        for(G::const_iterator gi = cg.beginCell(x, y); gi != cg.endCell(); gi++, it++, k++) {
            CHECK(it != l.end(), fmt("after %s: cell (%zu,%zu) has more than the %zu elements stored", op, x, y, l.size()));
            CHECK(gi->id == *it && gi->w == *it*0.5, fmt("after %s: cell (%zu,%zu) element %zu is %d, expected %d", op, x, y, k, gi->id, *it));
        }
        CHECK(it == l.end(), fmt("after %s: cell (%zu,%zu) has %zu elements, expected %zu", op, x, y, k, l.size()));
        k = 0; for(G::iterator gi = p.g->beginCell(x, y); gi != p.g->endCell(); ++gi) k++;
        CHECK_EQ(k, l.size(), fmt("after %s: mutable iteration of cell (%zu,%zu)", op, x, y));
    }
}
}

PROP(history, 1) {
    std::vector<P> ps; int next = 1; bool active = false; int stored = 0;
    size_t sx = c.range(1, 9), sy = c.range(1, 9);
    ps.emplace_back(); ps[0].g.reset(new G(sx, sy)); ps[0].m = M(sx, sy);
    c.note(fmt("grid 0: %zux%zu", sx, sy));
    size_t n = c.size(1, 120);
    for(size_t i = 0; i < n; i++) {
        size_t gi = c.draw(ps.size()); P& p = ps[gi]; std::string op;
        size_t x = c.draw(p.m.sx), y = c.draw(p.m.sy);
        switch(c.weighted({10, 10, 10, 4, 1, 1, 2, 2, 1})) {
        case 0: p.g->insertHead(x, y, Elem(next)); p.m.at(x, y).push_front(next++); stored++; op = fmt("insertHead(%zu,%zu)", x, y); break;
        case 1: p.g->insertTail(x, y, Elem(next)); p.m.at(x, y).push_back(next++); stored++; op = fmt("insertTail(%zu,%zu)", x, y); break;
        case 2: {
            // prefer an occupied cell
            std::vector<std::pair<size_t,size_t>> occ; for(size_t a = 0; a < p.m.sx; a++) for(size_t b = 0; b < p.m.sy; b++) if(!p.m.at(a, b).empty()) occ.push_back({a, b});
            if(occ.empty()) continue;
            auto xy = occ[c.draw(occ.size())]; auto& l = p.m.at(xy.first, xy.second); size_t k = c.draw(l.size());
            G::iterator it = p.g->beginCell(xy.first, xy.second); auto li = l.begin(); for(size_t j = 0; j < k; j++) { ++it; ++li; }
            CHECK(it != p.g->endCell(), "iterator ended early");
            CHECK_EQ(it->id, *li, "element before erase");
            G::iterator r = p.g->erase(it); li = l.erase(li);
            CHECK((r == p.g->endCell()) == (li == l.end()), "iterator returned by erase is at the end exactly when the last element was erased");
            if(li != l.end()) CHECK_EQ(r->id, *li, "iterator returned by erase");
            op = fmt("erase(%zu,%zu)#%zu", xy.first, xy.second, k); active = true; c.label("erase"); break; }
        case 3: {
            int dx = c.rangeC(-(int)p.m.sx - 1, p.m.sx + 1), dy = c.rangeC(-(int)p.m.sy - 1, p.m.sy + 1);
            if(c.chance(1, 2)) { dx %= 3; dy %= 3; }
            if(p.m.count()) { active = true; c.label("move"); }
            p.g->move(dx, dy); M m2(p.m.sx, p.m.sy);
            for(int a = 0; a < (int)p.m.sx; a++) for(int b = 0; b < (int)p.m.sy; b++) { int na = a + dx, nb = b + dy; if(na >= 0 && nb >= 0 && na < (int)p.m.sx && nb < (int)p.m.sy) m2.at(na, nb) = p.m.at(a, b); }
            p.m = m2; op = fmt("move(%d,%d)", dx, dy); break; }
        case 4: p.g->clear(); for(auto& l : p.m.c) l.clear(); op = "clear"; break;
        case 5: { size_t a = c.range(1, 9), b = c.range(1, 9); p.g->resize(a, b); p.m = M(a, b); op = fmt("resize(%zu,%zu)", a, b); break; }
        case 6: { // copy construction
            if(p.m.count()) { active = true; c.label("copy"); }
            P q; q.g.reset(new G(*p.g)); q.m = p.m; op = "copy-construct";
            if(ps.size() < 3) { ps.push_back(std::move(q)); } else { ps[c.draw(ps.size())] = std::move(q); }
            break; }
        case 7: { size_t o = c.draw(ps.size()); if(ps[o].m.count()) { active = true; c.label("assign"); } *ps[gi].g = *ps[o].g; if(o != gi) ps[gi].m = ps[o].m; op = fmt("grid %zu = grid %zu", gi, o); break; }
        case 8: { G e; *p.g = e; p.m = M(0, 0); P q; q.g.reset(new G(3, 2)); q.m = M(3, 2); *p.g = *q.g; p.m = q.m; op = "assign empty"; break; }
        }
        c.note(fmt("grid %zu: %s", gi, op.c_str()));
        for(auto& q : ps) compare(q, op.c_str());
    }
    if(stored >= 3 && active) c.nontrivial();
}
