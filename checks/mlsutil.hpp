// Multi-level surface grids: generated patches and the full content of a grid.
#ifndef VP_MLSUTIL_HPP
#define VP_MLSUTIL_HPP
#include "envutil.hpp"
#include <envire/maps/MLSGrid.hpp>
#include <memory>
namespace mu {
using namespace envire; using namespace pbt; typedef SurfacePatch P; typedef GridBase::Position Pos;
struct Open : public SurfacePatch { Open(const SurfacePatch& p) : SurfacePatch(p) {} int t() const { return (int)type; } };
inline int typeOf(const P& p) { return Open(p).t(); }
inline std::string show(const P& p) { return fmt("%s top %g height %g stdev %g range %g..%g n %g weight %g idx %zu color %d %d %d", p.isHorizontal() ? "surface" : p.isVertical() ? "block" : p.isNegative() ? "free" : "?", p.mean, p.height, p.stdev, p.min, p.max, p.n, p.plane.n, p.update_idx, p.color[0], p.color[1], p.color[2]); }
inline bool eqf(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }
inline bool same(const P& a, const P& b) { auto &p = a.plane, &q = b.plane; return eqf(a.mean, b.mean) && eqf(a.stdev, b.stdev) && eqf(a.height, b.height) && eqf(a.min, b.min) && eqf(a.max, b.max) && eqf(a.n, b.n) && eqf(a.normsq, b.normsq) && a.update_idx == b.update_idx && std::equal(a.color, a.color + 3, b.color) && typeOf(a) == typeOf(b) && eqf(p.x, q.x) && eqf(p.y, q.y) && eqf(p.z, q.z) && eqf(p.xx, q.xx) && eqf(p.yy, q.yy) && eqf(p.xy, q.xy) && eqf(p.xz, q.xz) && eqf(p.yz, q.yz) && eqf(p.zz, q.zz) && eqf(p.n, q.n); }
typedef std::vector<P> Cell; typedef std::vector<Cell> Content;      // cell x*ny+y
inline Cell cell(const MLSGrid& g, size_t x, size_t y) { Cell v; for(MLSGrid::const_iterator it = g.beginCell(x, y); it != g.endCell(); it++) v.push_back(*it); return v; }
inline Cell cell(MLSGrid& g, size_t x, size_t y) { Cell v; for(MLSGrid::iterator it = g.beginCell(x, y); it != g.endCell(); it++) v.push_back(*it); return v; }
inline Content content(const MLSGrid& g) { Content v; for(size_t x = 0; x < g.getCellSizeX(); x++) for(size_t y = 0; y < g.getCellSizeY(); y++) v.push_back(cell(g, x, y)); return v; }
inline bool sameCell(const Cell& a, const Cell& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!same(a[i], b[i])) return false; return true; }
inline std::string show(const Cell& v) { std::string s = fmt("%zu patches", v.size()); for(auto& p : v) s += "\n   " + show(p); return s; }
inline void cmp(const Content& a, const Content& b, size_t ny, const std::string& w) { CHECK_EQ(a.size(), b.size(), w + ": number of cells"); for(size_t i = 0; i < a.size(); i++) if(!sameCell(a[i], b[i])) FAIL(w + fmt(": cell %zu %zu has ", i/ny, i%ny) + show(a[i]) + "\n instead of " + show(b[i])); }
inline size_t count(const Content& a) { size_t n = 0; for(auto& v : a) n += v.size(); return n; }
inline P patch(Ctx& c, MLSConfiguration::update_model m, double z, bool neg) { P::TYPE t = m != MLSConfiguration::KALMAN ? P::HORIZONTAL : neg ? c.pick(std::vector<P::TYPE>{P::HORIZONTAL, P::VERTICAL, P::NEGATIVE}) : c.chance(1, 3) ? P::VERTICAL : P::HORIZONTAL; P p(c.boolean() ? c.rangeC(-10, 10)*z/10 : c.signedReal(z), c.real(0.02, 0.3), t == P::HORIZONTAL ? 0.0 : c.real(0.05, 1.5), t); for(int i = 0; i < 3; i++) p.color[i] = c.draw(256); p.update_idx = c.draw(4); return p; }
// what must hold of a grid at any time; used: every cell that had content since the grid was last cleared
inline void invariants(const MLSGrid& g, const Content& m, const std::set<std::pair<int, int>>& used, bool indexed, const std::string& w) {
    size_t ny = g.getCellSizeY(); cmp(content(g), m, ny, w); CHECK_EQ(g.getCellCount(), count(m), w + ": number of patches"); CHECK_EQ(g.empty(), count(m) == 0, w + ": empty");
    auto e = g.getCellExtents(); for(size_t i = 0; i < m.size(); i++) if(!m[i].empty()) CHECK(e.contains(Eigen::Vector2i(i/ny, i%ny)), w + fmt(": cell %zu %zu has patches, but is not within the extents", i/ny, i%ny));
    if(used.empty()) CHECK(e.min() == Eigen::Vector2i(0, 0) && e.max() == Eigen::Vector2i(0, 0), w + ": extents of a grid without content"); else { Eigen::AlignedBox<int, 2> b; for(auto& u : used) b.extend(Eigen::Vector2i(u.first, u.second)); if(count(m) == 0) b.extend(Eigen::Vector2i(0, 0)); CHECK(b.contains(e), w + ": the extents reach beyond the cells that were used"); }
    CHECK_EQ(g.getIndex() != 0, indexed, w + ": presence of an index"); if(indexed) { std::set<std::pair<int, int>> ix; for(auto& p : g.getIndex()->cells) ix.insert({(int)p.x, (int)p.y}); for(size_t i = 0; i < m.size(); i++) if(!m[i].empty()) CHECK(ix.count({(int)(i/ny), (int)(i%ny)}), w + fmt(": cell %zu %zu has patches, but is not in the index", i/ny, i%ny)); for(auto& p : ix) CHECK(used.count(p), w + fmt(": cell %d %d is in the index, but was never used", p.first, p.second)); } }
}
#endif
