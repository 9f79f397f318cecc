//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 12000
//@ thorough: 300000
// Persistence of multi-level surface grids: scenes, binary events, map streams of all format versions.
#include "mlsutil.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
using namespace mu;
namespace pbt { const char* RULE = "Multi-level surface grids of up to 8x8 cells and 40 patches (all types, ages up to the largest index, arbitrary values) and arbitrary configuration are saved with an environment and loaded, sent as binary events into an empty environment or over an older copy, and written to and read from map streams; streams of the four format versions are also put together from their documented records. Streams with a wrong header, version or record size, cells outside of the grid, a damaged header or a missing end must be refused or read without touching memory they do not own, with count, extents and content in agreement. Non-trivial: at least two patches."; }
namespace {
P any(Ctx& c) { P p = patch(c, MLSConfiguration::KALMAN, 5, true); if(c.chance(1, 4)) { P o = patch(c, MLSConfiguration::SUM, 5, false); p = P(Eigen::Vector3f(c.unit(), c.unit(), p.mean), p.stdev); std::copy(o.color, o.color + 3, p.color); p.merge(o, 1, 20, MLSConfiguration::SLOPE); } if(c.chance(1, 3)) p.update_idx = c.pick(std::vector<size_t>{~(size_t)0, 1u << 31, 12345678901ull}); if(c.chance(1, 5)) p.mean = c.pick(std::vector<float>{INFINITY, -INFINITY, 1e30f, 1e-30f, -0.0f}); return p; }
MLSGrid* make(Ctx& c) { MLSGrid* g = new MLSGrid(c.range(1, 8), c.range(1, 8), c.real(0.05, 2), c.real(0.05, 2), c.signedReal(5), c.signedReal(5)); size_t n = c.range(0, 40); for(size_t i = 0; i < n; i++) g->insertTail(c.draw(g->getCellSizeX()), c.draw(g->getCellSizeY()), any(c)); MLSConfiguration& k = g->getConfig(); k.useColor = c.boolean(); k.updateModel = c.pick(std::vector<MLSConfiguration::update_model>{MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE}); if(c.boolean()) { k.gapSize = c.real(0.05, 3); k.thickness = c.real(0.01, 1); } if(n >= 2) c.nontrivial(); c.note(fmt("grid %zux%zu with %zu patches, model %d color %d gap %g thickness %g", g->getCellSizeX(), g->getCellSizeY(), n, (int)k.updateModel, (int)k.useColor, k.gapSize, k.thickness)); return g; }
std::set<std::pair<int,int>> occupied(const Content& m, size_t ny) { std::set<std::pair<int,int>> s; for(size_t i = 0; i < m.size(); i++) if(!m[i].empty()) s.insert({(int)(i/ny), (int)(i%ny)}); return s; }
struct Snap { Content m; MLSConfiguration cfg; size_t nx, ny; double sx, sy, ox, oy; explicit Snap(const MLSGrid& g) : m(content(g)), cfg(g.getConfig()), nx(g.getCellSizeX()), ny(g.getCellSizeY()), sx(g.getScaleX()), sy(g.getScaleY()), ox(g.getOffsetX()), oy(g.getOffsetY()) {}
    void cmp(const MLSGrid* g, const std::string& w, bool conf = true) const { CHECK(g, w + " is missing"); CHECK(g->getCellSizeX() == nx && g->getCellSizeY() == ny, w + ": cells"); CHECK(g->getScaleX() == sx && g->getScaleY() == sy && g->getOffsetX() == ox && g->getOffsetY() == oy, w + ": geometry"); invariants(*g, m, occupied(m, ny), g->getIndex() != 0, w); if(conf) { CHECK_EQ((int)g->getConfig().updateModel, (int)cfg.updateModel, w + ": update model"); CHECK_EQ(g->getConfig().useColor, cfg.useColor, w + ": use of color"); CHECK_EQ(g->getConfig().gapSize, cfg.gapSize, w + ": gap size"); CHECK_EQ(g->getConfig().thickness, cfg.thickness, w + ": thickness"); } } };
}
PROP(scene, 2) {
    eu::Quiet q; std::string dir = scratchDir() + "/scene"; boost::filesystem::remove_all(dir); std::vector<Snap> s; { Environment env; size_t n = c.range(1, 3); for(size_t i = 0; i < n; i++) { MLSGrid* g = make(c); g->setUniqueId(fmt("/g%zu", i)); env.setFrameNode(g, env.getRootNode()); s.push_back(Snap(*g)); } env.serialize(dir); for(size_t i = 0; i < n; i++) s[i].cmp(env.getItem<MLSGrid>(fmt("/g%zu", i)).get(), "after saving, the grid"); }
    if(c.chance(1, 3)) { c.note("under the former class name"); c.label("former class name"); for(size_t i = 0; i < s.size(); i++) boost::filesystem::rename(dir + fmt("/envire::MLSGrid_g%zu.mls", i), dir + fmt("/envire::MultiLevelSurfaceGrid_g%zu.mls", i)); std::string f = dir + "/scene.yml", t; { std::ifstream is(f); t.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); } for(size_t p; (p = t.find("envire::MLSGrid")) != std::string::npos;) t.replace(p, 15, "envire::MultiLevelSurfaceGrid"); std::ofstream(f) << t; }
    { std::unique_ptr<Environment> l(Environment::unserialize(dir)); for(size_t i = 0; i < s.size(); i++) s[i].cmp(l->getItem<MLSGrid>(fmt("/g%zu", i)).get(), "the loaded grid"); } boost::filesystem::remove_all(dir);
}
PROP(events, 2) {
    eu::Quiet q; Environment a, b; MLSGrid* g = make(c); g->setUniqueId("/g"); a.setFrameNode(g, a.getRootNode()); std::vector<BinaryEvent> ev; a.pullEvents(ev, true); b.applyEvents(ev); MLSGrid* h = b.getItem<MLSGrid>("/g").get(); Snap(*g).cmp(h, "the transferred grid"); if(c.boolean()) { c.note("the receiver has an index"); h->initIndex(); } size_t n = c.draw(3);
    for(size_t i = 0; i < n; i++) { switch(c.draw(3)) { case 0: c.note("add patches"); for(int j = 0; j < 3; j++) g->insertHead(c.draw(g->getCellSizeX()), c.draw(g->getCellSizeY()), any(c)); break; case 1: c.note("clear"); g->clear(); break; default: { c.note("replace by another grid"); MLSGrid::Ptr o(make(c)); o->setUniqueId("/g"); *g = *o; } } g->itemModified(); ev.clear(); a.pullEvents(ev); b.applyEvents(ev); Snap(*g).cmp(b.getItem<MLSGrid>("/g").get(), "the updated grid"); }
}
namespace {
// records of the earlier format versions
struct R10 { double mean, stdev, height; bool horizontal; size_t idx; size_t x, y; };
struct R11 { double mean, stdev, height; bool horizontal; size_t idx; double color[3]; size_t x, y; };
struct R12 { float mean, stdev, height; bool horizontal; size_t idx; uint8_t color[3]; size_t x, y; };
struct R13 { float mean, stdev, height; numeric::PlaneFitting<float> plane; float min, max, n, normsq; size_t idx; uint8_t color[3]; int type; size_t x, y; };
template<class R> std::string stream(const char* ver, const std::vector<R>& v) { std::string s = std::string("mls\n") + ver + "\n" + str(sizeof(R)) + "\nbin\n"; for(auto& r : v) s.append((const char*)&r, sizeof r); return s; }
template<class R> void geom(Ctx& c, R& r, const P& p, size_t nx, size_t ny) { memset(&r, 0, sizeof r); r.mean = p.mean; r.stdev = p.stdev; r.height = p.height; r.idx = p.update_idx; r.x = c.draw(nx); r.y = c.draw(ny); }
void agree(const MLSGrid& g, const std::string& w) { Content m = content(g); CHECK_EQ(g.getCellCount(), count(m), w + ": number of patches"); auto e = g.getCellExtents(); for(size_t i = 0; i < m.size(); i++) if(!m[i].empty()) CHECK(e.contains(Eigen::Vector2i(i/g.getCellSizeY(), i%g.getCellSizeY())), w + ": extents"); }
}
PROP(streams, 2) {
    eu::Quiet q; MLSGrid::Ptr g(make(c)); Snap s(*g); std::stringstream ss; g->writeMap(ss); s.cmp(g.get(), "the written grid"); { MLSGrid h(s.nx, s.ny, s.sx, s.sy, s.ox, s.oy); std::stringstream in(ss.str()); h.readMap(in); s.cmp(&h, "the grid read from the stream", false); }
    // a stream of an older version, made of its records
    size_t n = c.range(0, 10), v = c.draw(4); Content m(s.nx*s.ny); std::string data; std::vector<R10> r10; std::vector<R11> r11; std::vector<R12> r12; std::vector<R13> r13; std::vector<std::pair<size_t, P>> exp;
    for(size_t i = 0; i < n; i++) { P p = any(c); if(v < 3 && p.isNegative()) p.setVertical(); bool hz = p.isHorizontal(); P e(p.mean, p.stdev, p.height, hz ? P::HORIZONTAL : P::VERTICAL); e.update_idx = p.update_idx; size_t at; if(v == 0) { R10 r; geom(c, r, p, s.nx, s.ny); r.horizontal = hz; r10.push_back(r); at = r.x*s.ny + r.y; } else if(v == 1) { R11 r; geom(c, r, p, s.nx, s.ny); r.horizontal = hz; for(int j = 0; j < 3; j++) r.color[j] = (p.color[j] + 0.25)/255; r11.push_back(r); at = r.x*s.ny + r.y; std::copy(p.color, p.color + 3, e.color); } else if(v == 2) { R12 r; geom(c, r, p, s.nx, s.ny); r.horizontal = hz; std::copy(p.color, p.color + 3, r.color); r12.push_back(r); at = r.x*s.ny + r.y; std::copy(p.color, p.color + 3, e.color); } else { R13 r; geom(c, r, p, s.nx, s.ny); r.plane = p.plane; r.min = p.min; r.max = p.max; r.n = p.n; r.normsq = p.normsq; std::copy(p.color, p.color + 3, r.color); r.type = typeOf(p); r13.push_back(r); at = r.x*s.ny + r.y; e = p; } m[at].push_back(e); }
    std::string d = v == 0 ? stream("1.0", r10) : v == 1 ? stream("1.1", r11) : v == 2 ? stream("1.2", r12) : stream("1.3", r13); c.note(fmt("stream of version 1.%zu with %zu records", v, n)); c.label(fmt("version 1.%zu", v)); { MLSGrid h(s.nx, s.ny, 1, 1); std::stringstream in(d); h.readMap(in); invariants(h, m, occupied(m, s.ny), false, fmt("grid read from a stream of version 1.%zu", v)); }
    // streams that do not fit
    { MLSGrid h(s.nx, s.ny, 1, 1); std::string b; switch(c.draw(5)) { case 0: b = "mlx" + d.substr(3); break; case 1: b = "mls\n" + c.pick(std::vector<std::string>{"1.4", "2.0", "", "0.9", "1.30"}) + d.substr(7); break; case 2: b = d; b.insert(8, "1"); break; case 3: b = d; b[b.find("bin")] = 'x'; break; default: b = d.substr(0, c.draw(8)); } std::stringstream in(b); CHECK_THROWS(h.readMap(in), "a stream with a bad header was read"); CHECK(h.empty(), "a refused stream left patches"); }
    if(n) { // a cell outside of the grid
        bool big = c.boolean(); size_t o = big ? c.pick(std::vector<size_t>{~(size_t)0, (size_t)1 << 40, 1000000}) : c.draw(3), k = c.draw(n), hd = d.find("bin\n") + 4, rs = (d.size() - hd)/n; bool xx = c.boolean(); size_t val = big ? o : (xx ? s.nx : s.ny) + o; std::string b = d; memcpy(&b[hd + (k + 1)*rs - (xx ? 16 : 8)], &val, 8); c.note(fmt("record %zu has %s = %zu", k, xx ? "x" : "y", val)); MLSGrid h(s.nx, s.ny, 1, 1); std::stringstream in(b); CHECK_THROWS(h.readMap(in), "a stream with a cell outside of the grid was read"); agree(h, "after a refused stream"); }
    { std::string b = d; size_t hd = d.find("bin\n") + 4, k = c.range(1, 3); if(c.boolean()) { c.note("cut off"); b.resize(c.draw(b.size() + 1)); } else for(size_t i = 0; i < k; i++) b[c.draw(hd)] ^= 1 << c.draw(8); MLSGrid h(s.nx, s.ny, 1, 1); std::stringstream in(b); try { h.readMap(in); c.label("mutation read"); } catch(const std::exception&) { c.label("mutation refused"); } agree(h, "after a mutated stream"); }
}
