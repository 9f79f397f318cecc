//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/maps/MLSGrid.cpp src/maps/LaserScan.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 24000
//@ thorough: 700000
// Damaged scenes, events and map data: refused with an exception or read as something consistent.
#include "envhist.hpp"
#include "mlsutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/maps/LaserScan.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
using namespace pbt; using namespace envire; using namespace eh;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Scenes grown by random histories of up to 20 operations, with grids, multi-level surface grids and scans, and the binary events of such histories are damaged one to four times: values replaced by those of other lines, by wrong types, absurd numbers, sequences and mappings, keys, lines and byte ranges removed, repeated, swapped and changed, text cut off, map data missing, cut off and changed, ids, classes and types of events exchanged. Oracle: reading ends with an exception derived from std::exception, or with an environment whose relations are those of a frame tree with a root and of attached items, and which can be saved and loaded again unchanged; a refused event leaves the environment as it was, and the next sound event is applied; band data that is too short and files that end within a record are refused. Sanitizers and a time limit watch every case. Non-trivial: the damage was refused, or changed what was read."; }
namespace {
std::string slurp(const std::string& f) { std::ifstream is(f); return std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); }
void spill(const std::string& f, const std::string& t) { std::ofstream os(f); os.write(t.data(), t.size()); }
std::vector<std::string> linesOf(const std::string& s) { std::vector<std::string> v; std::string l; for(char ch : s) { l += ch; if(ch == '\n') { v.push_back(l); l.clear(); } } if(!l.empty()) v.push_back(l); return v; }
std::string join(const std::vector<std::string>& v) { std::string s; for(auto& l : v) s += l; return s; }
size_t valueAt(const std::string& l) { size_t p = l.find(": "); return p == std::string::npos ? p : p + 2; }
bool isLink(const std::string& l) { static const char* k[] = {"child: ", "parent: ", "operator: ", "layer: ", "map: ", "node: "}; for(auto x : k) if(l.find(x) != std::string::npos) return true; return false; }
std::string odd(Ctx& c) { static const char* v[] = {"", "''", "abc", "-1", "0", "1", "3", "7", "1e300", "nan", "-inf", "5000000000000", "99999999999999999999999", "/0", "/", "/0/0", "FrameNode", "envire::FrameNode", "envire::VpLayer", "envire::VpMap3", "envire::VpOp", "envire::MLSGrid", "envire::LaserScan", "frameNodeTree", "layerTree", "[]", "[1, 2]", "[a, b, c]", "{}", "{a: b}", "[1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]", "[1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 2, 3]", "[1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, {}]", "~", "*x", "&x", "!!int", "\"", "'", "|", "\"\\0\"", "- -"}; return v[c.draw(sizeof v/sizeof *v)]; }
std::string damageBytes(Ctx& c, std::string s) {
    if(s.empty()) return std::string(1, (char)c.draw(256)); size_t p = c.draw(s.size()), n = 1 + c.draw(20);
    switch(c.draw(5)) { case 0: s[p] = c.boolean() ? (char)c.draw(256) : " :-[]{}'\"\n#&*!|>%@`,0"[c.draw(22)]; break; case 1: s.erase(p, n); break; case 2: s.insert(p, s.substr(c.draw(s.size()), n)); break; case 3: s.resize(p); break; default: s[p] ^= 1 << c.draw(8); }
    return s; }
std::string damageText(Ctx& c, const std::string& s) {
    std::vector<std::string> v = linesOf(s); if(v.empty()) return damageBytes(c, s); std::vector<size_t> vals, links; for(size_t i = 0; i < v.size(); i++) if(valueAt(v[i]) != std::string::npos) { vals.push_back(i); if(isLink(v[i])) links.push_back(i); } size_t i = c.draw(v.size()), j = c.draw(v.size());
    switch(c.weighted({6, 6, 5, 2, 2, 2, 2, 3})) {
    case 0: if(!vals.empty()) { i = c.pick(vals); size_t p = valueAt(v[i]); v[i] = v[i].substr(0, p) + odd(c) + "\n"; c.note("value: " + v[i]); } break;
    case 1: if(!vals.empty()) { i = c.pick(vals); j = c.pick(vals); v[i] = v[i].substr(0, valueAt(v[i])) + v[j].substr(valueAt(v[j])); c.note("value of another line: " + v[i]); } break;
    case 2: if(!links.empty()) { i = c.pick(links); j = c.pick(links); v[i] = v[i].substr(0, valueAt(v[i])) + v[j].substr(valueAt(v[j])); c.note("link: " + v[i]); } break;
    case 3: c.note("removed: " + v[i]); v.erase(v.begin() + i); break;
    case 4: c.note("repeated: " + v[i]); v.insert(v.begin() + j, v[i]); break;
    case 5: { std::swap(v[i], v[j]); c.note("swapped: " + v[i] + v[j]); break; }
    case 6: { // a block of lines
        size_t n = 1 + c.draw(6); n = std::min(n, v.size() - i); std::vector<std::string> b(v.begin() + i, v.begin() + i + n); if(c.boolean()) { c.note("block removed: " + join(b)); v.erase(v.begin() + i, v.begin() + i + n); } else { c.note("block repeated: " + join(b)); v.insert(v.begin() + j, b.begin(), b.end()); } break; }
    default: { std::string t = damageBytes(c, s); c.note(fmt("bytes, %zu instead of %zu", t.size(), s.size())); return t; } }
    return join(v); }
// sizes which are sound, but too large for a test
bool tooBig(const std::string& s) { for(auto& l : linesOf(s)) { if(l.find("ellSize") == std::string::npos && l.find("width") == std::string::npos && l.find("height") == std::string::npos) continue; size_t n = 0; for(char ch : l) { if(isdigit(ch)) n++; else { if(n > 3 && n < 12) return true; n = 0; } } if(n > 3 && n < 12) return true; } return false; }
// what holds of every environment
std::string consistent(Environment& e) {
    auto all = e.getItems<EI>(); std::set<EI*> in(all.begin(), all.end()); FrameNode* r = e.getRootNode(); if(!r || !in.count(r)) return "the root is not an item"; for(auto i : all) { if(i->getEnvironment() != &e) return "an item does not know its environment"; if(e.getItem(i->getUniqueId()).get() != i) return "an item is not found by its id " + i->getUniqueId(); }
    for(auto f : e.getItems<FrameNode>()) { size_t n = 0; for(FrameNode* p = f; p; p = p->getParent()) { if(!in.count(p)) return "parent is not an item"; if(++n > all.size()) return "frame " + f->getUniqueId() + " is below itself"; } if(f->getParent()) { auto ch = f->getParent()->getChildren(); if(std::count(ch.begin(), ch.end(), f) != 1) return "a parent does not know its child once"; } }
    for(auto l : e.getItems<Layer>()) { std::set<Layer*> s; for(auto p : e.getParents(l)) { if(!in.count(p)) return "parent of a layer is not an item"; if(p == l) return "layer " + l->getUniqueId() + " is its own parent"; if(!s.insert(p).second) return "layer relation twice"; } if(l->isGenerated() && !in.count(l->getGenerator())) return "generator is not an item"; }
    for(auto m : e.getItems<CartesianMap>()) if(m->getFrameNode() && !in.count(m->getFrameNode())) return "frame of a map is not an item";
    for(auto o : e.getItems<Operator>()) { std::set<Layer*> s, t; for(auto l : e.getInputs(o)) if(!in.count(l) || !s.insert(l).second) return "input is not an item or there twice"; for(auto l : e.getOutputs(o)) if(!in.count(l) || !t.insert(l).second) return "output is not an item or there twice"; }
    for(auto g : e.getItems<MLSGrid>()) { mu::Content m = mu::content(*g); if(m.size() != g->getCellSizeX()*g->getCellSizeY()) return "cells of an MLS"; if(g->getCellCount() != mu::count(m)) return "number of patches"; }
    for(auto s : e.getItems<LaserScan>()) { size_t n = 0; for(auto& l : s->lines) n += l.ranges.size() + l.remissions.size(); (void)n; }
    for(auto g : e.getItems<Grid<double> >()) for(auto& b : g->getBands()) if(g->hasBand(b)) { auto& a = g->getGridData(b); if(a.shape()[0] != g->getCellSizeY() || a.shape()[1] != g->getCellSizeX()) return "size of a band"; }
    return ""; }
MLSGrid* makeMLS(Ctx& c) { MLSGrid* g = new MLSGrid(c.range(1, 4), c.range(1, 4), 0.5, 0.25); MLSConfiguration& k = g->getConfig(); k.updateModel = c.pick(std::vector<MLSConfiguration::update_model>{MLSConfiguration::KALMAN, MLSConfiguration::SUM, MLSConfiguration::SLOPE}); for(size_t i = 0, n = c.draw(6); i < n; i++) g->insertTail(c.draw(g->getCellSizeX()), c.draw(g->getCellSizeY()), mu::patch(c, MLSConfiguration::KALMAN, 5, true)); return g; }
LaserScan* makeScan(Ctx& c) { LaserScan* s = new LaserScan(); for(size_t i = 0, n = c.draw(4); i < n; i++) { LaserScan::scanline_t l; l.delta_phi = i*0.1; for(size_t j = 0, m = c.draw(5); j < m; j++) { l.ranges.push_back(c.draw(5000)); l.remissions.push_back(c.draw(100)); } s->lines.push_back(l); } return s; }
ElevationGrid* makeElev(Ctx& c) { ElevationGrid* g = new ElevationGrid(c.range(1, 4), c.range(1, 4), 0.5, 0.25); auto& d = g->getGridData(ElevationGrid::ELEVATION); for(size_t i = 0; i < d.num_elements(); i++) d.data()[i] = c.signedReal(9); return g; }
TraversabilityGrid* makeTrav(Ctx& c) { TraversabilityGrid* g = new TraversabilityGrid(c.range(1, 4), c.range(1, 4), 0.5, 0.25); for(size_t i = 0, n = c.draw(4); i < n; i++) g->setTraversabilityClass(i, TraversabilityClass(c.unit())); g->getGridData(TraversabilityGrid::TRAVERSABILITY); return g; }
CartesianMap* makeMap(Ctx& c, int k) { switch(k) { case 0: return makeMLS(c); case 1: return makeScan(c); case 2: return makeElev(c); default: return makeTrav(c); } }
void maps(Ctx& c, Environment& e) { for(size_t i = 0, n = c.draw(4); i < n; i++) { CartesianMap* m = makeMap(c, c.draw(4)); m->setUniqueId(fmt("/map%zu", i)); e.setFrameNode(m, e.getRootNode()); } }
// map files of different items can only be told apart if their names differ (see known-findings.txt)
bool namesClash(const Snap& s) { std::set<std::string> n; for(auto& i : s.items) { std::string k = i.second.cls + i.first; for(auto& ch : k) if(ch == '/') ch = '_'; if(!n.insert(k).second) return true; } return false; }
// a stream that is no longer a copy of a member of the class is not compared: maps the shim of the raster library can not name
void reload(Ctx& c, Environment& e, const std::string& dir) {
    Snap a = snapshot(e); if(namesClash(a)) return; bool raster = false; for(auto g : e.getItems<GridBase>()) if(!g->getCellSizeX() || !g->getCellSizeY()) raster = true; if(raster) return; for(auto& i : a.items) if(i.first.size() > 100) return;
    boost::filesystem::remove_all(dir); e.serialize(dir); std::unique_ptr<Environment> l(Environment::unserialize(dir)); Snap b = snapshot(*l); std::string d = diff(a, b, true); CHECK(d.empty(), "what was read from damaged data is not what is read after saving it: " + d); CHECK_EQ(b.root, a.root, "root after saving"); (void)c; }
}
PROP(scene, 4) {
    eu::Quiet q; std::string dir = scratchDir() + "/scene", again = scratchDir() + "/again"; boost::filesystem::remove_all(dir); Snap before; { Environment e; Hist h(c, e, ""); h.ops = true; h.richText = c.chance(1, 4); size_t n = c.size(1, 20); for(size_t i = 0; i < n; i++) h.step(); h.kept.clear(); maps(c, e); before = snapshot(e); e.serialize(dir); }
    std::string f = dir + "/scene.yml", t = slurp(f), was = t; bool data = false; for(size_t i = 0, n = c.range(1, 4); i < n; i++) {
        if(c.chance(1, 6)) { std::vector<std::string> files; for(boost::filesystem::directory_iterator it(dir), end; it != end; ++it) if(it->path().filename() != "scene.yml") files.push_back(it->path().string()); std::sort(files.begin(), files.end()); if(files.empty()) continue; std::string g = c.pick(files); data = true; switch(c.draw(3)) { case 0: c.note("without " + g.substr(dir.size())); boost::filesystem::remove(g); break; case 1: c.note("directory " + g.substr(dir.size())); boost::filesystem::remove_all(g); boost::filesystem::create_directory(g); break; default: if(boost::filesystem::is_directory(g) || g.find(".tif") != std::string::npos) break; /* raster files are read by the raster library */ { std::string d = slurp(g); spill(g, damageBytes(c, d)); c.note("damaged " + g.substr(dir.size())); } } }
        else t = damageText(c, t); }
    if(tooBig(t)) c.discard(); spill(f, t); if(c.isRendering()) c.note("--- scene.yml\n" + t + "---"); std::unique_ptr<Environment> l; try { l.reset(Environment::unserialize(dir)); } catch(const std::exception& x) { c.note(std::string("refused: ") + x.what()); c.label("refused"); c.nontrivial(); }
    if(l) { std::string d = consistent(*l); CHECK(d.empty(), "the environment read from a damaged scene is not consistent: " + d); if(t != was || data) { c.label("read"); if(!diff(before, snapshot(*l), true).empty()) { c.label("read differently"); c.nontrivial(); } } reload(c, *l, again); FrameNode* n = new FrameNode(); l->addChild(l->getRootNode(), n); CHECK(n->getParent() == l->getRootNode(), "the environment can not grow"); }
}
PROP(events, 4) {
    eu::Quiet q; Environment a; Hist h(c, a, ""); h.richText = c.chance(1, 4); maps(c, a); a.pullEvents(*std::unique_ptr<std::vector<BinaryEvent> >(new std::vector<BinaryEvent>())); std::vector<BinaryEvent> ev, all; size_t n = c.size(1, 20); for(size_t i = 0; i < n; i++) { h.step(); if(c.chance(1, 3)) { ev.clear(); a.pullEvents(ev); all.insert(all.end(), ev.begin(), ev.end()); } } if(c.boolean()) { ev.clear(); a.pullEvents(ev, true); all.insert(all.begin(), ev.begin(), ev.end()); } else { ev.clear(); a.pullEvents(ev); all.insert(all.end(), ev.begin(), ev.end()); } h.kept.clear();
    Environment b; Mirror mb; b.addEventHandler(&mb); BinarySerialization so; Serialization plain; std::vector<std::string> ids; for(auto& e : all) { ids.push_back(e.id_a); ids.push_back(e.id_b); } bool refused = false;
    for(size_t i = 0; i < all.size(); i++) {
        BinaryEvent e(all[i]); bool hurt = c.chance(1, 4); if(hurt) { switch(c.draw(8)) { case 0: e.id_a = c.pick(ids); break; case 1: e.id_b = c.pick(ids); break; case 2: e.type = (event::Type)c.draw(5); break; case 3: e.operation = (event::Operation)c.draw(3); break; case 4: e.className = c.boolean() ? c.pick(all).className : odd(c); break; case 5: if(e.binaryStreams.empty()) break; { auto& s = e.binaryStreams[c.draw(e.binaryStreams.size())]; std::string d = damageBytes(c, std::string(s.begin(), s.end())); s.assign(d.begin(), d.end()); if(c.chance(1, 4)) e.binaryStreams.pop_back(); else if(c.chance(1, 4)) e.binaryStreamNames.pop_back(); else if(c.chance(1, 4)) { e.binaryStreamNames.push_back(e.binaryStreamNames[0]); e.binaryStreams.push_back(e.binaryStreams[0]); } } break; default: { std::string y(e.yamlProperties.begin(), e.yamlProperties.end()); y = damageText(c, y); e.yamlProperties.assign(y.begin(), y.end()); if(tooBig(y)) c.discard(); } } }
        if(c.isRendering()) c.note(fmt("%s type %d operation %d class '%s' a '%s' b '%s'", hurt ? "damaged" : "event", e.type, e.operation, e.className.c_str(), e.id_a.c_str(), e.id_b.c_str()) + (hurt ? "\n" + std::string(e.yamlProperties.begin(), e.yamlProperties.end()) : "")); Snap s0 = snapshot(b);
        try { if(c.chance(1, 5)) b.applyEvents(std::vector<BinaryEvent>(1, e)); else so.applyEvent(&b, e); } catch(const std::exception& x) { c.note(std::string("refused: ") + x.what()); Snap s1 = snapshot(b); std::string d = diff(s0, s1, true); CHECK(d.empty(), "a refused event changed the environment: " + d); if(hurt) { c.label("refused"); c.nontrivial(); refused = true; } else CHECK(e.type != event::ITEM || e.operation == event::REMOVE || b.getItem(e.id_a) == 0, std::string("a sound item was refused: ") + x.what()); }
        std::string d = consistent(b); CHECK(d.empty(), "the environment is not consistent after " + std::string(hurt ? "a damaged" : "an") + " event: " + d); mb.check(b);
        if(!hurt && e.type == event::ITEM && e.operation == event::ADD) CHECK(b.getItem(e.id_a), "a sound item is missing: " + e.id_a); if(hurt && !refused) c.label("applied"); }
    // in the end everything is sent again
    ev.clear(); if(a.getItems<EI>().size()) { a.pullEvents(ev, true); for(auto& e : ev) if(e.type == event::ITEM && b.getItem(e.id_a) && b.getItem(e.id_a)->getClassName() != e.className) { b.removeEventHandler(&mb); return; } try { b.applyEvents(ev); } catch(const std::exception& x) { FAIL(std::string("sound events are refused after damaged ones: ") + x.what()); } Snap s = snapshot(a), r = snapshot(b); for(auto& i : s.items) { CHECK(r.items.count(i.first), "an item sent again is missing: " + i.first); CHECK(r.items[i.first] == i.second, "an item sent again differs: " + i.first); } for(auto& i : s.parent) CHECK_EQ(r.parent[i.first], i.second, "parent of " + i.first + " sent again"); for(auto& i : s.frame) CHECK_EQ(r.frame[i.first], i.second, "frame of " + i.first + " sent again"); for(auto& i : s.layers) CHECK(r.layers.count(i), "layer relation sent again: " + i); }
    mb.check(b); b.removeEventHandler(&mb);
}
PROP(maps, 2) {
    eu::Quiet q; int k = c.draw(4); EI::Ptr m(makeMap(c, k)); m->setUniqueId("/m"); BinarySerialization so; BinaryEvent e(event::ITEM, event::ADD, "/m", ""); { Environment a; a.attachItem(m.get()); so.serializeBinaryEvent(m.get(), e); m = a.detachItem(m.get()); } BinaryEvent was(e);
    bool shortened = false; if(c.boolean() && !e.binaryStreams.empty()) { auto& s = e.binaryStreams[c.draw(e.binaryStreams.size())]; std::string d(s.begin(), s.end()); if(c.boolean() && !d.empty()) { size_t cut = 1 + c.draw(d.size()); c.note(fmt("%zu of %zu bytes missing at the end", cut, d.size())); d.resize(d.size() - cut); shortened = k >= 2; } else { d = damageBytes(c, d); c.note("damaged data"); } s.assign(d.begin(), d.end()); }
    else { std::string y(e.yamlProperties.begin(), e.yamlProperties.end()); for(size_t i = 0, n = c.range(1, 3); i < n; i++) y = damageText(c, y); if(tooBig(y)) c.discard(); e.yamlProperties.assign(y.begin(), y.end()); if(c.isRendering()) c.note(y); }
    EI::Ptr r; try { r = so.unserializeBinaryEvent(e); } catch(const std::exception& x) { c.note(std::string("refused: ") + x.what()); c.label("refused"); c.nontrivial(); }
    if(shortened) CHECK(!r, "a band was read from too little data"); if(r) { Environment b; b.attachItem(r.get()); std::string d = consistent(b); CHECK(d.empty(), d); c.label("read"); BinaryEvent o(event::ITEM, event::ADD, "/m", ""); CHECK(so.serializeBinaryEvent(r.get(), o), "what was read can not be written"); EI::Ptr p(so.unserializeBinaryEvent(o)); CHECK_EQ(p->getClassName(), r->getClassName(), "class of what was read, written and read"); if(o.yamlProperties != was.yamlProperties || (k && o.binaryStreams != was.binaryStreams)) c.nontrivial(); }
    EI::Ptr s(so.unserializeBinaryEvent(was)); CHECK_EQ(s->getClassName(), m->getClassName(), "class of a sound item read after a damaged one"); BinaryEvent o(event::ITEM, event::ADD, "/m", ""); { Environment b; b.attachItem(s.get()); so.serializeBinaryEvent(s.get(), o); } if(k == 0) mu::cmp(mu::content(*static_cast<MLSGrid*>(s.get())), mu::content(*static_cast<MLSGrid*>(m.get())), static_cast<MLSGrid*>(m.get())->getCellSizeY(), "a sound grid read after a damaged one"); else CHECK(o.binaryStreams == was.binaryStreams, "data of a sound item read after a damaged one");
}
