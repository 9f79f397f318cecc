//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 60000
//@ thorough: 2000000
// Graph integrity of an environment over histories of operations, against a model.
#include "envutil.hpp"
#include <memory>
using namespace pbt; using namespace envire;
namespace envire { ENVIRONMENT_ITEM_DEF(VpLayer) ENVIRONMENT_ITEM_DEF(VpMap2) ENVIRONMENT_ITEM_DEF(VpMap3) ENVIRONMENT_ITEM_DEF(VpOp) }
namespace pbt { const char* RULE = "Histories of up to 60 operations on one environment (and a second one items are moved from): attaching items explicitly and implicitly with relative, absolute, numbered, empty and duplicate ids, prefixes, frame tree, layer relations, operator inputs and outputs, frames of maps, shallow and deep detaching with and without keeping a reference, re-attaching, destruction. A set-based model of items and relations predicts every query, the ids, who owns what (live instances, reference counts) and which calls throw; everything is compared after every operation. Non-trivial: at least one detach and at least three different kinds of relation created in the history."; }
namespace {
typedef EnvironmentItem EI;
enum Kind { FRAME, LAYER, MAP, OP };
struct It { EI* p; Kind kind; bool attached; bool held; EI::Ptr ref; std::string id; int serial; };
struct Model {
    std::vector<It*> items; std::map<EI*, EI*> parent; std::set<std::pair<EI*, EI*>> layers, in, out; std::map<EI*, EI*> frameOf; std::string prefix = "/";
    ~Model() { for(auto i : items) delete i; }
    void cut(EI* p) { parent.erase(p); for(auto i = parent.begin(); i != parent.end();) if(i->second == p) parent.erase(i++); else ++i; for(auto s : {&layers, &in, &out}) for(auto i = s->begin(); i != s->end();) if(i->first == p || i->second == p) s->erase(i++); else ++i; frameOf.erase(p); for(auto i = frameOf.begin(); i != frameOf.end();) if(i->second == p) frameOf.erase(i++); else ++i; }
};
template<class T> std::multiset<EI*> ms(const std::list<T*>& l) { std::multiset<EI*> r; for(auto p : l) r.insert(const_cast<EI*>(static_cast<const EI*>(p))); return r; }
bool digits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }
struct Run {
    Ctx& c; Model m; std::unique_ptr<Environment> env; int serial = 0; EI* root; std::set<std::string> kinds; bool detached = false; long base; int frames = 0;
    Run(Ctx& c) : c(c), env(new Environment()), base(VpCount::live()) { root = env->getRootNode(); It* r = new It{root, FRAME, true, false, EI::Ptr(), root->getUniqueId(), serial++}; m.items.push_back(r); }
    std::vector<It*> sel(int kindMask, int attached) { std::vector<It*> r; for(auto i : m.items) if((kindMask >> i->kind & 1) && (attached < 0 || (int)i->attached == attached)) r.push_back(i); return r; }
    It* any(int mask, int attached) { auto v = sel(mask, attached); return v.empty() ? 0 : c.pick(v); }
    std::string nm(It* i) { return fmt("%c%d", "FLMO"[i->kind], i->serial); }
    std::string name() { static const char* n[] = {"a", "b", "map", "x"}; return n[c.draw(4)]; }
    It* create(Kind k, bool safeId) {
        std::string id; switch(safeId ? (c.boolean() ? 0 : 2) : c.draw(7)) { case 0: id = ""; break; case 1: id = name(); break; case 2: id = name() + "/"; break; case 3: id = "/" + name(); break; case 4: id = "/" + name() + "/"; break; case 5: id = name() + "/" + str(c.draw(5)); break; default: { It* o = any(15, 1); id = o->id; } }
        EI* p; if(k == FRAME) { p = new FrameNode(); p->setUniqueId(id); } else if(k == LAYER) p = new VpLayer(id); else if(k == MAP) { if(c.boolean()) p = new VpMap2(id); else p = new VpMap3(id); } else p = new VpOp(id);
        It* i = new It{p, k, false, true, EI::Ptr(), id, serial++}; m.items.push_back(i); c.note(fmt("create %s id '%s'", nm(i).c_str(), id.c_str())); if(c.boolean()) i->ref = p; return i; }
    std::string want(It* i) { std::string b = i->p->getUniqueId(); if(b.empty()) b = m.prefix; if(b[0] != '/') b = m.prefix + b; return b; }
    bool taken(const std::string& id) { for(auto i : m.items) if(i->attached && i->id == id) return true; return false; }
    // the model's side of an attach: returns false if it has to throw
    bool wouldAttach(It* i) { std::string w = want(i); return *w.rbegin() == '/' || !taken(w); }
    // attaching one may take the id of the other
    bool clash(It* a, It* b) { std::string x = want(a), y = want(b); bool nx = *x.rbegin() == '/', ny = *y.rbegin() == '/'; return nx != ny || (!nx && x == y); }
    void checkNewId(It* i, const std::string& w) { std::string id = i->p->getUniqueId(); if(*w.rbegin() == '/') { CHECK(id.compare(0, w.size(), w) == 0 && digits(id.substr(w.size())), "the id '" + id + "' of an item attached as '" + w + "' is not that plus a number"); CHECK(!taken(id), "the id '" + id + "' was given twice"); } else CHECK_EQ(id, w, "id after attaching"); i->id = id; i->attached = true; i->held = (bool)i->ref; }
    void attach(It* i, std::function<void()> call) { std::string w = want(i); if(!wouldAttach(i)) { c.note("  (duplicate id: has to throw)"); c.label("duplicate id"); CHECK_THROWS(call(), "attaching an item with the id of another one"); CHECK(!i->p->isAttached(), "an item is attached after its attachment failed"); } else { call(); checkNewId(i, w); } }
    void drop(It* i) { if(i->attached) return; EI* p = i->p; for(size_t k = 0; k < m.items.size(); k++) if(m.items[k] == i) m.items.erase(m.items.begin() + k); if(i->ref) i->ref = 0; else delete p; delete i; }
    void detachModel(It* i, bool deep, std::vector<It*>& gone) { if(deep && i->kind == FRAME) { std::vector<EI*> ch; for(auto& e : m.parent) if(e.second == i->p) ch.push_back(e.first); for(auto& e : m.frameOf) if(e.second == i->p) ch.push_back(e.first); for(auto p : ch) for(auto k : std::vector<It*>(m.items)) if(k->p == p && k->attached) detachModel(k, true, gone); } m.cut(i->p); i->attached = false; gone.push_back(i); }
    // the pairs of a relation in an order that does not depend on addresses
    std::vector<std::pair<EI*, EI*>> rels(const std::set<std::pair<EI*, EI*>>& s) { std::vector<std::pair<EI*, EI*>> r; for(auto a : m.items) for(auto b : m.items) if(s.count({a->p, b->p})) r.push_back({a->p, b->p}); return r; }
    bool below(EI* n, EI* anc) { while(n) { if(n == anc) return true; auto i = m.parent.find(n); n = i == m.parent.end() ? 0 : i->second; } return false; }
    void step() {
        switch(c.weighted({6, 5, 5, 2, 5, 2, 5, 1, 6, 2, 2, 6, 1, 1, 1})) {
        case 0: { create((Kind)c.draw(4), false); break; }
        case 1: { It* i = any(15, 0); if(!i) return; if(i->kind == MAP && c.boolean()) { CartesianMap* mp = static_cast<CartesianMap*>(i->p); It* f = c.boolean() ? any(1, 1) : 0; c.note(fmt("attach %s on %s", nm(i).c_str(), f ? nm(f).c_str() : "default")); attach(i, [&] { env->attachItem(mp, f ? static_cast<FrameNode*>(f->p) : 0); }); if(i->attached) m.frameOf[i->p] = f ? f->p : root; kinds.insert("frame"); } else { c.note("attach " + nm(i)); attach(i, [&] { env->attachItem(i->p); }); } break; }
        case 2: { It* p = any(1, 1); It* ch = c.chance(1, 3) ? create(FRAME, true) : any(1, -1); if(!p || !ch || ch->p == root || below(p->p, ch->p)) return; if(!ch->attached && !wouldAttach(ch)) return; c.note("addChild " + nm(p) + " " + nm(ch)); std::string w = want(ch); bool was = ch->attached; if(c.boolean()) env->addChild(static_cast<FrameNode*>(p->p), static_cast<FrameNode*>(ch->p)); else static_cast<FrameNode*>(p->p)->addChild(static_cast<FrameNode*>(ch->p)); if(!was) checkNewId(ch, w); m.parent[ch->p] = p->p; kinds.insert("tree"); break; }
        case 3: { It* p = any(1, 1); It* ch = any(1, 1); if(!p || !ch) return; if(c.chance(2, 3) && !m.parent.empty()) { std::vector<It*> have; for(auto i : m.items) if(m.parent.count(i->p)) have.push_back(i); It* bi = c.pick(have); EI* b = bi->p; EI* a = m.parent[b]; c.note("removeChild from its parent " + nm(bi)); env->removeChild(static_cast<FrameNode*>(a), static_cast<FrameNode*>(b)); m.parent.erase(b); return; } c.note("removeChild " + nm(p) + " " + nm(ch)); env->removeChild(static_cast<FrameNode*>(p->p), static_cast<FrameNode*>(ch->p)); if(m.parent.count(ch->p) && m.parent[ch->p] == p->p) m.parent.erase(ch->p); break; }
        case 4: { It* p = any(6, 1); It* ch = c.chance(1, 3) ? create(LAYER, true) : any(6, -1); if(!p || !ch || p == ch) return; if(!ch->attached && !wouldAttach(ch)) return; c.note("addChild " + nm(p) + " " + nm(ch)); std::string w = want(ch); bool was = ch->attached; if(c.boolean()) env->addChild(static_cast<Layer*>(p->p), static_cast<Layer*>(ch->p)); else static_cast<Layer*>(p->p)->addChild(static_cast<Layer*>(ch->p)); if(!was) checkNewId(ch, w); m.layers.insert({ch->p, p->p}); kinds.insert("layer"); break; }
        case 5: { if(!m.layers.empty() && c.chance(2, 3)) { auto pr = c.pick(rels(m.layers)); c.note("removeChild existing layer relation"); env->removeChild(static_cast<Layer*>(pr.second), static_cast<Layer*>(pr.first)); m.layers.erase(pr); } else { It* p = any(6, 1); It* ch = any(6, 1); if(!p || !ch) return; c.note("removeChild " + nm(p) + " " + nm(ch)); env->removeChild(static_cast<Layer*>(p->p), static_cast<Layer*>(ch->p)); m.layers.erase({ch->p, p->p}); } break; }
        case 6: { It* mp = any(4, -1); It* f = any(1, -1); if(!mp || !f) return; if((!mp->attached && !wouldAttach(mp)) || (!f->attached && !wouldAttach(f))) return; if(!mp->attached && !f->attached && clash(mp, f)) return; c.note("setFrameNode " + nm(mp) + " " + nm(f)); std::string wm = want(mp), wf = want(f); bool am = mp->attached, af = f->attached; if(am && c.boolean()) static_cast<CartesianMap*>(mp->p)->setFrameNode(static_cast<FrameNode*>(f->p)); else env->setFrameNode(static_cast<CartesianMap*>(mp->p), static_cast<FrameNode*>(f->p)); if(!af) checkNewId(f, wf); if(!am) checkNewId(mp, wm); m.frameOf[mp->p] = f->p; kinds.insert("frame"); break; }
        case 7: { It* mp = any(4, 1); It* f = any(1, 1); if(!mp || !f) return; if(c.boolean() && m.frameOf.count(mp->p)) for(auto i : m.items) if(i->p == m.frameOf[mp->p]) f = i; c.note("detachFrameNode " + nm(mp) + " " + nm(f)); env->detachFrameNode(static_cast<CartesianMap*>(mp->p), static_cast<FrameNode*>(f->p)); if(m.frameOf.count(mp->p) && m.frameOf[mp->p] == f->p) m.frameOf.erase(mp->p); break; }
        case 8: { It* o = any(8, -1); if(!o || c.chance(1, 5)) o = create(OP, true); It* l = any(6, -1); if(!l || c.chance(1, 5)) l = create(c.boolean() ? LAYER : MAP, true); if((!o->attached && !wouldAttach(o)) || (!l->attached && !wouldAttach(l))) return; if(!o->attached && !l->attached && clash(o, l)) return; bool isIn = c.boolean(); c.note(fmt("add%s %s %s", isIn ? "Input" : "Output", nm(o).c_str(), nm(l).c_str())); std::string wo = want(o), wl = want(l); bool ao = o->attached, al = l->attached; Operator* op = static_cast<Operator*>(o->p); Layer* la = static_cast<Layer*>(l->p); auto& rel = isIn ? m.in : m.out;
            switch(ao ? c.draw(4) : 0) { case 0: { bool r = isIn ? env->addInput(op, la) : env->addOutput(op, la); CHECK_EQ(r, !rel.count({op, la}), "whether the relation was new"); break; } case 1: { if(isIn) op->setInput(la); else op->setOutput(la); for(auto i = rel.begin(); i != rel.end();) if(i->first == op) rel.erase(i++); else ++i; break; } default: if(isIn) op->addInput(la); else op->addOutput(la); }
            if(!ao) checkNewId(o, wo); if(!al) checkNewId(l, wl); rel.insert({op, la}); kinds.insert(isIn ? "input" : "output"); break; }
        case 9: { bool isIn = c.boolean(); auto& rel = isIn ? m.in : m.out; EI *o, *l; if(!rel.empty() && c.chance(2, 3)) { auto e = c.pick(rels(rel)); o = e.first; l = e.second; } else { It* oi = any(8, 1); It* li = any(6, 1); if(!oi || !li) return; o = oi->p; l = li->p; } c.note(isIn ? "removeInput" : "removeOutput"); Operator* op = static_cast<Operator*>(o); Layer* la = static_cast<Layer*>(l); if(c.boolean()) { if(isIn) env->removeInput(op, la); else env->removeOutput(op, la); } else { if(isIn) op->removeInput(la); else op->removeOutput(la); } rel.erase({o, l}); break; }
        case 10: { It* o = any(8, 1); if(!o) return; bool isIn = c.boolean(); c.note(std::string(isIn ? "removeInputs " : "removeOutputs ") + nm(o)); if(isIn) env->removeInputs(static_cast<Operator*>(o->p)); else env->removeOutputs(static_cast<Operator*>(o->p)); auto& rel = isIn ? m.in : m.out; for(auto i = rel.begin(); i != rel.end();) if(i->first == o->p) rel.erase(i++); else ++i; break; }
        case 11: { It* i = any(15, 1); if(!i || i->p == root) return; bool deep = c.boolean(), keep = c.boolean(); c.note(fmt("detach %s%s%s", nm(i).c_str(), deep ? " deep" : "", keep ? " keeping it" : "")); std::vector<It*> gone; detachModel(i, deep, gone); detached = true; if(gone.size() > 1) c.label("deep detach of several items"); EI::Ptr r = deep || c.boolean() ? env->detachItem(i->p, deep) : i->p->detach(); CHECK_EQ(r.get(), i->p, "detachItem returned another item"); if(keep) { i->ref = r; i->held = true; } r = 0; for(auto g : gone) if(g->ref) CHECK(!g->p->isAttached() && !g->p->getEnvironment(), "a detached item still has an environment"); for(auto g : gone) { g->held = (bool)g->ref; if(!g->held) { for(size_t k = 0; k < m.items.size(); k++) if(m.items[k] == g) m.items.erase(m.items.begin() + k); delete g; } } break; }
        case 12: { static const char* pf[] = {"robot", "/robot", "world/", "/a/b/", "/"}; std::string p = pf[c.draw(5)]; c.note("prefix " + p); env->setEnvironmentPrefix(p); m.prefix = (p[0] == '/' ? "" : "/") + p; if(*m.prefix.rbegin() != '/') m.prefix += "/"; CHECK_EQ(env->getEnvironmentPrefix(), m.prefix, "normalised prefix"); break; }
        case 13: { It* i = any(15, 1); if(!i) return; c.note("attach again " + nm(i)); CHECK_THROWS(env->attachItem(i->p), "attaching an item twice"); break; }
        case 14: { // an item of another environment moves over
            Environment other; other.setEnvironmentPrefix("/other" + str(serial)); It* i = create(c.boolean() ? LAYER : c.boolean() ? MAP : FRAME, true); if(c.boolean()) { FrameNode* f = i->kind == FRAME ? static_cast<FrameNode*>(i->p) : 0; if(f) other.addChild(other.getRootNode(), f); else if(i->kind == MAP) other.attachItem(static_cast<CartesianMap*>(i->p), other.getRootNode()); else other.attachItem(i->p); } else other.attachItem(i->p); std::string id = i->p->getUniqueId(); c.note("moves from another environment: " + nm(i)); env->attachItem(i->p); c.label("moved between environments"); CHECK(!other.getItem(id), "an item is still in the environment it moved away from"); CHECK_EQ(i->p->getUniqueId(), id, "id of a moved item"); i->id = id; i->attached = true; i->held = (bool)i->ref; CHECK(i->kind != FRAME || other.getChildren(other.getRootNode()).empty(), "the old environment kept a relation of the moved item"); break; }
        }
    }
    void check() {
        Environment& e = *env; std::set<EI*> exp; long live = 0;
        for(auto i : m.items) { if(i->kind != FRAME) live++; CHECK_EQ(i->p->isAttached(), i->attached, "attached state of " + nm(i)); CHECK_EQ(i->p->getEnvironment(), i->attached ? env.get() : (Environment*)0, "environment of " + nm(i)); CHECK_EQ(i->p->getRefCount(), (long)(i->attached + (i->ref ? 1 : 0)), "reference count of " + nm(i)); if(i->attached) { exp.insert(i->p); CHECK_EQ(i->p->getUniqueId(), i->id, "id of " + nm(i)); CHECK_EQ(e.getItem(i->id).get(), i->p, "item found under id " + i->id); size_t cut = i->id.rfind('/'); CHECK_EQ(i->p->getUniqueIdSuffix(), i->id.substr(cut + 1), "id suffix"); CHECK_EQ(i->p->getUniqueIdPrefix(), i->id.substr(0, cut), "id prefix"); } }
        CHECK_EQ(VpCount::live() - base, live, "live items (leak or early deletion)");
        std::vector<EI*> all = e.getItems<EI>(); CHECK(std::set<EI*>(all.begin(), all.end()) == exp && all.size() == exp.size(), fmt("the environment has %zu items, expected %zu", all.size(), exp.size()));
        CHECK_EQ(e.getRootNode(), root, "root node"); CHECK(!e.getItem("/no/such/item"), "an item under an unknown id");
        std::map<EI*, std::multiset<EI*>> fch, lch, lpa, ins, outs, gen, maps; for(auto& r : m.parent) fch[r.second].insert(r.first); for(auto& r : m.layers) { lch[r.second].insert(r.first); lpa[r.first].insert(r.second); } for(auto& r : m.in) ins[r.first].insert(r.second); for(auto& r : m.out) { outs[r.first].insert(r.second); gen[r.second].insert(r.first); } for(auto& r : m.frameOf) maps[r.second].insert(r.first);
        for(auto i : m.items) if(i->attached) switch(i->kind) {
            case FRAME: { FrameNode* f = static_cast<FrameNode*>(i->p); EI* p = m.parent.count(f) ? m.parent[f] : 0; CHECK_EQ((EI*)e.getParent(f), p, "parent of " + nm(i)); CHECK_EQ((EI*)f->getParent(), p, "parent of " + nm(i)); CHECK_EQ(f->isRoot(), !p, "isRoot of " + nm(i)); EI* r = f; while(m.parent.count(r)) r = m.parent[r]; CHECK_EQ((EI*)f->getRoot(), r, "root above " + nm(i)); CHECK(ms(e.getChildren(f)) == fch[f] && ms(f->getChildren()) == fch[f], "children of " + nm(i)); CHECK(ms(e.getMaps(f)) == maps[f] && ms(f->getMaps()) == maps[f], "maps of " + nm(i)); break; }
            case MAP: { CartesianMap* mp = static_cast<CartesianMap*>(i->p); EI* f = m.frameOf.count(mp) ? m.frameOf[mp] : 0; CHECK_EQ((EI*)e.getFrameNode(mp), f, "frame of " + nm(i)); CHECK_EQ((EI*)mp->getFrameNode(), f, "frame of " + nm(i)); }
            case LAYER: { Layer* l = static_cast<Layer*>(i->p); CHECK(ms(e.getParents(l)) == lpa[l] && ms(l->getParents()) == lpa[l], "parent layers of " + nm(i)); CHECK(ms(e.getChildren(l)) == lch[l] && ms(e.getChildren(static_cast<const Layer*>(l))) == lch[l], "child layers of " + nm(i)); EI* g = e.getGenerator(l); CHECK(gen[l].empty() ? !g : gen[l].count(g), "generator of " + nm(i)); CHECK_EQ(l->isGenerated(), !gen[l].empty(), "isGenerated of " + nm(i)); std::multiset<EI*> from; for(auto& r : m.in) if(r.second == l) for(auto o : outs[r.first]) from.insert(o); CHECK(ms(e.getLayersGeneratedFrom(l)) == from, "layers generated from " + nm(i)); std::multiset<EI*> f3; for(auto o : from) if(dynamic_cast<VpMap3*>(o)) f3.insert(o); CHECK(ms(e.getGeneratedFrom<VpMap3*>(l)) == f3, "typed layers generated from " + nm(i)); break; }
            case OP: { Operator* o = static_cast<Operator*>(i->p); CHECK(ms(e.getInputs(o)) == ins[o], "inputs of " + nm(i)); CHECK(ms(e.getOutputs(o)) == outs[o], "outputs of " + nm(i)); int n3 = 0; EI* one = 0; for(auto l : ins[o]) if(dynamic_cast<VpMap3*>(l)) { n3++; one = l; } if(n3 == 1) CHECK_EQ((EI*)e.getInput<VpMap3*>(o), one, "the only input of its type"); else CHECK_THROWS(o->getInput<VpMap3*>(), fmt("the only input of a type with %d candidates", n3)); n3 = 0; for(auto l : outs[o]) if(dynamic_cast<VpMap2*>(l)) { n3++; one = l; } if(n3 == 1) CHECK_EQ((EI*)o->getOutput<VpMap2*>(), one, "the only output of its type"); else CHECK_THROWS(e.getOutput<VpMap2*>(o), fmt("the only output of a type with %d candidates", n3)); break; }
        }
        auto l3 = e.getItems<VpMap3>(); if(l3.size() == 1) CHECK_EQ(e.getItem<VpMap3>().get(), l3[0], "the only item of its type"); else CHECK_THROWS(e.getItem<VpMap3>(), "the only item of a type"); size_t n3 = 0; for(auto i : m.items) n3 += i->attached && dynamic_cast<VpMap3*>(i->p); CHECK_EQ(l3.size(), n3, "items of a type");
    }
    void finish() {
        c.note("destroy the environment"); env.reset(); long live = 0; for(auto i : m.items) { if(i->ref || !i->attached) { if(i->kind != FRAME) live++; CHECK(!i->p->isAttached(), "an item survived its environment attached to it"); } } CHECK_EQ(VpCount::live() - base, live, "live items after the environment was destroyed");
        for(auto i : m.items) { if(i->ref) i->ref = 0; else if(!i->attached) delete i->p; } CHECK_EQ(VpCount::live() - base, 0L, "live items at the end");
    }
};
}
PROP(history, 1) { eu::Quiet q; Run r(c); size_t n = c.size(1, 60); for(size_t i = 0; i < n; i++) { r.step(); r.check(); } if(r.detached && r.kinds.size() >= 3) c.nontrivial(); for(auto& k : r.kinds) c.label(k); r.finish(); }
