//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 60000
//@ thorough: 2000000
// Operators: arity, generated and dirty layers, updates.
#include "envutil.hpp"
#include <memory>
using namespace pbt; using namespace envire;
namespace envire { ENVIRONMENT_ITEM_DEF(VpLayer) ENVIRONMENT_ITEM_DEF(VpMap2) ENVIRONMENT_ITEM_DEF(VpMap3) ENVIRONMENT_ITEM_DEF(VpOp) }
namespace pbt { const char* RULE = "Histories of up to 50 operations on up to five operators (input and output arity 0 to 3) and up to six layers of one environment: adding, setting and removing inputs and outputs, marking layers dirty, updating layers from their operators and all operators of the environment, detaching layers from operators. A model predicts which operators run and how often, which outputs are announced, which calls throw and the dirty and generated state of every layer. Non-trivial: an arity limit was hit or a layer was updated through its operator."; }
namespace {
struct Seen : public EventHandler { std::map<EnvironmentItem*, int> upd; void handle(const Event& e) { if(e.type == event::ITEM && e.operation == event::UPDATE) upd[e.a.get()]++; } };
typedef std::vector<std::set<int>> Rel;
}
PROP(history, 1) {
    eu::Quiet q; Seen seen; Environment env; struct O { VpOp* p; int ia, oa; std::set<int> in, out; int runs; }; std::vector<O> os; struct La { Layer* p; bool dirty, imm; }; std::vector<La> ls; bool nt = false;
    size_t no = c.range(1, 5), nl = c.range(1, 6);
    for(size_t i = 0; i < no; i++) { int ia = c.draw(4), oa = c.draw(4); VpOp* p = new VpOp("/op/" + str(i), ia, oa); env.attachItem(p); os.push_back(O{p, ia, oa, {}, {}, 0}); c.note(fmt("operator %zu arity %d -> %d", i, ia, oa)); }
    for(size_t i = 0; i < nl; i++) { Layer* p = c.boolean() ? (Layer*)new VpLayer("/layer/" + str(i)) : new VpMap3("/layer/" + str(i)); env.attachItem(p); ls.push_back(La{p, false, false}); }
    env.addEventHandler(&seen); size_t n = c.size(1, 50);
    auto gens = [&](int l) { std::vector<int> r; for(size_t o = 0; o < os.size(); o++) if(os[o].out.count(l)) r.push_back(o); return r; };
    for(size_t i = 0; i < n; i++) {
        seen.upd.clear(); int oi = c.draw(no), li = c.draw(nl); O& o = os[oi]; La& l = ls[li]; bool in = c.boolean(); std::set<int>& s = in ? o.in : o.out; int ar = in ? o.ia : o.oa; const char* w = in ? "Input" : "Output"; std::map<EnvironmentItem*, int> exp; int which = -1; bool eventsExact = true;
        switch(c.weighted({6, 3, 2, 1, 4, 1, 6, 1, 2, 1, 1})) {
        case 0: { c.note(fmt("add%s(%d, %d)", w, oi, li)); bool full = ar && (int)s.size() >= ar; auto call = [&] { return in ? o.p->addInput(l.p) : o.p->addOutput(l.p); }; if(full) { c.label("arity limit"); nt = true; bool threw = false; try { call(); } catch(const std::runtime_error&) { threw = true; } CHECK(threw, fmt("an operator of arity %d accepted another layer", ar)); } else { CHECK(call(), "adding a layer to an operator failed"); s.insert(li); } break; }
        case 1: { c.note(fmt("set%s(%d, %d)", w, oi, li)); CHECK(in ? o.p->setInput(l.p) : o.p->setOutput(l.p), "setting the layer of an operator failed"); s.clear(); s.insert(li); break; }
        case 2: { c.note(fmt("remove%s(%d, %d)", w, oi, li)); if(in) o.p->removeInput(l.p); else o.p->removeOutput(l.p); s.erase(li); break; }
        case 3: { c.note(fmt("remove%ss(%d)", w, oi)); if(in) o.p->removeInputs(); else o.p->removeOutputs(); s.clear(); break; }
        case 4: c.note(fmt("dirty %d", li)); l.p->setDirty(); l.dirty = true; break;
        case 5: c.note(fmt("clean %d", li)); l.p->resetDirty(); l.dirty = false; break;
        case 6: { auto g = gens(li); c.note(fmt("updateFromOperator %d (%zu generators, %s)", li, g.size(), l.dirty ? "dirty" : "clean")); std::vector<int> before; for(auto& x : os) before.push_back(x.p->runs); l.p->updateFromOperator(); int ran = 0; for(size_t k = 0; k < os.size(); k++) { int d = os[k].p->runs - before[k]; ran += d; CHECK(!d || (d == 1 && os[k].out.count(li)), fmt("updating a layer ran operator %zu, which does not generate it, or ran it %d times", k, d)); os[k].runs += d; } CHECK_EQ(ran, !g.empty() && l.dirty ? 1 : 0, "operators run to update a layer"); if(!g.empty()) { if(l.dirty) { nt = true; c.label("updated from its operator"); } l.dirty = false; } eventsExact = false; break; }
        case 7: { c.note("updateOperators"); env.updateOperators(); for(auto& x : os) { x.runs++; for(int k : x.out) exp[ls[k].p]++; } break; }
        case 8: { auto g = gens(li); c.note(fmt("detachFromOperator %d (%zu generators)", li, g.size())); if(g.size() > 1) c.label("several generators"); bool r = l.p->detachFromOperator(); CHECK(r, "detaching a layer from its operator failed"); CHECK(!l.p->isGenerated(), "a layer is still generated after it was detached from its operator"); for(auto& x : os) x.out.erase(li); break; }
        case 9: c.note(fmt("immutable %d", li)); l.p->setImmutable(); l.imm = true; break;
        case 10: { std::unique_ptr<Layer> k(dynamic_cast<Layer*>(l.p->clone())); CHECK_EQ(k->isDirty(), l.dirty, "dirty state of a copy"); CHECK_EQ(k->isImmutable(), l.imm, "immutable state of a copy"); break; }
        }
        if(eventsExact) for(auto& e : ls) CHECK_EQ(seen.upd[e.p], exp[e.p], "announced updates of a layer");
        for(size_t k = 0; k < os.size(); k++) { CHECK_EQ(os[k].p->runs, os[k].runs, fmt("runs of operator %zu", k)); std::set<EnvironmentItem*> a, b, x, y; for(auto p : env.getInputs(os[k].p)) a.insert(p); for(int j : os[k].in) b.insert(ls[j].p); CHECK(a == b && env.getInputs(os[k].p).size() == b.size(), fmt("inputs of operator %zu", k)); for(auto p : env.getOutputs(os[k].p)) x.insert(p); for(int j : os[k].out) y.insert(ls[j].p); CHECK(x == y && env.getOutputs(os[k].p).size() == y.size(), fmt("outputs of operator %zu", k)); if(os[k].ia) CHECK((int)a.size() <= os[k].ia, "more inputs than the arity"); if(os[k].oa) CHECK((int)x.size() <= os[k].oa, "more outputs than the arity"); }
        for(size_t k = 0; k < ls.size(); k++) { CHECK_EQ(ls[k].p->isDirty(), ls[k].dirty, fmt("dirty state of layer %zu", k)); CHECK_EQ(ls[k].p->isImmutable(), ls[k].imm, fmt("immutable state of layer %zu", k)); auto g = gens(k); CHECK_EQ(ls[k].p->isGenerated(), !g.empty(), fmt("generated state of layer %zu", k)); Operator* gp = ls[k].p->getGenerator(); bool ok = g.empty() ? !gp : false; for(int j : g) ok |= gp == os[j].p; CHECK(ok, fmt("generator of layer %zu", k)); }
    }
    env.removeEventHandler(&seen); if(nt) c.nontrivial();
}
