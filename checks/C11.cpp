//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 50000
//@ thorough: 1500000
// Events keep observers and mirrored environments in step with an environment.
#include "envhist.hpp"
using namespace pbt; using namespace envire; using namespace eh;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Random histories of up to 40 operations on an environment (attach, re-parent, frames of maps, layer relations, content changes, shallow and deep detach, replacing an item by another one of the same id). A listener registered at a random point rebuilds the structure from its events alone and insists that every single event fits what it knows; a queueing processor mirrors the environment into a second one (which has items of its own), flushed at random points; plain queues replay ids; filters and repeated registrations are checked on raw events. Oracle: state by id after every operation (listener) or flush (mirror); after the handler is removed, or the environment destroyed, nothing may be left. Non-trivial: at least one relation removed, re-parented, detached or replaced while observed."; }
namespace {
bool busy(const std::set<std::string>& d) { return d.count("detached") || d.count("replaced") || d.count("tree"); }
}
PROP(listener, 2) {
    eu::Quiet q; Mirror m, m2; std::unique_ptr<Environment> env(new Environment()); Hist h(c, *env, ""); h.blobs = false; h.ops = c.chance(1, 3); size_t pre = c.size(0, 15), n = c.size(1, 30);
    for(size_t i = 0; i < pre; i++) h.step(); h.did.clear(); c.note("register the listener"); env->addEventHandler(&m); m.check(*env); bool two = c.chance(1, 4); if(two) env->addEventHandler(&m2);
    for(size_t i = 0; i < n; i++) { if(c.chance(1, 5)) { EI* it = h.any<EI>(); c.note("announce a change of " + it->getUniqueId()); int before = m.updates[it]; if(c.boolean() && dynamic_cast<FrameNode*>(it)) static_cast<FrameNode*>(it)->setTransform(eu::randomPose(c)); else it->itemModified(); CHECK_EQ(m.updates[it], before + 1, "update events of one announced change"); } else if(c.chance(1, 25)) { c.note("remove and register again"); env->removeEventHandler(&m); m.empty(true); env->addEventHandler(&m); } else h.step(); m.check(*env); if(two) m2.check(*env); }
    if(busy(h.did)) c.nontrivial(); for(auto& d : h.did) c.label(d);
    if(two) { c.note("remove the second listener"); env->removeEventHandler(&m2); m2.empty(true); m.check(*env); h.step(); m.check(*env); m2.empty(true); }
    if(c.boolean()) { c.note("remove the listener"); env->removeEventHandler(&m); m.empty(true); h.step(); m.empty(true); h.kept.clear(); env.reset(); m.empty(true); } else { c.note("destroy the environment"); h.kept.clear(); env.reset(); m.empty(false); }
}
PROP(mirrored_environment, 2) {
    eu::Quiet q; Mirror mb; std::unique_ptr<Environment> b(new Environment()); b->addEventHandler(&mb); EventProcessor ep(b.get()); std::unique_ptr<Environment> a(new Environment()); Hist h(c, *a, ""); size_t pre = c.size(0, 10), n = c.size(1, 30);
    // the receiver has content of its own under another prefix
    std::set<std::string> own; b->setEnvironmentPrefix("/own"); { size_t k = c.draw(3); for(size_t i = 0; i < k; i++) { EI* p = i ? (EI*)new VpLayer("") : (EI*)new FrameNode(); b->attachItem(p); own.insert(p->getUniqueId()); } }
    Snap ownBefore = snapshot(*b); for(size_t i = 0; i < pre; i++) h.step(); h.did.clear(); ep.allowMultithreading(true); c.note("register the processor"); a->addEventHandler(&ep);
    auto compare = [&] { ep.flush(); c.note("flush"); mb.check(*b); Snap sa = snapshot(*a), sb = snapshot(*b); for(auto& o : own) { CHECK(sb.items.count(o) && sb.items[o] == ownBefore.items[o], "an item of the receiver's own was touched: " + o); sb.items.erase(o); } std::string d = diff(sa, sb, false); CHECK(d.empty(), "the mirror differs after a flush: " + d); };
    for(size_t i = 0; i < n; i++) { h.step(); if(c.chance(1, 4)) compare(); } compare(); if(busy(h.did)) c.nontrivial(); for(auto& d : h.did) c.label(d);
    if(c.boolean()) { for(size_t i = 0; i < 3; i++) h.step(); c.note("remove the processor"); a->removeEventHandler(&ep); ep.flush(); Snap sb = snapshot(*b); for(auto& o : own) sb.items.erase(o); CHECK(sb.items.size() == 1 && sb.parent.empty() && sb.frame.empty() && sb.layers.empty(), fmt("the mirror has %zu items left after the processor was removed", sb.items.size()));
        if(c.boolean()) { c.note("register it again"); a->addEventHandler(&ep); compare(); } }
    if(c.boolean()) a.reset(); else b.reset(); h.kept.clear(); }
namespace {
// ids and content of a queue's events, applied to a plain model when the queue is flushed
struct Replay : EventQueue {
    struct St { std::string content, label; }; std::map<std::string, St> items; std::map<std::string, std::string> parent, frame; std::multiset<std::string> layers;
    void process(const Event& e) {
        if(e.type == event::ITEM) { if(e.operation == event::REMOVE) { CHECK(e.id_a.size(), "a queued event lost its id"); items.erase(e.id_a); } else { CHECK(e.a, "a queued item event without item"); ItemState s = stateOf(e.a.get()); items[e.id_a] = St{s.content, s.label}; CHECK_EQ(e.a->getUniqueId(), e.id_a, "id of the item in an event"); } }
        else if(e.type == event::FRAMENODE_TREE) { if(e.operation == event::ADD) parent[e.id_b] = e.id_a; else if(parent.count(e.id_b) && parent[e.id_b] == e.id_a) parent.erase(e.id_b); }
        else if(e.type == event::FRAMENODE) { if(e.operation == event::ADD) frame[e.id_a] = e.id_b; else if(frame.count(e.id_a) && frame[e.id_a] == e.id_b) frame.erase(e.id_a); }
        else if(e.type == event::LAYER_TREE) { std::string k = e.id_a + " > " + e.id_b; auto i = layers.find(k); if(e.operation == event::ADD) { if(i == layers.end()) layers.insert(k); } else if(i != layers.end()) layers.erase(i); } }
};
}
PROP(queue, 1) {
    eu::Quiet q; Replay r; Environment env; Hist h(c, env, ""); h.blobs = false; size_t pre = c.size(0, 8), n = c.size(1, 30); for(size_t i = 0; i < pre; i++) h.step(); h.did.clear(); bool async = c.boolean(); r.allowMultithreading(async); env.addEventHandler(&r); c.note(async ? "queue with copies" : "queue with references");
    for(size_t i = 0; i <= n; i++) { h.step(); if(i < n && !c.chance(1, 5)) continue; r.flush(); c.note("flush"); Snap s = snapshot(env); CHECK_EQ(r.items.size(), s.items.size(), "items described by the queue"); for(auto& e : s.items) { CHECK(r.items.count(e.first), "item never queued: " + e.first); CHECK(r.items[e.first].content == e.second.content && r.items[e.first].label == e.second.label, "content described by the queue: " + e.first); } std::string d = diffMap(s.parent, r.parent); CHECK(d.empty(), "frame tree described by the queue: " + d); d = diffMap(s.frame, r.frame); CHECK(d.empty(), "frames of maps described by the queue: " + d); d = diffSet(s.layers, r.layers); CHECK(d.empty(), "layer relations described by the queue: " + d); }
    if(busy(h.did)) c.nontrivial(); h.kept.clear(); }
namespace { struct Log : EventHandler { std::vector<std::string>* out; std::string name; void handle(const Event& e) { out->push_back(name + ":" + str(e.type) + str(e.operation) + (e.a ? e.a->getUniqueId() : "") ); } };
struct Pass : EventFilter { std::vector<std::string>* out; std::string name; unsigned mask; bool extra; bool filter(const Event& e) { out->push_back(name + "?" + str(e.type)); bool ok = mask >> e.type & 1; if(!ok && extra) handle(e); return ok; } }; }
PROP(fanout, 1) {
    // every registration is served once per event, in order; filters decide; removal is complete
    EventSource src; std::vector<std::string> got, exp; std::vector<std::unique_ptr<Log>> hs; std::vector<std::unique_ptr<Pass>> fs; std::vector<int> reg; size_t nh = c.range(1, 4); for(size_t i = 0; i < nh; i++) { hs.emplace_back(new Log); hs[i]->out = &got; hs[i]->name = str(i); fs.emplace_back(new Pass); fs[i]->out = &got; fs[i]->name = str(i); fs[i]->mask = ~0u; fs[i]->extra = false; }
    std::vector<bool> hasF(nh, false); FrameNode::Ptr item(new FrameNode()); item->setUniqueId("/x"); size_t n = c.size(1, 25); bool removed = false;
    for(size_t s = 0; s < n; s++) switch(c.draw(5)) {
        case 0: case 1: { int i = c.draw(nh); c.note(fmt("register %d", i)); src.addEventHandler(hs[i].get()); reg.push_back(i); break; }
        case 2: { int i = c.draw(nh); c.note(fmt("unregister %d", i)); src.removeEventHandler(hs[i].get()); size_t b = reg.size(); reg.erase(std::remove(reg.begin(), reg.end(), i), reg.end()); removed |= b != reg.size(); break; }
        case 3: { int i = c.draw(nh); hasF[i] = true; fs[i]->mask = c.draw(32); fs[i]->extra = c.chance(1, 4); c.note(fmt("filter %d mask %u%s", i, fs[i]->mask, fs[i]->extra ? " passing the rest on itself" : "")); hs[i]->setFilter(fs[i].get()); break; }
        default: { event::Type t = (event::Type)c.draw(5); event::Operation o = (event::Operation)c.draw(3); c.note("send " + str(t) + " " + str(o)); got.clear(); exp.clear(); Event e(t, o, item); src.handle(e); for(int i : reg) { bool ok = true; if(hasF[i]) { exp.push_back(str(i) + "?" + str(t)); ok = (fs[i]->mask >> t & 1) || fs[i]->extra; } if(ok) exp.push_back(str(i) + ":" + str(t) + str(o) + "/x"); } if(got != exp) { std::string g, x; for(auto& v : got) g += v + " "; for(auto& v : exp) x += v + " "; FAIL("calls " + g + ", expected " + x); } if(reg.size() > 1 && removed) c.nontrivial(); } }
}
