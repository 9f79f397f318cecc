//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 24000
//@ thorough: 700000
// Binary event synchronisation between environments.
#include "envhist.hpp"
using namespace pbt; using namespace envire; using namespace eh;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Random histories of up to 25 operations on a source environment whose items carry arbitrary text (quotes, newlines, up to 15000 characters), numbers over 36 decades, covariances and binary streams of arbitrary bytes. Changes travel as binary events: pulled incrementally or completely at random points, or through a synchronisation handler in immediate, queued and copying mode, with and without context updates; they are applied to a second environment that has a listener of its own. Oracle: both environments have the same items, content and relations after each transfer, the listener's view fits, and a receiver given only one context update of a map knows that map and its whole chain of frames. Non-trivial: a detach, replacement or re-parenting was transferred, or binary content or long text was."; }
namespace {
void setup(Hist& h) { h.richText = true; h.bigText = true; }
bool rich(const Hist& h) { return h.did.count("detached") || h.did.count("replaced") || h.did.count("tree"); }
void compare(Environment& a, Environment& b, const char* what) { std::string d = diff(snapshot(a), snapshot(b), false); CHECK(d.empty(), std::string("the receiver differs after ") + what + ": " + d); }
struct Forward : SynchronizationEventHandler { Environment* to; std::vector<BinaryEvent> last; int calls = 0; bool drop = false; using SynchronizationEventHandler::handle; void handle(std::vector<BinaryEvent>& m) { calls++; last = m; if(!drop) to->applyEvents(m); } };
}
PROP(pull, 3) {
    eu::Quiet q; Mirror mb; Environment a, b; b.addEventHandler(&mb); Hist h(c, a, ""); setup(h); size_t pre = c.size(0, 8), n = c.size(1, 20); for(size_t i = 0; i < pre; i++) h.step(); std::vector<BinaryEvent> ev;
    for(size_t i = 0; i <= n; i++) { if(i) h.step(); if(i && i < n && !c.chance(1, 4)) continue; bool all = c.chance(1, 5); c.note(all ? "pull everything" : "pull"); ev.clear(); if(c.boolean()) ev.resize(2); a.pullEvents(ev, all); if(c.boolean()) { std::vector<BinaryEvent> moved(ev.size()); for(size_t k = 0; k < ev.size(); k++) moved[k].move(ev[k]); b.applyEvents(moved); } else b.applyEvents(ev); compare(a, b, "a pull"); mb.check(b); }
    ev.clear(); a.pullEvents(ev); CHECK(ev.empty(), fmt("%zu events without a change", ev.size()));
    if(c.chance(1, 3)) { c.note("pull everything into a fresh environment"); Environment f; a.pullEvents(ev, true); f.applyEvents(ev); compare(a, f, "a complete pull"); }
    if(rich(h)) c.nontrivial(); for(auto& d : h.did) c.label(d); h.kept.clear(); }
PROP(handler, 3) {
    eu::Quiet q; Mirror mb; Environment b; b.addEventHandler(&mb); Forward f; f.to = &b; Environment a; Hist h(c, a, ""); setup(h); int mode = c.draw(3); bool ctx = c.boolean(); f.useEventQueue(mode != 0); f.allowMultithreading(mode == 2); if(ctx) f.useContextUpdates(&a); c.note(fmt("%s%s", mode == 0 ? "immediate" : mode == 1 ? "queued" : "queued copies", ctx ? ", context updates" : "")); c.label(mode == 0 ? "immediate" : mode == 1 ? "queued" : "queued copies");
    size_t pre = c.size(0, 8), n = c.size(1, 18); for(size_t i = 0; i < pre; i++) h.step(); h.did.clear(); a.addEventHandler(&f); if(mode) f.flush(); compare(a, b, "registration");
    for(size_t i = 0; i < n; i++) { h.step(); if(mode) { if(!c.chance(1, 3) && i + 1 < n) continue; c.note("flush"); f.flush(); } compare(a, b, "a transfer"); mb.check(b); }
    if(c.boolean()) { c.note("remove the handler"); a.removeEventHandler(&f); if(mode) f.flush(); Snap s = snapshot(b); CHECK(s.items.size() == 1 && s.parent.empty() && s.frame.empty() && s.layers.empty(), fmt("%zu items left at the receiver after the handler was removed", s.items.size())); }
    if(rich(h)) c.nontrivial(); for(auto& d : h.did) c.label(d); h.kept.clear(); }
PROP(context, 1) {
    eu::Quiet q; Forward f; f.drop = true; Environment a; Hist h(c, a, ""); setup(h); int mode = c.draw(3); f.useEventQueue(mode != 0); f.allowMultithreading(mode == 2); f.useContextUpdates(&a); size_t n = c.size(3, 25); for(size_t i = 0; i < n; i++) h.step(); CartesianMap* m = h.any<CartesianMap>(); if(!m) { h.kept.clear(); c.discard(); }
    a.addEventHandler(&f); if(mode) f.flush(); c.note("update " + m->getUniqueId() + (mode == 0 ? ", immediate" : mode == 1 ? ", queued" : ", queued copies")); h.fill(m); m->itemModified(); if(mode) f.flush(); Mirror mb; Environment b; b.addEventHandler(&mb); b.applyEvents(f.last); mb.check(b); CartesianMap* r = b.getItem<CartesianMap>(m->getUniqueId()).get(); CHECK(r, "the map did not arrive"); CHECK(stateOf(r) == stateOf(m), "the content of the map did not arrive");
    FrameNode *x = m->getFrameNode(), *y = r->getFrameNode(); int depth = 0; while(x) { CHECK(y, "the chain of frames is cut at the receiver"); CHECK_EQ(y->getUniqueId(), x->getUniqueId(), "frame in the chain"); CHECK(stateOf(x).content == stateOf(y).content, "transform of frame " + x->getUniqueId()); x = x->getParent(); y = y->getParent(); depth++; } CHECK(!y, "the chain of frames is longer at the receiver"); c.label(fmt("chain of %d frames", depth)); if(depth > 1) c.nontrivial(); b.removeEventHandler(&mb); a.removeEventHandler(&f); h.kept.clear(); }
PROP(item, 2) {
    // one item through its binary form
    eu::Quiet q; Environment a; Hist h(c, a, ""); setup(h); h.blobs = true; BinarySerialization so; size_t n = c.range(1, 4);
    for(size_t i = 0; i < n; i++) { EI::Ptr p(h.make(c.draw(5), "/it" + str(i))); a.attachItem(p.get()); BinaryEvent e(event::ITEM, event::ADD, p->getUniqueId(), ""); CHECK(so.serializeBinaryEvent(p.get(), e), "serialisation failed"); CHECK_EQ(e.className, p->getClassName(), "class of the event"); VpContent* k = contentOf(p.get()); if(k) CHECK_EQ(e.binaryStreams.size(), (size_t)(k->hasBlob ? 1 : 0), "binary streams"); if(k && k->hasBlob) CHECK(std::string(e.binaryStreams[0].begin(), e.binaryStreams[0].end()) == k->blob, "bytes of the binary stream"); EI::Ptr r(so.unserializeBinaryEvent(e)); CHECK_EQ(r->getUniqueId(), p->getUniqueId(), "id"); ItemState x = stateOf(p.get()), y = stateOf(r.get()); c.note(p->getClassName() + " label '" + esc(x.label) + "' " + esc(x.content.substr(0, 200))); CHECK_EQ(y.cls, x.cls, "class"); CHECK_EQ(esc(y.label), esc(x.label), "label"); CHECK_EQ(esc(y.content), esc(x.content), "content"); if(k && (k->hasBlob || k->text.size() > 4)) c.nontrivial(); }
    h.kept.clear(); }
