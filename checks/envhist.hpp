// Random valid histories on an Environment and canonical snapshots of its state (by id, independent of addresses).
#ifndef VP_ENVHIST_HPP
#define VP_ENVHIST_HPP
#include "envutil.hpp"
#include <memory>
namespace eh {
using namespace envire; using namespace pbt;
typedef EnvironmentItem EI;
struct ItemState { std::string cls, label, content; bool operator==(const ItemState& o) const { return cls == o.cls && label == o.label && content == o.content; } };
inline std::string esc(const std::string& s) { std::string r; for(unsigned char ch : s) if(ch < 32 || ch > 126) r += fmt("\\x%02x", ch); else r += ch; return r; }
inline ItemState stateOf(EI* i) {
    ItemState s; s.cls = i->getClassName(); s.label = i->getLabel();
    if(FrameNode* f = dynamic_cast<FrameNode*>(i)) { std::ostringstream o; o.precision(17); const TransformWithUncertainty& t = f->getTransformWithUncertainty(); for(int a = 0; a < 4; a++) for(int b = 0; b < 4; b++) o << t.getTransform().matrix()(a, b) << " "; o << "unc " << t.hasUncertainty(); if(t.hasUncertainty()) for(int a = 0; a < 6; a++) for(int b = 0; b < 6; b++) o << " " << t.getCovariance()(a, b); s.content = o.str(); }
    else if(VpContent* c = contentOf(i)) { s.content = c->str() + c->blob; if(Layer* l = dynamic_cast<Layer*>(i)) s.content += fmt(" immutable %d", (int)l->isImmutable()); }
    return s; }
struct Snap { std::map<std::string, ItemState> items; std::map<std::string, std::string> parent, frame; std::multiset<std::string> layers, in, out; std::string root; };
inline Snap snapshot(Environment& e) {
    Snap s; s.root = e.getRootNode()->getUniqueId();
    for(auto i : e.getItems<EI>()) { std::string id = i->getUniqueId(); s.items[id] = stateOf(i);
        if(FrameNode* f = dynamic_cast<FrameNode*>(i)) { if(f->getParent()) s.parent[id] = f->getParent()->getUniqueId(); }
        if(Layer* l = dynamic_cast<Layer*>(i)) for(auto p : e.getParents(l)) s.layers.insert(p->getUniqueId() + " > " + id);
        if(CartesianMap* m = dynamic_cast<CartesianMap*>(i)) if(m->getFrameNode()) s.frame[id] = m->getFrameNode()->getUniqueId();
        if(Operator* o = dynamic_cast<Operator*>(i)) { for(auto l : e.getInputs(o)) s.in.insert(id + " < " + l->getUniqueId()); for(auto l : e.getOutputs(o)) s.out.insert(id + " > " + l->getUniqueId()); } }
    return s; }
template<class M> std::string diffMap(const M& a, const M& b) { for(auto& e : a) { auto i = b.find(e.first); if(i == b.end()) return e.first + " is missing"; if(!(i->second == e.second)) return e.first + " differs"; } for(auto& e : b) if(!a.count(e.first)) return e.first + " is too much"; return ""; }
inline std::string diffItems(const Snap& a, const Snap& b) { for(auto& e : a.items) { auto i = b.items.find(e.first); if(i == b.items.end()) return e.first + " is missing"; if(e.second.cls != i->second.cls) return "class of " + e.first + ": " + i->second.cls + " instead of " + e.second.cls; if(e.second.label != i->second.label) return "label of " + e.first + ": '" + esc(i->second.label) + "' instead of '" + esc(e.second.label) + "'"; if(e.second.content != i->second.content) return "content of " + e.first + ": '" + esc(i->second.content.substr(0, 300)) + "' instead of '" + esc(e.second.content.substr(0, 300)) + "'"; } for(auto& e : b.items) if(!a.items.count(e.first)) return e.first + " is too much"; return ""; }
inline std::string diffSet(const std::multiset<std::string>& a, const std::multiset<std::string>& b) { if(a == b) return ""; for(auto& e : a) if(a.count(e) != b.count(e)) return fmt("'%s' %zu times instead of %zu", e.c_str(), b.count(e), a.count(e)); for(auto& e : b) if(!a.count(e)) return "'" + e + "' is too much"; return ""; }
// the state the events of an environment describe: operator graphs are not part of it
inline std::string diff(const Snap& a, const Snap& b, bool operators) {
    std::string d = diffItems(a, b); if(!d.empty()) return "items: " + d; d = diffMap(a.parent, b.parent); if(!d.empty()) return "frame tree: " + d; d = diffMap(a.frame, b.frame); if(!d.empty()) return "frames of maps: " + d; d = diffSet(a.layers, b.layers); if(!d.empty()) return "layer relations: " + d;
    if(operators) { d = diffSet(a.in, b.in); if(!d.empty()) return "inputs: " + d; d = diffSet(a.out, b.out); if(!d.empty()) return "outputs: " + d; } return ""; }
// rebuilds the state from events; every event has to fit
struct Mirror : EventListener {
    std::map<EI*, std::string> items; std::map<EI*, EI*> parent, frame; std::set<std::pair<EI*, EI*>> layers; std::map<EI*, int> updates; EI* root = 0; int rootAdds = 0;
    std::string bad; void need(bool ok, const std::string& what) { if(!ok && bad.empty()) bad = what; }
    void fits() { CHECK(bad.empty(), "an event does not fit the events before it: " + bad); }
    std::string n(EI* i) { return i ? i->getUniqueId() : std::string("(null)"); }
    void itemAttached(EI* i) { need(i && !items.count(i), "item attached twice: " + n(i)); items[i] = i->getUniqueId(); }
    void itemDetached(EI* i) { need(i && items.count(i), "unknown item detached: " + n(i)); items.erase(i); for(auto& p : parent) need(p.first != i && p.second != i, "item detached with a frame relation left: " + n(i)); for(auto& p : frame) need(p.first != i && p.second != i, "item detached with the frame of a map left: " + n(i)); for(auto& p : layers) need(p.first != i && p.second != i, "item detached with a layer relation left: " + n(i)); }
    void itemModified(EI* i) { need(i && items.count(i), "unknown item modified: " + n(i)); updates[i]++; }
    void childAdded(FrameNode* p, FrameNode* ch) { need(p && ch && items.count(p) && items.count(ch), "child added to or from an unknown frame"); need(!parent.count(ch), "frame got a second parent: " + n(ch)); parent[ch] = p; }
    void childRemoved(FrameNode* p, FrameNode* ch) { need(parent.count(ch) && parent[ch] == p, "unknown frame relation removed: " + n(p) + " " + n(ch)); parent.erase(ch); }
    void childAdded(Layer* p, Layer* ch) { need(p && ch && items.count(p) && items.count(ch), "child added to or from an unknown layer"); need(!layers.count({ch, p}), "layer relation added twice: " + n(p) + " " + n(ch)); layers.insert({ch, p}); }
    void childRemoved(Layer* p, Layer* ch) { need(layers.count({ch, p}), "unknown layer relation removed: " + n(p) + " " + n(ch)); layers.erase({ch, p}); }
    void frameNodeSet(CartesianMap* m, FrameNode* f) { need(m && f && items.count(m) && items.count(f), "frame of a map set with an unknown item"); need(!frame.count(m), "map got a second frame: " + n(m)); frame[m] = f; }
    void frameNodeDetached(CartesianMap* m, FrameNode* f) { need(frame.count(m) && frame[m] == f, "unknown frame of a map removed: " + n(m)); frame.erase(m); }
    void setRootNode(FrameNode* r) { need(!root && items.count(r), "root set twice or unknown"); root = r; }
    void removeRootNode(FrameNode* r) { need(root == r, "another root removed"); root = 0; }
    void check(Environment& e) {
        fits();         auto all = e.getItems<EI>(); CHECK_EQ(items.size(), all.size(), "items known from events"); std::map<EI*, EI*> ep, ef; std::set<std::pair<EI*, EI*>> el;
        for(auto i : all) { CHECK(items.count(i) && items[i] == i->getUniqueId(), "an item or its id is unknown to the listener: " + i->getUniqueId()); if(FrameNode* f = dynamic_cast<FrameNode*>(i)) if(f->getParent()) ep[f] = f->getParent(); if(CartesianMap* m = dynamic_cast<CartesianMap*>(i)) if(m->getFrameNode()) ef[m] = m->getFrameNode(); if(Layer* l = dynamic_cast<Layer*>(i)) for(auto p : l->getParents()) el.insert({l, p}); }
        CHECK(ep == parent, fmt("frame tree known from events: %zu relations, the environment has %zu", parent.size(), ep.size())); CHECK(ef == frame, fmt("frames of maps known from events: %zu, the environment has %zu", frame.size(), ef.size())); CHECK(el == layers, fmt("layer relations known from events: %zu, the environment has %zu", layers.size(), el.size())); CHECK_EQ(root, (EI*)e.getRootNode(), "root known from events"); }
    void empty(bool rootToo) { fits(); CHECK(items.empty() && parent.empty() && frame.empty() && layers.empty(), fmt("left after the end: %zu items, %zu frame relations, %zu frames of maps, %zu layer relations", items.size(), parent.size(), frame.size(), layers.size())); if(rootToo) CHECK(!root, "the root was not removed"); }
};
struct Hist {
    Ctx& c; Environment& env; std::string ns; int serial; bool blobs, richText, ops, bigText, detachable, idWithSlash; std::vector<EI::Ptr> kept;
    std::set<std::string> did;
    Hist(Ctx& c, Environment& e, const std::string& ns) : c(c), env(e), ns(ns), serial(0), blobs(true), richText(false), ops(false), bigText(false), detachable(true), idWithSlash(true) {}
    template<class T> T* any() { auto v = env.getItems<T>(); return v.empty() ? 0 : v[c.draw(v.size())]; }
    FrameNode* anyFrame(bool root) { auto v = env.getItems<FrameNode>(); std::vector<FrameNode*> r; for(auto f : v) if(root || f != env.getRootNode()) r.push_back(f); return r.empty() ? 0 : r[c.draw(r.size())]; }
    std::string newId() { switch(c.draw(4)) { case 0: return ""; case 1: return ns + "n" + str(serial++); case 2: return ns + "n/"; default: return idWithSlash ? ns + "n/p" + str(serial++) : ns + "q" + str(serial++); } }
    void fill(EI* i) {
        if(c.chance(1, 2)) i->setLabel(richText ? c.text() : c.ident());
        if(VpContent* k = contentOf(i)) { k->text = richText ? c.text() : c.ident(); if(bigText && c.chance(1, 6)) { k->text = std::string(c.range(5000, 15000), 'x') + c.ident(); c.label("long text"); } k->number = c.chance(1, 3) ? std::ldexp(c.signedReal(1), c.range(-60, 60)) : c.signedReal(100); k->integer = c.rangeC(-100000, 100000); k->hasBlob = blobs && !dynamic_cast<VpOp*>(i) && c.chance(1, 2); k->blob.clear(); if(k->hasBlob) { size_t n = c.size(0, 40); for(size_t a = 0; a < n; a++) k->blob += (char)c.draw(256); } if(Layer* l = dynamic_cast<Layer*>(i)) if(c.chance(1, 4)) l->setImmutable(); }
        else if(FrameNode* f = dynamic_cast<FrameNode*>(i)) { if(c.chance(1, 3)) f->setTransform(TransformWithUncertainty(eu::randomPose(c), eu::randomCov(c))); else f->setTransform(eu::randomPose(c)); } }
    EI* make(int k, const std::string& id) { EI* p; switch(k) { case 0: p = new FrameNode(); p->setUniqueId(id); break; case 1: p = new VpLayer(id); break; case 2: p = new VpMap2(id); break; case 3: p = new VpMap3(id); break; default: p = new VpOp(id); } fill(p); return p; }
    static int kindOf(EI* i) { return dynamic_cast<FrameNode*>(i) ? 0 : dynamic_cast<VpLayer*>(i) ? 1 : dynamic_cast<VpMap2*>(i) ? 2 : dynamic_cast<VpMap3*>(i) ? 3 : 4; }
    static bool below(FrameNode* n, FrameNode* anc) { while(n) { if(n == anc) return true; n = n->getParent(); } return false; }
    void step() {
        switch(c.weighted({6, 6, 4, 6, 2, 5, 4, 2, 3, 2, ops ? 6 : 0})) {
        case 0: { EI* p = make(c.draw(ops ? 5 : 4), newId()); if(CartesianMap* m = dynamic_cast<CartesianMap*>(p)) { if(c.boolean()) { env.attachItem(m, c.boolean() ? anyFrame(true) : 0); c.note("attach map " + p->getUniqueId()); did.insert("frame"); break; } } env.attachItem(p); c.note("attach " + p->getClassName() + " " + p->getUniqueId()); break; }
        case 1: { FrameNode* a = anyFrame(true); FrameNode* b = c.boolean() ? static_cast<FrameNode*>(make(0, newId())) : anyFrame(false); if(!b) break; if(b->isAttached() && below(a, b)) break; env.addChild(a, b); c.note("addChild " + a->getUniqueId() + " " + b->getUniqueId()); did.insert("tree"); break; }
        case 2: { FrameNode* b = anyFrame(false); if(!b || !b->getParent()) break; if(c.boolean()) { c.note("removeChild " + b->getUniqueId()); env.removeChild(b->getParent(), b); } else { FrameNode* a = anyFrame(true); if(below(a, b)) break; c.note("reparent " + b->getUniqueId() + " to " + a->getUniqueId()); env.addChild(a, b); } did.insert("tree"); break; }
        case 3: { CartesianMap* m = any<CartesianMap>(); if(!m) break; FrameNode* f = anyFrame(true); c.note("setFrameNode " + m->getUniqueId() + " " + f->getUniqueId()); m->setFrameNode(f); did.insert("frame"); break; }
        case 4: { CartesianMap* m = any<CartesianMap>(); if(!m || !m->getFrameNode()) break; c.note("detachFrameNode " + m->getUniqueId()); env.detachFrameNode(m, m->getFrameNode()); break; }
        case 5: { Layer* a = any<Layer>(); Layer* b = any<Layer>(); if(!a || a == b) break; if(c.chance(1, 4)) { c.note("removeChild layer " + a->getUniqueId() + " " + b->getUniqueId()); env.removeChild(a, b); } else { c.note("addChild layer " + a->getUniqueId() + " " + b->getUniqueId()); env.addChild(a, b); did.insert("layer"); } break; }
        case 6: { EI* i = any<EI>(); c.note("modify " + i->getUniqueId()); fill(i); i->itemModified(); did.insert("modified"); break; }
        case 7: { if(!detachable) break; EI* i = any<EI>(); if(i == env.getRootNode()) break; bool deep = c.boolean(); c.note("detach " + i->getUniqueId() + (deep ? " deep" : "")); EI::Ptr r = env.detachItem(i, deep); if(c.boolean()) kept.push_back(r); did.insert("detached"); break; }
        case 8: { // the same id, another item of the same class
            if(!detachable) break; EI* i = any<EI>(); if(i == env.getRootNode()) break; std::string id = i->getUniqueId(); int k = kindOf(i); c.note("replace " + id); env.detachItem(i); EI* p = make(k, id); env.attachItem(p); did.insert("replaced"); break; }
        case 9: { if(kept.empty()) break; EI::Ptr r = kept.back(); kept.pop_back(); if(env.getItem(r->getUniqueId())) break; c.note("attach again " + r->getUniqueId()); if(c.boolean()) fill(r.get()); env.attachItem(r.get()); did.insert("attached again"); break; }
        case 10: { VpOp* o = any<VpOp>(); Layer* l = any<Layer>(); if(!o || !l) break; bool in = c.boolean(); if(c.chance(1, 5)) { if(in) env.removeInput(o, l); else env.removeOutput(o, l); } else { c.note(std::string(in ? "addInput " : "addOutput ") + o->getUniqueId() + " " + l->getUniqueId()); if(in) env.addInput(o, l); else env.addOutput(o, l); did.insert(in ? "input" : "output"); } break; }
        } }
};
}
#define VP_ITEM_DEFS namespace envire { ENVIRONMENT_ITEM_DEF(VpLayer) ENVIRONMENT_ITEM_DEF(VpMap2) ENVIRONMENT_ITEM_DEF(VpMap3) ENVIRONMENT_ITEM_DEF(VpOp) }
#endif
