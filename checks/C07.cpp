//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 60000
//@ thorough: 2000000
// Metadata of layers: typed, owned, independent between copies.
#include "envutil.hpp"
#include <memory>
using namespace pbt; using namespace envire;
namespace envire { ENVIRONMENT_ITEM_DEF(VpLayer) ENVIRONMENT_ITEM_DEF(VpMap2) ENVIRONMENT_ITEM_DEF(VpMap3) ENVIRONMENT_ITEM_DEF(VpOp) }
namespace pbt { const char* RULE = "Histories of up to 60 operations on up to five layers (plain layers and maps, attached to an environment or not): creating, reading, writing, querying and removing metadata of six types (among them a type and its subclass) under a few keys, copying, cloning, assigning (also to itself) and destroying layers. A model (layer -> key -> type and value) predicts every answer, which calls throw std::runtime_error, and the number of live metadata objects. The typed holders are driven the same way. Non-trivial: metadata of at least two types existed and a layer with metadata was copied or assigned."; }
namespace {
struct Obj { static long& live() { static long n = 0; return n; } long v; Obj() : v(0) { live()++; } Obj(const Obj& o) : v(o.v) { live()++; } Obj& operator=(const Obj& o) { v = o.v; return *this; } virtual ~Obj() { live()--; } };
struct SubObj : public Obj { static long& liveSub() { static long n = 0; return n; } SubObj() { liveSub()++; } SubObj(const SubObj& o) : Obj(o) { liveSub()++; } ~SubObj() { liveSub()--; } };
enum { INT, DOUBLE, STRING, VEC, OBJ, SUB, NT };
const char* TN[] = {"int", "double", "string", "vector", "object", "subobject"};
struct Val { int type; long v; bool operator==(const Val& o) const { return type == o.type && v == o.v; } };
template<class T> struct Tr;
template<> struct Tr<int> { static void set(int& t, long v) { t = v; } static long get(const int& t) { return t; } };
template<> struct Tr<double> { static void set(double& t, long v) { t = v; } static long get(const double& t) { return (long)t; } };
template<> struct Tr<std::string> { static void set(std::string& t, long v) { t = v ? str(v) + std::string(40, 'x') : ""; } static long get(const std::string& t) { return t.empty() ? 0 : atol(t.c_str()); } };
template<> struct Tr<std::vector<long>> { static void set(std::vector<long>& t, long v) { t.clear(); if(v) t.assign(7, v); } static long get(const std::vector<long>& t) { return t.empty() ? 0 : t[6]; } };
template<> struct Tr<Obj> { static void set(Obj& t, long v) { t.v = v; } static long get(const Obj& t) { return t.v; } };
template<> struct Tr<SubObj> { static void set(SubObj& t, long v) { t.v = v; } static long get(const SubObj& t) { return t.v; } };
template<class F> void dispatch(int type, F f) { switch(type) { case INT: f((int*)0); break; case DOUBLE: f((double*)0); break; case STRING: f((std::string*)0); break; case VEC: f((std::vector<long>*)0); break; case OBJ: f((Obj*)0); break; default: f((SubObj*)0); } }
template<class F> bool throwsRT(F f) { try { f(); } catch(const std::runtime_error&) { return true; } return false; }
struct L { Layer* p; EnvironmentItem::Ptr ref; std::map<std::string, Val> m; int serial; };
struct Get { Layer* l; std::string k; const Val* have; bool set; long v; bool* threw; long* got; template<class T> void operator()(T*) { *threw = throwsRT([&] { T& t = l->getData<T>(k); *got = Tr<T>::get(t); if(set) { Tr<T>::set(t, v); } }); } };
struct CGet { const Layer* l; std::string k; bool* threw; long* got; template<class T> void operator()(T*) { *threw = throwsRT([&] { const T& t = l->getData<T>(k); *got = Tr<T>::get(t); }); } };
struct Has { const Layer* l; std::string k; bool* r; template<class T> void operator()(T*) { *r = l->hasData<T>(k); } };
}
PROP(layers, 3) {
    eu::Quiet q; long base = Obj::live(), baseS = SubObj::liveSub(); { Environment env; std::vector<L> ls; int serial = 0; std::set<int> types; bool copied = false; const std::vector<std::string> keys{"a", "b", "vertex_color", ""};
    auto note = [&](const std::string& s) { c.note(s); };
    auto nu = [&](Layer* p) { L l; l.p = p; l.ref = p; l.serial = serial++; if(c.chance(1, 3)) env.attachItem(p); return l; };
    auto make = [&]() -> Layer* { switch(c.draw(3)) { case 0: return new VpLayer(); case 1: return new VpMap2(); default: return new VpMap3(); } };
    ls.push_back(nu(make())); size_t n = c.size(1, 60);
    for(size_t i = 0; i < n; i++) {
        L& l = ls[c.draw(ls.size())]; std::string k = c.pick(keys); int t = c.draw(NT); auto it = l.m.find(k); bool have = it != l.m.end();
        switch(c.weighted({8, 3, 3, 2, 1, 3, 2, 1, 1})) {
        case 0: { bool set = c.chance(3, 4), threw; long got = 0, v = c.range(1, 99); note(fmt("%d: get<%s>('%s')%s", l.serial, TN[t], k.c_str(), set ? (" = " + str(v)).c_str() : "")); dispatch(t, Get{l.p, k, 0, set, v, &threw, &got}); if(have && it->second.type != t) { c.label("wrong type"); CHECK(threw, fmt("metadata of type %s read as %s without an error", TN[it->second.type], TN[t])); } else { CHECK(!threw, "access to metadata of the right type failed"); CHECK_EQ(got, have ? it->second.v : 0L, "metadata value"); l.m[k] = Val{t, set ? v : (have ? it->second.v : 0)}; types.insert(t); } break; }
        case 1: { bool threw; long got = 0; note(fmt("%d: const get<%s>('%s')", l.serial, TN[t], k.c_str())); dispatch(t, CGet{l.p, k, &threw, &got}); CHECK_EQ(threw, !have || it->second.type != t, "whether reading metadata of a constant layer fails"); if(!threw) CHECK_EQ(got, it->second.v, "metadata value"); break; }
        case 2: { bool r; note(fmt("%d: has<%s>('%s')", l.serial, TN[t], k.c_str())); dispatch(t, Has{l.p, k, &r}); CHECK_EQ(r, have && it->second.type == t, "hasData of a type"); break; }
        case 3: note(fmt("%d: remove '%s'", l.serial, k.c_str())); l.p->removeData(k); l.m.erase(k); break;
        case 4: note(fmt("%d: remove all", l.serial)); l.p->removeData(); l.m.clear(); break;
        case 5: { if(ls.size() >= 5) break; if(!l.m.empty()) copied = true; int src = l.serial; std::map<std::string, Val> m = l.m; Layer* p = 0; if(c.boolean()) p = dynamic_cast<Layer*>(l.p->clone()); else { if(VpLayer* x = dynamic_cast<VpLayer*>(l.p)) p = new VpLayer(*x); else if(VpMap2* y = dynamic_cast<VpMap2*>(l.p)) p = new VpMap2(*y); else p = new VpMap3(*dynamic_cast<VpMap3*>(l.p)); } CHECK(p, "clone is no layer"); CHECK(!p->isAttached(), "a copy of a layer is attached"); L x; x.p = p; x.ref = p; x.m = m; x.serial = serial++; note(fmt("copy %d -> %d", src, x.serial)); ls.push_back(x); break; }
        case 6: { L& o = ls[c.draw(ls.size())]; note(fmt("assign %d = %d", l.serial, o.serial)); if(l.p->isAttached() || (&l != &o && (l.p->isAttached() || o.p->isAttached()))) break; if(!o.m.empty() && &l != &o) copied = true; *l.p = *o.p; l.m = o.m; break; }
        case 7: if(ls.size() < 5) { ls.push_back(nu(make())); note(fmt("new %d", ls.back().serial)); } break;
        case 8: { if(ls.size() < 2) break; size_t j = c.draw(ls.size()); note(fmt("destroy %d", ls[j].serial)); if(ls[j].p->isAttached()) env.detachItem(ls[j].p); ls.erase(ls.begin() + j); break; }
        }
        long no = 0, ns = 0; for(auto& x : ls) { for(auto& kk : keys) CHECK_EQ(x.p->hasData(kk), x.m.count(kk) > 0, fmt("hasData('%s') of layer %d", kk.c_str(), x.serial)); for(auto& e : x.m) { bool threw; long got = -1; dispatch(e.second.type, CGet{x.p, e.first, &threw, &got}); CHECK(!threw, fmt("metadata '%s' of layer %d changed its type", e.first.c_str(), x.serial)); CHECK_EQ(got, e.second.v, fmt("metadata '%s' of layer %d", e.first.c_str(), x.serial)); no += e.second.type == OBJ || e.second.type == SUB; ns += e.second.type == SUB; } }
        CHECK_EQ(Obj::live() - base, no, "live metadata objects"); CHECK_EQ(SubObj::liveSub() - baseS, ns, "live metadata objects of the subclass");
    }
    if(types.size() >= 2 && copied) c.nontrivial(); }
    CHECK_EQ(Obj::live() - base, 0L, "metadata objects after all layers are gone"); CHECK_EQ(SubObj::liveSub() - baseS, 0L, "metadata objects after all layers are gone");
}
PROP(holder, 1) {
    long base = Obj::live(); { std::vector<std::unique_ptr<HolderBase>> hs; std::vector<std::pair<int, long>> m; size_t n = c.range(1, 12); std::set<int> ty; bool cl = false;
    for(size_t i = 0; i < n; i++) {
        if(hs.empty() || c.chance(1, 4)) { long v = c.range(0, 9); switch(c.draw(4)) { case 0: { Holder<Obj>* h = new Holder<Obj>(); h->getData()->v = v; hs.emplace_back(h); m.push_back({OBJ, v}); break; } case 1: { SubObj* s = new SubObj(); s->v = v; Holder<SubObj>* h = new Holder<SubObj>(s); CHECK(h->getData() == s, "a holder has to hold the object it was given"); hs.emplace_back(h); m.push_back({SUB, v}); break; } case 2: hs.emplace_back(new Holder<int>(new int(v))); m.push_back({INT, v}); break; default: { Holder<std::string>* h = new Holder<std::string>(); Tr<std::string>::set(*h->getData(), v); hs.emplace_back(h); m.push_back({STRING, v}); } } c.note(fmt("new %s %ld", TN[m.back().first], v)); }
        else { size_t j = c.draw(hs.size()); HolderBase& h = *hs[j]; const HolderBase& ch = h; switch(c.draw(3)) {
            case 0: { c.note(fmt("clone %zu", j)); hs.emplace_back(h.clone()); m.push_back(m[j]); cl = true; break; }
            case 1: { long v = c.range(0, 9); c.note(fmt("set %zu to %ld", j, v)); switch(m[j].first) { case OBJ: h.get<Obj>().v = v; break; case SUB: h.get<SubObj>().v = v; break; case INT: h.get<int>() = v; break; default: Tr<std::string>::set(h.get<std::string>(), v); } m[j].second = v; break; }
            default: { int t = m[j].first; CHECK_EQ(ch.isOfType<int>(), t == INT, "isOfType<int>"); CHECK_EQ(ch.isOfType<Obj>(), t == OBJ, "isOfType<object>"); CHECK_EQ(ch.isOfType<SubObj>(), t == SUB, "isOfType<subobject>"); CHECK_EQ(ch.isOfType<std::string>(), t == STRING, "isOfType<string>"); CHECK_EQ(throwsRT([&] { ch.get<int>(); }), t != INT, "const get<int>"); CHECK_EQ(throwsRT([&] { h.get<int>(); }), t != INT, "get<int>"); CHECK_EQ(throwsRT([&] { ch.get<Obj>(); }), t != OBJ, "const get<object>"); CHECK_EQ(throwsRT([&] { h.get<Obj>(); }), t != OBJ, "get<object>"); CHECK_EQ(throwsRT([&] { h.get<SubObj>(); }), t != SUB, "get<subobject>"); CHECK_EQ(throwsRT([&] { ch.get<std::string>(); }), t != STRING, "const get<string>"); } } }
        long no = 0; for(size_t j = 0; j < hs.size(); j++) { const HolderBase& ch = *hs[j]; long v = m[j].first == OBJ ? ch.get<Obj>().v : m[j].first == SUB ? ch.get<SubObj>().v : m[j].first == INT ? ch.get<int>() : Tr<std::string>::get(ch.get<std::string>()); CHECK_EQ(v, m[j].second, fmt("value of holder %zu", j)); no += m[j].first == OBJ || m[j].first == SUB; ty.insert(m[j].first); } CHECK_EQ(Obj::live() - base, no, "live held objects");
    } if(ty.size() >= 2 && cl) c.nontrivial(); }
    CHECK_EQ(Obj::live() - base, 0L, "held objects after their holders are gone");
}
