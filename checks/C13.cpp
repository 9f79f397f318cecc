//@ sources: src/core/*.cpp
//@ libs: -lyaml -lboost_thread -lpthread
//@ quick: 16000
//@ thorough: 500000
// Scenes on disk: what is saved is what is loaded.
#include "envhist.hpp"
#include <boost/filesystem.hpp>
using namespace pbt; using namespace envire; using namespace eh;
VP_ITEM_DEFS
namespace pbt { const char* RULE = "Environments grown by random histories of up to 25 operations (all item classes, labels and text with quotes and newlines, numbers over 36 decades, covariances, binary streams, prefixes, frame trees with orphans, layer relations with several parents, operator graphs) are saved to a scratch directory and loaded. Oracle: the loaded environment has the same items, content, relations and root; it can grow on (new items get ids that are not taken), be saved over the old directory and loaded again with the same result. Look-ups in the class registry are compared with what was registered. Ids with underscores are left out (see known-findings.txt). Non-trivial: at least four items and two kinds of relation."; }
PROP(scene, 6) {
    eu::Quiet q; std::string dir = scratchDir() + "/scene"; std::unique_ptr<Environment> e(new Environment()); if(c.chance(1, 3)) e->setEnvironmentPrefix("/robot"); size_t rounds = c.range(1, 3);
    for(size_t r = 0; r < rounds; r++) {
        Hist h(c, *e, r ? fmt("r%zu", r) : std::string()); h.richText = true; h.ops = true; size_t n = c.size(1, 25); for(size_t i = 0; i < n; i++) h.step(); h.kept.clear();
        Snap a = snapshot(*e); c.note("save"); e->serialize(dir); Snap still = snapshot(*e); CHECK(diff(a, still, true).empty(), "saving changed the environment"); c.note("load"); std::unique_ptr<Environment> l(Environment::unserialize(dir)); Snap b = snapshot(*l); std::string d = diff(a, b, true); CHECK(d.empty(), "the loaded scene differs: " + d); CHECK_EQ(b.root, a.root, "root of the loaded scene"); CHECK_EQ(l->getItem(b.root).get(), (EI*)l->getRootNode(), "the root is not an item of the loaded scene");
        int rel = !a.parent.empty() + !a.frame.empty() + !a.layers.empty() + !a.in.empty() + !a.out.empty(); if(a.items.size() >= 4 && rel >= 2) c.nontrivial(); for(auto& x : h.did) c.label(x); if(r) c.label("saved over an older scene");
        e.swap(l); }
    }
PROP(factory, 1) {
    eu::Quiet q; Serialization so; so.begin(); struct End { Serialization& s; ~End() { s.end(); } } end{so}; std::set<std::string> known; for(auto& k : SerializationFactory::getMap()) known.insert(k.first); so.write("id", std::string("/x")); so.write("label", std::string("l")); so.write("immutable", false); VpContent z; z.put(so, ""); so.write("transform", Transform(Eigen::Affine3d::Identity()));
    static const char* cls[] = {"envire::VpLayer", "envire::VpMap2", "envire::VpMap3", "envire::VpOp", "envire::FrameNode"}; std::string k = cls[c.draw(5)];
    switch(c.draw(3)) { case 0: { c.note("create " + k); EI::Ptr p(SerializationFactory::createObject(k, so)); CHECK_EQ(p->getClassName(), k, "class of the created object"); CHECK_EQ(p->getUniqueId(), std::string("/x"), "id of the created object"); c.nontrivial(); break; }
        case 1: { // registered under a plain name, asked for with a namespace
            std::string n = "alias" + c.ident(); SerializationFactory::addClass(n, &createItem<VpLayer>); c.note("alias " + n); EI::Ptr p(SerializationFactory::createObject(n, so)); CHECK_EQ(p->getClassName(), std::string("envire::VpLayer"), "class under an alias"); EI::Ptr p2(SerializationFactory::createObject("some::space::" + n, so)); CHECK_EQ(p2->getClassName(), std::string("envire::VpLayer"), "class under a qualified alias"); CHECK_THROWS(EI::Ptr(SerializationFactory::createObject("q" + n, so)), "unknown class ending in a known name"); SerializationFactory::addClass(n, &createItem<VpOp>); EI::Ptr p3(SerializationFactory::createObject(n, so)); CHECK_EQ(p3->getClassName(), std::string("envire::VpOp"), "class registered again"); SerializationFactory::getMap().erase(n); c.nontrivial(); break; }
        default: { std::string n = c.boolean() ? k + c.ident(3) : c.boolean() ? c.ident() : "no::such::" + c.ident(); if(known.count(n)) break; size_t p = n.rfind("::"); if(p != std::string::npos && known.count(n.substr(p + 2))) break; c.note("unknown class " + n); CHECK_THROWS(EI::Ptr(SerializationFactory::createObject(n, so)), "unknown class"); c.nontrivial(); } }
}
PROP(missing, 0.3) { eu::Quiet q; std::string dir = scratchDir() + "/none" + c.ident(); c.note(dir); CHECK_THROWS(delete Environment::unserialize(dir), "loading a directory without scene"); if(c.boolean()) { boost::filesystem::create_directories(dir); CHECK_THROWS(delete Environment::unserialize(dir), "loading an empty directory"); c.nontrivial(); } }
