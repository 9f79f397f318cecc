prop='C16'; src='src/core/*.cpp'
needs='updating all operators when one of them has several outputs'
breaks='only the first output of an operator is announced after an update of all operators'
edits=[('src/core/Environment.cpp', '\t    itemModified(*out);\n\t}', '\t    itemModified(outs.front());\n\t}')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nstruct H : public EventHandler { std::map<std::string, int> n; void handle(const Event& e) { if(e.type == event::ITEM && e.operation == event::UPDATE) n[e.a->getUniqueId()]++; } };\nint main() { H h; Environment env; DemoOp* o = new DemoOp(); DemoLayer *a = new DemoLayer("/a"), *b = new DemoLayer("/b"); env.attachItem(o); env.attachItem(a); env.attachItem(b); o->addOutput(a); o->addOutput(b); env.addEventHandler(&h); env.updateOperators(); if(h.n["/a"] != 1 || h.n["/b"] != 1) { puts("outputs not announced"); return 1; } env.removeEventHandler(&h); return 0; }\n'
