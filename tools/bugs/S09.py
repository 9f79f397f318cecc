prop='C11'; src='src/core/*.cpp'
needs='an item that is attached and modified between two flushes of an event queue'
breaks='the queued addition and the update cancel each other, so the receiver never gets the item'
edits=[('src/core/Event.cpp', '    if( ((operation == event::REMOVE && other.operation == event::ADD)\n', '    if( ((operation != event::ADD && other.operation == event::ADD)\n')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nstruct Q : public EventQueue { int n; Q() : n(0) {} void process(const Event& e) { if(e.type == event::ITEM && e.id_a == "/new") n++; } };\nint main() { Environment env; Q q; env.addEventHandler(&q); q.flush(); DemoLayer* f = new DemoLayer("/new"); env.attachItem(f); f->itemModified(); q.flush(); int n = q.n; env.removeEventHandler(&q); if(n < 1) { puts("a new item was never announced"); return 1; } return 0; }\n'
