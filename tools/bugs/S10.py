prop='C13'; src='src/core/*.cpp'
needs='a layer with two parent layers when the scene is saved'
breaks='only the first parent relation of a layer is written to the scene'
edits=[('src/core/Serialization.cpp', '\t    it != env->layerTree.end(); it++ )', '\t    it != env->layerTree.end(); it = env->layerTree.upper_bound( it->first ) )')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nint main() { Environment env; DemoLayer *a = new DemoLayer("/a"), *b = new DemoLayer("/b"), *k = new DemoLayer("/k"); env.attachItem(a); env.attachItem(b); env.attachItem(k); env.addChild(a, k); env.addChild(b, k); env.serialize("scene"); Environment* e = Environment::unserialize("scene"); size_t n = e->getItem<DemoLayer>("/k")->getParents().size(); delete e; if(n != 2) { printf("%zu parents after loading\\n", n); return 1; } return 0; }\n'
