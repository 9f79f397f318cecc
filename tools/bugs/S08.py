prop='C10'; src='src/core/*.cpp'
needs='detaching an operator (rather than a layer) that has an output'
breaks='the output relation of a detached operator stays behind, so its layer is generated by an operator that is gone'
edits=[('src/core/Environment.cpp', '    findMapItem<operatorGraphType>( \n\t    operatorGraphOutput, boost::bind( ', '    if( dynamic_cast<Layer*>(item) ) findMapItem<operatorGraphType>( \n\t    operatorGraphOutput, boost::bind( ')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nint main() { Environment env; DemoOp* o = new DemoOp(); DemoLayer* l = new DemoLayer("l"); env.attachItem(o); env.attachItem(l); o->addOutput(l); EnvironmentItem::Ptr keep = env.detachItem(o); if(l->isGenerated()) { puts("generated by a detached operator"); return 1; } return 0; }\n'
