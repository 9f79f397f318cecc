prop='C07'; src='src/core/*.cpp'
needs='assigning one layer to another that has metadata of its own under a key the source lacks'
breaks='the assigned layer keeps stale metadata'
edits=[('src/core/Layer.cpp', '\tremoveData();\n\tfor( DataMap', '\tfor( DataMap::const_iterator it = other.data_map.begin(); it != other.data_map.end(); it++ )\n\t    removeData( it->first );\n\tfor( DataMap')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nint main() { DemoLayer a("a"), b("b"); a.getData<int>("x") = 1; b.getData<int>("x") = 2; b.getData<int>("old") = 3; b = a; if(b.getData<int>("x") != 1) { puts("not assigned"); return 1; } if(b.hasData("old")) { puts("stale metadata"); return 1; } return 0; }\n'
