prop='C14'; src='src/core/*.cpp'
needs='frames three or more levels below the common frame'
breaks='the chain of transforms is multiplied in the wrong order for the topmost frame of a chain of three or more'
edits=[('src/core/Environment.cpp', '\tC_fg = getTransform<T>(t) * C_fg;\n', '\tC_fg = t->getParent() == ancestor && from != t && from->getParent() != t ? C_fg * getTransform<T>(t) : getTransform<T>(t) * C_fg;\n')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nint main() { Environment env; FrameNode* p = env.getRootNode(); Eigen::Affine3d all = Eigen::Affine3d::Identity(); for(int i = 0; i < 4; i++) { Eigen::Affine3d t = Eigen::Translation3d(1, i, 0)*Eigen::AngleAxisd(0.3 + i, Eigen::Vector3d::UnitZ()); FrameNode* f = new FrameNode(t); env.addChild(p, f); p = f; all = all*t; } Eigen::Affine3d r = env.relativeTransform(p, env.getRootNode()); if((r.matrix() - all.matrix()).norm() > 1e-9) { puts("wrong product"); return 1; } return 0; }\n'
