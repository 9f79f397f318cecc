prop='C12'; src='src/core/*.cpp'
needs='a saved or transferred covariance that has different off-diagonal entries, i.e. an uncertain frame'
breaks='the rows of a covariance are read in the wrong order for entries beyond the fifth row'
edits=[('src/core/Serialization.cpp', '        value( i / value.rows(), i % value.rows() ) =\n            boost::lexical_cast', '        value( i / value.rows(), i < 30 ? i % value.rows() : 35 - i ) =\n            boost::lexical_cast')]
demo='#include <cstdio>\n#include <cmath>\n#include <iostream>\n#include <unistd.h>\n#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\nusing namespace envire;\nnamespace envire {\nstruct DemoLayer : public Layer { ENVIRONMENT_ITEM(DemoLayer) public: std::string text; DemoLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit DemoLayer(const std::string& id) : Layer(id) {} void serialize(Serialization& so) { Layer::serialize(so); so.write("text", text); } void unserialize(Serialization& so) { Layer::unserialize(so); so.read("text", text); } };\nstruct DemoMap : public Map<3> { ENVIRONMENT_ITEM(DemoMap) public: Extents ext; DemoMap() {} explicit DemoMap(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; } void serialize(Serialization& so) { Map<3>::serialize(so); } void unserialize(Serialization& so) { Map<3>::unserialize(so); } };\nstruct DemoOp : public Operator { ENVIRONMENT_ITEM(DemoOp) public: int runs; DemoOp() : Operator(0, 0), runs(0) {} bool updateAll() { runs++; return true; } };\nENVIRONMENT_ITEM_DEF(DemoLayer) ENVIRONMENT_ITEM_DEF(DemoMap) ENVIRONMENT_ITEM_DEF(DemoOp)\n}\nint main() { Environment a, b; FrameNode* f = new FrameNode(); Eigen::Matrix<double,6,6> c = Eigen::Matrix<double,6,6>::Identity(); c(5, 1) = c(1, 5) = 0.25; c(5, 5) = 3; f->setTransform(TransformWithUncertainty(Eigen::Affine3d::Identity(), c)); f->setUniqueId("/f"); a.addChild(a.getRootNode(), f); std::vector<BinaryEvent> ev; a.pullEvents(ev, true); b.applyEvents(ev); FrameNode* g = b.getItem<FrameNode>("/f").get(); if(!g || (g->getTransformWithUncertainty().getCovariance() - c).norm() > 1e-9) { puts("the covariance changed on its way"); return 1; } return 0; }\n'
