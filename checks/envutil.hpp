// Environment items for the checks: a plain layer, maps of both dimensions and an operator, each with content
// (text, numbers, an optional binary stream) and a counter of live instances.
#ifndef VP_ENVUTIL_HPP
#define VP_ENVUTIL_HPP
#include "pbt.hpp"
#include <iostream>
#include <cmath>
#include <envire/Core.hpp>
#include <envire/core/Event.hpp>
#include <envire/core/EventHandler.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/core/Operator.hpp>
namespace envire {
struct VpCount { static long& live() { static long n = 0; return n; } VpCount() { live()++; } VpCount(const VpCount&) { live()++; } VpCount& operator=(const VpCount&) { return *this; } ~VpCount() { live()--; } };
// what an item holds beside its identity
struct VpContent {
    VpCount count; std::string text; double number; long integer; bool hasBlob; std::string blob;
    VpContent() : number(0), integer(0), hasBlob(false) {}
    bool same(const VpContent& o) const { return text == o.text && number == o.number && integer == o.integer && hasBlob == o.hasBlob && blob == o.blob; }
    std::string str() const { return pbt::fmt("text '%s' number %.17g integer %ld blob %d:%zu", text.c_str(), number, integer, (int)hasBlob, blob.size()); }
    void put(Serialization& so, const std::string& file) { so.write("text", text); so.write("number", number); so.write("integer", integer); so.write("hasblob", hasBlob); if(hasBlob) { std::ostream& os = so.getBinaryOutputStream(file); os.write(blob.data(), blob.size()); } }
    void take(Serialization& so, const std::string& file) { so.read("text", text); so.read("number", number); so.read("integer", integer); so.read("hasblob", hasBlob); blob.clear(); if(hasBlob) { std::istream& is = so.getBinaryInputStream(file); blob.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); } }
};
struct VpLayer : public Layer { ENVIRONMENT_ITEM(VpLayer) public: VpContent content; VpLayer() : Layer(Environment::ITEM_NOT_ATTACHED) {} explicit VpLayer(const std::string& id) : Layer(id) {}
    void serialize(Serialization& so) { Layer::serialize(so); content.put(so, getMapFileName() + ".blob"); } void unserialize(Serialization& so) { Layer::unserialize(so); content.take(so, getMapFileName() + ".blob"); } };
struct VpMap2 : public Map<2> { ENVIRONMENT_ITEM(VpMap2) public: VpContent content; Extents ext; VpMap2() {} explicit VpMap2(const std::string& id) : Map<2>(id) {} Extents getExtents() const { return ext; }
    void serialize(Serialization& so) { Map<2>::serialize(so); content.put(so, getMapFileName() + ".blob"); } void unserialize(Serialization& so) { Map<2>::unserialize(so); content.take(so, getMapFileName() + ".blob"); } };
struct VpMap3 : public Map<3> { ENVIRONMENT_ITEM(VpMap3) public: VpContent content; Extents ext; VpMap3() {} explicit VpMap3(const std::string& id) : Map<3>(id) {} Extents getExtents() const { return ext; }
    void serialize(Serialization& so) { Map<3>::serialize(so); content.put(so, getMapFileName() + ".blob"); } void unserialize(Serialization& so) { Map<3>::unserialize(so); content.take(so, getMapFileName() + ".blob"); } };
struct VpOp : public Operator { ENVIRONMENT_ITEM(VpOp) public: VpContent content; int runs; std::function<bool()> body; VpOp() : Operator(0, 0), runs(0) {} explicit VpOp(const std::string& id, int in = 0, int out = 0) : Operator(id, in, out), runs(0) {} bool updateAll() { runs++; return body ? body() : true; }
    void serialize(Serialization& so) { Operator::serialize(so); content.put(so, ""); } void unserialize(Serialization& so) { Operator::unserialize(so); content.take(so, ""); } };
inline VpContent* contentOf(EnvironmentItem* i) {
    if(VpLayer* p = dynamic_cast<VpLayer*>(i)) return &p->content; if(VpMap2* p = dynamic_cast<VpMap2*>(i)) return &p->content;
    if(VpMap3* p = dynamic_cast<VpMap3*>(i)) return &p->content; if(VpOp* p = dynamic_cast<VpOp*>(i)) return &p->content; return 0; }
}
namespace eu {
using namespace envire;
inline Eigen::Affine3d randomPose(pbt::Ctx& c, double mag = 10) {
    Eigen::Affine3d t = Eigen::Affine3d::Identity();
    switch(c.draw(4)) { case 0: break; case 1: t.linear() = Eigen::AngleAxisd(c.range(0, 3)*M_PI/2, Eigen::Vector3d::Unit(c.draw(3))).toRotationMatrix(); break; default: t.linear() = (Eigen::AngleAxisd(c.signedReal(M_PI), Eigen::Vector3d::UnitZ())*Eigen::AngleAxisd(c.signedReal(M_PI/2), Eigen::Vector3d::UnitY())*Eigen::AngleAxisd(c.signedReal(M_PI), Eigen::Vector3d::UnitX())).toRotationMatrix(); }
    t.translation() = Eigen::Vector3d(c.signedReal(mag), c.signedReal(mag), c.signedReal(mag)); return t; }
inline Eigen::Matrix<double,6,6> randomCov(pbt::Ctx& c, double s = 0.3) { Eigen::Matrix<double,6,6> L; for(int i = 0; i < 6; i++) for(int j = 0; j < 6; j++) L(i, j) = j < i ? c.signedReal(s) : j == i ? c.real(0.01, s) : 0; return L*L.transpose(); }
// silence the library's progress and warning output
struct Quiet { std::ostringstream sink; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
}
#endif
