#ifndef VP_SHIM_BASE_ANGLE_HPP
#define VP_SHIM_BASE_ANGLE_HPP
#include <cmath>
#include <base/Eigen.hpp>
namespace base {
struct Angle { double rad; Angle():rad(0){} static double normalizeRad(double r){ while(r>M_PI) r-=2*M_PI; while(r<-M_PI) r+=2*M_PI; return r; }
 static double rad2Deg(double r){return r/M_PI*180;} static double deg2Rad(double d){return d/180*M_PI;}
 static Angle fromRad(double r){Angle a;a.rad=normalizeRad(r);return a;} static Angle fromDeg(double d){return fromRad(deg2Rad(d));}
 double getRad()const{return rad;} double getDeg()const{return rad2Deg(rad);} };
}
#endif
