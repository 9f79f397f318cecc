// Stand-in for libply's header: a callback driven parser for ascii and little-endian binary PLY.
#ifndef VP_SHIM_PLY_HPP
#define VP_SHIM_PLY_HPP
#include <tr1/functional>
#include <tr1/tuple>
#include <istream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
namespace ply {
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef float float32; typedef double float64;
enum byte_order { little_endian_byte_order, big_endian_byte_order };
static const byte_order host_byte_order = little_endian_byte_order;
enum format { ascii_format, binary_little_endian_format, binary_big_endian_format };
typedef format format_type;
template<class S> struct scalar_cb { typedef std::tr1::function<std::tr1::function<void(S)>(const std::string&, const std::string&)> type; };
template<class N, class S> struct list_cb { typedef std::tr1::tuple<std::tr1::function<void(N)>, std::tr1::function<void(S)>, std::tr1::function<void()> > tuple; typedef std::tr1::function<tuple(const std::string&, const std::string&)> type; };
template<class S> struct scalar_slot { typename scalar_cb<S>::type f; };
template<class N, class S> struct list_slot { typename list_cb<N,S>::type f; };
struct callback_types {
  struct scalar_property_definition_callbacks_type : scalar_slot<int8>, scalar_slot<int16>, scalar_slot<int32>, scalar_slot<uint8>, scalar_slot<uint16>, scalar_slot<uint32>, scalar_slot<float32>, scalar_slot<float64> {};
  template<class N> struct per_size : list_slot<N,int8>, list_slot<N,int16>, list_slot<N,int32>, list_slot<N,uint8>, list_slot<N,uint16>, list_slot<N,uint32>, list_slot<N,float32>, list_slot<N,float64> {};
  struct list_property_definition_callbacks_type : per_size<uint8>, per_size<uint16>, per_size<uint32> {};
};
template<class S> inline typename scalar_cb<S>::type& at(callback_types::scalar_property_definition_callbacks_type& c) { return static_cast<scalar_slot<S>&>(c).f; }
template<class N, class S> inline typename list_cb<N,S>::type& at(callback_types::list_property_definition_callbacks_type& c) { return static_cast<list_slot<N,S>&>(c).f; }
class ply_parser {
public:
  typedef int flags_type;
  typedef std::tr1::function<void(std::size_t, const std::string&)> msg_cb;
  explicit ply_parser(flags_type = 0) {}
  void info_callback(const msg_cb& f) { info = f; } void warning_callback(const msg_cb& f) { warn = f; } void error_callback(const msg_cb& f) { err = f; }
  void magic_callback(const std::tr1::function<void()>& f) { magic = f; }
  void format_callback(const std::tr1::function<void(format_type, const std::string&)>& f) { fmt = f; }
  void comment_callback(const std::tr1::function<void(const std::string&)>& f) { comment = f; }
  void obj_info_callback(const std::tr1::function<void(const std::string&)>& f) { objinfo = f; }
  void end_header_callback(const std::tr1::function<bool()>& f) { endh = f; }
  void scalar_property_definition_callbacks(const callback_types::scalar_property_definition_callbacks_type& c) { sc = c; }
  void list_property_definition_callbacks(const callback_types::list_property_definition_callbacks_type& c) { lc = c; }
  bool parse(std::istream& is) {
    std::size_t line = 0; std::string l; struct Elem { std::string name; size_t count; std::vector<std::tr1::function<bool(std::istream&)> > props; };
    std::vector<Elem> elems; format_type f = ascii_format; bool have = false;
    if(!std::getline(is, l) || trim(l) != "ply") return fail(1, "parse error: not a ply file");
    line = 1; if(magic) magic();
    while(std::getline(is, l)) {
      ++line; l = trim(l); std::istringstream ss(l); std::string k; ss >> k;
      if(k == "format") { std::string n, v; ss >> n >> v; f = n == "ascii" ? ascii_format : n == "binary_little_endian" ? binary_little_endian_format : binary_big_endian_format; have = true; if(fmt) fmt(f, v); }
      else if(k == "comment") { if(comment) comment(l); } else if(k == "obj_info") { if(objinfo) objinfo(l); }
      else if(k == "element") { Elem e; if(!(ss >> e.name >> e.count)) return fail(line, "parse error"); elems.push_back(e); }
      else if(k == "property") { if(elems.empty()) return fail(line, "parse error"); std::string t; ss >> t;
        std::tr1::function<bool(std::istream&)> r;
        if(t == "list") { std::string a, b, n; ss >> a >> b >> n; if(a == "uchar" || a == "uint8") r = lst<uint8>(b, elems.back().name, n, f); else if(a == "ushort" || a == "uint16") r = lst<uint16>(b, elems.back().name, n, f); else if(a == "uint" || a == "uint32" || a == "int" || a == "int32") r = lst<uint32>(b, elems.back().name, n, f); }
        else { std::string n; ss >> n; r = scal(t, elems.back().name, n, f); }
        if(!r) return fail(line, "parse error: unknown property type"); elems.back().props.push_back(r); }
      else if(k == "end_header") { if(!have) return fail(line, "parse error: no format"); if(endh && !endh()) return true; 
        for(size_t e = 0; e < elems.size(); e++) for(size_t i = 0; i < elems[e].count; i++) for(size_t p = 0; p < elems[e].props.size(); p++) if(!elems[e].props[p](is)) return fail(line, "parse error: unexpected end of data");
        return true; }
      else return fail(line, "parse error: unknown keyword");
    }
    return fail(line, "parse error: unexpected end of file");
  }
private:
  static std::string trim(std::string s) { while(!s.empty() && (s.back() == '\r' || s.back() == ' ')) s.pop_back(); return s; }
  bool fail(std::size_t l, const std::string& m) { if(err) err(l, m); return false; }
  template<class S> static bool rd(std::istream& is, S& v, format_type f) {
    if(f == ascii_format) { double d; if(!(is >> d)) return false; v = (S)d; return true; }
    char b[sizeof(S)]; if(!is.read(b, sizeof(S))) return false; if(f == binary_big_endian_format) for(size_t i = 0; i < sizeof(S)/2; i++) std::swap(b[i], b[sizeof(S)-1-i]); memcpy(&v, b, sizeof(S)); return true; }
  template<class S> struct ScalR { std::tr1::function<void(S)> cb; format_type f; bool operator()(std::istream& is) const { S v; if(!rd(is, v, f)) return false; if(cb) cb(v); return true; } };
  template<class S> std::tr1::function<bool(std::istream&)> mk(const std::string& e, const std::string& n, format_type f) { ScalR<S> r; r.f = f; typename scalar_cb<S>::type& d = at<S>(sc); if(d) r.cb = d(e, n); return r; }
  std::tr1::function<bool(std::istream&)> scal(const std::string& t, const std::string& e, const std::string& n, format_type f) {
    if(t == "char" || t == "int8") return mk<int8>(e,n,f); if(t == "uchar" || t == "uint8") return mk<uint8>(e,n,f); if(t == "short" || t == "int16") return mk<int16>(e,n,f); if(t == "ushort" || t == "uint16") return mk<uint16>(e,n,f);
    if(t == "int" || t == "int32") return mk<int32>(e,n,f); if(t == "uint" || t == "uint32") return mk<uint32>(e,n,f); if(t == "float" || t == "float32") return mk<float32>(e,n,f); if(t == "double" || t == "float64") return mk<float64>(e,n,f); return std::tr1::function<bool(std::istream&)>(); }
  template<class N, class S> struct ListR { typename list_cb<N,S>::tuple t; format_type f; bool operator()(std::istream& is) const { N n; if(!rd(is, n, f)) return false; if(std::tr1::get<0>(t)) std::tr1::get<0>(t)(n); for(size_t i = 0; i < n; i++) { S v; if(!rd(is, v, f)) return false; if(std::tr1::get<1>(t)) std::tr1::get<1>(t)(v); } if(std::tr1::get<2>(t)) std::tr1::get<2>(t)(); return true; } };
  template<class N, class S> std::tr1::function<bool(std::istream&)> mkl(const std::string& e, const std::string& n, format_type f) { ListR<N,S> r; r.f = f; typename list_cb<N,S>::type& d = at<N,S>(lc); if(d) r.t = d(e, n); return r; }
  template<class N> std::tr1::function<bool(std::istream&)> lst(const std::string& t, const std::string& e, const std::string& n, format_type f) {
    if(t == "char" || t == "int8") return mkl<N,int8>(e,n,f); if(t == "uchar" || t == "uint8") return mkl<N,uint8>(e,n,f); if(t == "short" || t == "int16") return mkl<N,int16>(e,n,f); if(t == "ushort" || t == "uint16") return mkl<N,uint16>(e,n,f);
    if(t == "int" || t == "int32") return mkl<N,int32>(e,n,f); if(t == "uint" || t == "uint32") return mkl<N,uint32>(e,n,f); if(t == "float" || t == "float32") return mkl<N,float32>(e,n,f); if(t == "double" || t == "float64") return mkl<N,float64>(e,n,f); return std::tr1::function<bool(std::istream&)>(); }
  msg_cb info, warn, err; std::tr1::function<void()> magic; std::tr1::function<void(format_type, const std::string&)> fmt; std::tr1::function<void(const std::string&)> comment, objinfo; std::tr1::function<bool()> endh;
  callback_types::scalar_property_definition_callbacks_type sc; callback_types::list_property_definition_callbacks_type lc;
};
}
#endif
