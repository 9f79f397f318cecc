// Choice-tape property-based testing engine.
//
// A test case is a function of a Ctx; every random decision goes through Ctx::draw, which either takes
// fresh pseudo-random values (seeded from VERIF_SEED, the sub-check's name and the case number) or replays
// a recorded tape.  Failures (an assertion, an unexpected exception, a sanitizer report, a signal, or a
// case that burns CPU without ending) are shrunk on the tape and written to a replay file.
#ifndef VP_PBT_HPP
#define VP_PBT_HPP
#include <cstdint>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
#include <limits>

namespace pbt {

struct Failure { std::string msg; explicit Failure(const std::string& m) : msg(m) {} };
struct Discard {};

class Ctx {
public:
    // ---- choices
    uint32_t draw(uint32_t bound);                      // uniform in [0,bound), 0 is the simplest
    int64_t range(int64_t lo, int64_t hi) { if(hi <= lo) return lo; return lo + (int64_t)draw((uint32_t)(hi - lo + 1)); }  // simplest: lo
    int64_t rangeC(int64_t lo, int64_t hi);             // simplest: value nearest zero
    bool boolean() { return draw(2) == 1; }
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // simplest: false
    double unit() { return draw(1u << 24) / double(1u << 24); }               // [0,1)
    double real(double lo, double hi);                  // mixture: grid values and continuous ones; simplest near lo/0
    double signedReal(double mag);                      // [-mag,mag], simplest 0
    size_t size(size_t lo, size_t hi);                  // biased to small
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
    size_t weighted(const std::vector<int>& w);         // index by weight
    std::string ident(size_t maxlen = 8);               // [a-z][a-z0-9_]*
    std::string text(size_t maxlen = 12);               // printable incl. punctuation, spaces, quotes, newlines
    // ---- reporting
    void note(const std::string& s) { if(rendering) { notes += s + "\n"; mirror(s); } }
    void mirror(const std::string& s);                  // also to a file, so that notes survive a crash
    int noteFd = -1;
    void label(const std::string& s) { labels.insert(s); }
    void nontrivial() { nontriv = true; }
    void discard() { throw Discard(); }
    bool isRendering() const { return rendering; }
    // ---- state
    std::vector<uint32_t> tape; size_t pos = 0; bool replay = false; uint64_t rng = 0;
    bool nontriv = false; bool rendering = false; std::string notes; std::set<std::string> labels;
    uint64_t hash = 1469598103934665603ULL;
    uint32_t* shTape = nullptr; uint32_t* shLen = nullptr; size_t shCap = 0;
    uint32_t next32();
};

typedef std::function<void(Ctx&)> Fn;
struct Sub { std::string name; double weight; Fn fn; };
std::vector<Sub>& subs();
struct Reg { Reg(const char* n, double w, Fn f) { subs().push_back(Sub{n, w, f}); } };
extern const char* RULE;            // how cases are made and what makes one non-trivial (defined by each check)
int runMain(int argc, char** argv);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
template<class V> std::string vec(const V& v) { std::ostringstream o; o.precision(17); o << "["; for(int i = 0; i < (int)v.size(); i++) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
template<class M> std::string mat(const M& m) { std::ostringstream o; o.precision(12); o << m; return o.str(); }
template<class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
inline bool nearly(double a, double b, double rel, double abs_) { if(a == b) return true; if(std::isnan(a) && std::isnan(b)) return true; if(!(std::isfinite(a) && std::isfinite(b))) return false; return std::fabs(a - b) <= abs_ + rel*std::max(std::fabs(a), std::fabs(b)); }
std::string scratchDir();           // private directory of this process, emptied before every case that asks for it
}
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PROP(name, weight) static void prop_##name(pbt::Ctx& c); static pbt::Reg reg_##name(#name, weight, prop_##name); static void prop_##name(pbt::Ctx& c)
#define CHECK(cond, msg) do { if(!(cond)) throw pbt::Failure(std::string(msg) + "  [" #cond "]"); } while(0)
#define FAIL(msg) throw pbt::Failure(msg)
#define CHECK_EQ(a, b, msg) do { auto va_ = (a); auto vb_ = (b); if(!(va_ == vb_)) throw pbt::Failure(std::string(msg) + ": " #a " = " + pbt::str(va_) + ", expected " + pbt::str(vb_)); } while(0)
#define CHECK_CLOSE(a, b, rel, abs_, msg) do { double va_ = (a), vb_ = (b); if(!pbt::nearly(va_, vb_, rel, abs_)) throw pbt::Failure(std::string(msg) + ": " #a " = " + pbt::str(va_) + ", expected " + pbt::str(vb_)); } while(0)
#define CHECK_THROWS(expr, msg) do { bool threw_ = false; try { expr; } catch(const std::exception&) { threw_ = true; } if(!threw_) throw pbt::Failure(std::string(msg) + ": no exception from " #expr); } while(0)
#endif
