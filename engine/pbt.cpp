#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <chrono>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27))*0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) { const unsigned char* c = (const unsigned char*)p; for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }

void Ctx::mirror(const std::string& s) { if(noteFd >= 0) { std::string l = s + "\n"; if(write(noteFd, l.data(), l.size())) {} } }
uint32_t Ctx::next32() { return (uint32_t)(splitmix(rng) >> 32); }
uint32_t Ctx::draw(uint32_t bound) {
    if(bound == 0) bound = 1;
    uint32_t v;
    if(replay) { v = pos < tape.size() ? tape[pos] : 0; if(v >= bound) v = v % bound; }
    else v = (uint32_t)(((uint64_t)next32()*bound) >> 32);
    if(!replay) tape.push_back(v);
    if(shTape && pos < shCap) { shTape[pos] = v; *shLen = pos + 1; }
    pos++;
    hash ^= v + 0x9E3779B9u; hash *= 1099511628211ULL;
    return v;
}
int64_t Ctx::rangeC(int64_t lo, int64_t hi) {
    if(hi <= lo) return lo;
    int64_t z = lo > 0 ? lo : hi < 0 ? hi : 0;
    int64_t k = draw((uint32_t)(hi - lo + 1));
    // order values by distance from z: z, z+1, z-1, ... while both sides last
    int64_t up = hi - z, dn = z - lo, m = std::min(up, dn);
    if(k <= 2*m) return (k & 1) ? z + (k + 1)/2 : z - k/2;
    return up > dn ? z + (k - m) : z - (k - m);
}
double Ctx::real(double lo, double hi) {
    switch(draw(4)) {
        case 0: return lo + (hi - lo)*draw(9)/8.0;
        case 1: return lo + (hi - lo)*draw(101)/100.0;
        default: return lo + (hi - lo)*(draw(1u << 26)/double(1u << 26));
    }
}
double Ctx::signedReal(double mag) { double v = real(0, mag); return boolean() ? -v : v; }
size_t Ctx::size(size_t lo, size_t hi) {
    if(hi <= lo) return lo;
    size_t span = hi - lo;
    switch(draw(4)) { case 0: return lo + draw((uint32_t)std::min<size_t>(span, 2) + 1); case 1: return lo + draw((uint32_t)std::min<size_t>(span, 6) + 1); case 2: return lo + draw((uint32_t)(span/2) + 1); default: return lo + draw((uint32_t)span + 1); }
}
size_t Ctx::weighted(const std::vector<int>& w) { int s = 0; for(int x : w) s += x; int k = draw(s); for(size_t i = 0; i < w.size(); i++) { if(k < w[i]) return i; k -= w[i]; } return 0; }
std::string Ctx::ident(size_t maxlen) { static const char* A = "abcdefghijklmnopqrstuvwxyz0123456789_"; size_t n = size(1, maxlen); std::string s; for(size_t i = 0; i < n; i++) s += A[draw(i ? 37 : 26)]; return s; }
std::string Ctx::text(size_t maxlen) { static const char A[] = "abcXYZ019 _-./:#'\"{}[],&*!|>%@\\\t\n~?;=+()"; size_t n = size(0, maxlen); std::string s; for(size_t i = 0; i < n; i++) s += A[draw(sizeof(A) - 1)]; return s; }

// ------------------------------------------------------------------------------------------------
static std::string g_scratchBase;
static void rmTree(const std::string& p) {
    DIR* d = opendir(p.c_str()); if(!d) return;
    while(dirent* e = readdir(d)) { std::string n = e->d_name; if(n == "." || n == "..") continue; std::string f = p + "/" + n; struct stat st; if(lstat(f.c_str(), &st)) continue; if(S_ISDIR(st.st_mode)) { rmTree(f); rmdir(f.c_str()); } else unlink(f.c_str()); }
    closedir(d);
}
std::string scratchDir() { std::string p = g_scratchBase + "/" + std::to_string(getpid()); mkdir(p.c_str(), 0700); rmTree(p); return p; }

struct Shared {
    volatile uint32_t sub; volatile uint64_t idx; volatile uint32_t len; volatile uint32_t state; // state: 0 idle, 1 running, 2 failed, 3 done
    char msg[4000];
    volatile uint64_t counts[3]; // evaluated, nontrivial, discarded
};
static const size_t CAP = 1 << 18;

struct Outcome { bool fail = false, discarded = false; std::string msg; };

static Outcome runCase(const Sub& s, Ctx& c) {
    Outcome o;
    try { s.fn(c); }
    catch(const Failure& f) { o.fail = true; o.msg = f.msg; }
    catch(const Discard&) { o.discarded = true; }
    catch(const std::exception& e) { int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); o.fail = true; o.msg = std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what(); free(n); }
    catch(...) { o.fail = true; o.msg = "unexpected exception of unknown type"; }
    return o;
}

static double CPU_LIMIT = 30.0;
static void cpuTimer(double s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)s; t.it_value.tv_usec = (long)((s - (long)s)*1e6); setitimer(ITIMER_VIRTUAL, &t, 0); }
static void onVt(int) { static const char m[] = "\nPBT: case exceeded its CPU limit\n"; if(write(2, m, sizeof m - 1)) {} _exit(97); }

struct Rec { std::string msg, notes; bool fail = false; std::set<std::string> labels; bool nontriv = false; std::vector<uint32_t> tape; };

static std::string tailFile(const std::string& f, size_t n) {
    std::ifstream is(f.c_str()); std::stringstream ss; ss << is.rdbuf(); std::string s = ss.str();
    size_t p = s.find("ERROR: AddressSanitizer"); if(p == std::string::npos) p = s.find("runtime error:"); if(p == std::string::npos) p = s.find("Assertion"); if(p == std::string::npos) p = s.size() > n ? s.size() - n : 0;
    p = s.rfind('\n', p) == std::string::npos ? 0 : s.rfind('\n', p) + 1; return s.substr(p, n);
}

// run one tape in a fresh child process
static Rec isolated(const Sub& s, const std::vector<uint32_t>& tape, bool render) {
    Rec r; int fd[2]; if(pipe(fd)) _exit(99);
    std::string errf = g_scratchBase + "/err." + std::to_string(getpid()), notef = g_scratchBase + "/note." + std::to_string(getpid());
    size_t mapN = sizeof(uint32_t)*(CAP + 1); uint32_t* sh = (uint32_t*)mmap(0, mapN, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if(p == 0) {
        close(fd[0]); int e = open(errf.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600); dup2(e, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        signal(SIGVTALRM, onVt); cpuTimer(CPU_LIMIT);
        Ctx c; c.replay = true; c.tape = tape; c.rendering = render; c.shTape = sh + 1; c.shLen = sh; c.shCap = CAP;
        if(render) c.noteFd = open(notef.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600);
        Outcome o = runCase(s, c);
        std::string out; out += o.fail ? 'F' : o.discarded ? 'D' : 'P'; out += c.nontriv ? '1' : '0';
        std::string m = o.msg; out += std::string(4, 0); uint32_t n = m.size(); memcpy(&out[2], &n, 4); out += m; 
        std::string ls; for(auto& l : c.labels) ls += l + "\n"; n = ls.size(); out.append((char*)&n, 4); out += ls; out += c.notes;
        size_t off = 0; while(off < out.size()) { ssize_t k = write(fd[1], out.data() + off, out.size() - off); if(k <= 0) break; off += k; }
        _exit(0);
    }
    close(fd[1]); std::string in; char b[65536]; ssize_t k; while((k = read(fd[0], b, sizeof b)) > 0) in.append(b, k); close(fd[0]);
    int st; waitpid(p, &st, 0);
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && in.size() >= 6) {
        r.fail = in[0] == 'F'; r.nontriv = in[1] == '1'; uint32_t n; memcpy(&n, &in[2], 4); r.msg = in.substr(6, n); uint32_t m; memcpy(&m, &in[6 + n], 4); std::istringstream ls(in.substr(10 + n, m)); std::string l; while(std::getline(ls, l)) r.labels.insert(l); r.notes = in.substr(10 + n + m);
    } else {
        r.fail = true;
        if(WIFSIGNALED(st)) r.msg = fmt("process killed by signal %d", WTERMSIG(st));
        else if(WEXITSTATUS(st) == 97) r.msg = fmt("case did not end within %.0f s of CPU time", CPU_LIMIT);
        else r.msg = fmt("process ended with status %d", WEXITSTATUS(st));
        r.msg += "\n" + tailFile(errf, 1500);
        if(render) { std::ifstream is(notef.c_str()); std::stringstream ss; ss << is.rdbuf(); r.notes = ss.str(); }
    }
    r.tape.assign(sh + 1, sh + 1 + std::min<size_t>(*sh, CAP)); munmap(sh, mapN); unlink(errf.c_str()); unlink(notef.c_str());
    return r;
}

static bool lessTape(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if(a.size() != b.size()) return a.size() < b.size(); return a < b; }

static std::vector<uint32_t> shrink(const Sub& s, std::vector<uint32_t> best, size_t maxTries, double maxSec, size_t& tries) {
    auto t0 = std::chrono::steady_clock::now(); tries = 0;
    auto ok = [&](std::vector<uint32_t> cand) -> bool {
        if(tries >= maxTries || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSec) return false;
        if(!lessTape(cand, best)) return false;
        tries++; Rec r = isolated(s, cand, false); if(!r.fail) return false;
        if(r.tape.size() && lessTape(r.tape, cand)) cand = r.tape; best = cand; return true;
    };
    bool progress = true;
    while(progress && tries < maxTries) {
        progress = false;
        for(size_t k = std::max<size_t>(1, best.size()/2); k >= 1; k /= 2) {
            for(size_t i = 0; i + k <= best.size();) { std::vector<uint32_t> c(best.begin(), best.begin() + i); c.insert(c.end(), best.begin() + i + k, best.end()); if(ok(c)) progress = true; else i += k; }
            if(k == 1) break;
        }
        for(size_t k = std::max<size_t>(1, best.size()/2); k >= 1; k /= 2) {
            for(size_t i = 0; i + k <= best.size(); i += k) { bool any = false; for(size_t j = i; j < i + k; j++) any |= best[j] != 0; if(!any) continue; std::vector<uint32_t> c = best; std::fill(c.begin() + i, c.begin() + i + k, 0); if(ok(c)) progress = true; }
            if(k == 1) break;
        }
        // an operation counted by an earlier choice: decrement the count and drop the operation's choices together
        for(size_t i = 0; i < std::min<size_t>(best.size(), 12); i++) for(size_t k = 1; k <= 8; k++) for(size_t j = i + 1; i < best.size() && best[i] > 0 && j + k <= best.size();) {
            std::vector<uint32_t> c = best; c[i]--; c.erase(c.begin() + j, c.begin() + j + k); if(ok(c)) progress = true; else j += 1; }
        for(size_t i = 0; i < best.size(); i++) {
            uint32_t lo = 0; while(i < best.size() && best[i] > lo) { std::vector<uint32_t> c = best; uint32_t mid = lo + (best[i] - lo)/2; c[i] = mid; if(ok(c)) progress = true; else { if(mid == best[i] - 1 || mid == best[i]) break; lo = mid + 1; if(lo >= best[i]) break; } }
            if(i < best.size() && i > 0 && best[i] > 0) { std::vector<uint32_t> c = best; c[i]--; if(ok(c)) progress = true; c = best; if(i > 0 && c[i-1] > 0) { c[i-1]--; c.erase(c.begin() + i); if(ok(c)) progress = true; } }
        }
    }
    return best;
}

static std::string jesc(const std::string& s) { std::string o = "\""; for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if(ch == '\n') o += "\\n"; else if(ch == '\t') o += "\\t"; else if(ch < 32 || ch > 126) o += fmt("\\u%04x", ch); else o += ch; } return o + "\""; }

int runMain(int argc, char** argv) {
    uint64_t seed = 1; uint64_t cases = 1000; int workers = 8; std::string replayFile, outFile, replayOut = "replay.txt", only; double budget = 600; uint64_t shrinkTries = 3000; std::string corpusDir;
    for(int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
        if(a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if(a == "--cases") cases = strtoull(v().c_str(), 0, 10); else if(a == "--workers") workers = atoi(v().c_str()); else if(a == "--replay") replayFile = v(); else if(a == "--out") outFile = v(); else if(a == "--replay-out") replayOut = v(); else if(a == "--only") only = v(); else if(a == "--budget") budget = atof(v().c_str()); else if(a == "--cpu-limit") CPU_LIMIT = atof(v().c_str()); else if(a == "--corpus") corpusDir = v(); else if(a == "--list") { for(auto& s : subs()) printf("%s %g\n", s.name.c_str(), s.weight); return 0; } }
    const char* td = getenv("VP_SCRATCH"); g_scratchBase = td ? td : "/tmp/vp_scratch"; g_scratchBase += "/p" + std::to_string(getpid()); { std::string b = td ? td : "/tmp/vp_scratch"; mkdir(b.c_str(), 0700); } mkdir(g_scratchBase.c_str(), 0700);
    std::sort(subs().begin(), subs().end(), [](const Sub& a, const Sub& b) { return a.name < b.name; });

    auto cleanup = [&]() { rmTree(g_scratchBase); rmdir(g_scratchBase.c_str()); };
    auto findSub = [&](const std::string& n) -> const Sub* { for(auto& s : subs()) if(s.name == n) return &s; return nullptr; };
    auto loadTape = [&](const std::string& f, std::string& sub, std::vector<uint32_t>& tape) { std::ifstream is(f.c_str()); std::string l; while(std::getline(is, l)) { if(l.compare(0, 5, "sub: ") == 0) sub = l.substr(5); if(l.compare(0, 6, "tape: ") == 0) { std::istringstream ss(l.substr(6)); uint32_t v; while(ss >> v) tape.push_back(v); } } };

    if(!replayFile.empty()) { // replay: exit 0 pass, 1 fail, 2 unusable
        std::string sub; std::vector<uint32_t> tape; loadTape(replayFile, sub, tape); const Sub* s = findSub(sub); if(!s) { fprintf(stderr, "no such sub-check: %s\n", sub.c_str()); cleanup(); return 2; }
        Rec r = isolated(*s, tape, true); printf("%s\n%s%s\n", r.fail ? "FAIL" : "PASS", r.notes.c_str(), r.msg.c_str()); cleanup(); return r.fail ? 1 : 0;
    }

    double tw = 0; for(auto& s : subs()) if(only.empty() || s.name == only) tw += s.weight;
    struct Work { size_t sub; uint64_t n; }; std::vector<Work> work; for(size_t i = 0; i < subs().size(); i++) if(only.empty() || subs()[i].name == only) work.push_back(Work{i, std::max<uint64_t>(1, (uint64_t)(cases*subs()[i].weight/tw))});
    auto t0 = std::chrono::steady_clock::now(); auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

    // workers: each runs the cases i == w (mod workers) of every sub-check, and writes a summary file
    std::vector<Shared*> sh(workers); std::vector<uint32_t*> tp(workers); std::vector<pid_t> pid(workers); std::vector<std::string> sumf(workers), errf(workers);
    for(int w = 0; w < workers; w++) { sh[w] = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); memset((void*)sh[w], 0, sizeof(Shared)); tp[w] = (uint32_t*)mmap(0, sizeof(uint32_t)*(CAP + 1), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); sumf[w] = g_scratchBase + "/sum." + std::to_string(w); errf[w] = g_scratchBase + "/werr." + std::to_string(w); }
    fflush(stdout);
    for(int w = 0; w < workers; w++) {
        pid[w] = fork();
        if(pid[w] == 0) {
            int e = open(errf[w].c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600); dup2(e, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); signal(SIGVTALRM, onVt);
            std::map<std::string, uint64_t> labels; std::set<uint64_t> distinct; std::vector<std::string> samples; uint64_t evals = 0, nontr = 0, disc = 0; bool failed = false; std::map<std::string, uint64_t> perSub;
            uint64_t maxN = 0; for(auto& k : work) maxN = std::max(maxN, k.n);
            // interleave sub-checks so that a budget stop cuts them evenly
            std::vector<uint64_t> done(work.size(), w); bool any = true; bool stop = false;
            while(any && !stop && !failed) { any = false;
                for(size_t k = 0; k < work.size() && !failed && !stop; k++) { uint64_t chunk = std::max<uint64_t>(1, work[k].n/64/workers);
                    for(uint64_t q = 0; q < chunk && done[k] < work[k].n && !failed; q++, done[k] += workers) { any = true;
                        if((evals & 15) == 0 && elapsed() > budget) { stop = true; break; }
                        const Sub& s = subs()[work[k].sub]; uint64_t h = fnv(s.name.data(), s.name.size()); h ^= seed*0x9E3779B97F4A7C15ULL; h ^= (done[k] + 1)*0xD1B54A32D192ED03ULL; splitmix(h);
                        Ctx c; c.rng = h; c.shTape = tp[w] + 1; c.shLen = tp[w]; c.shCap = CAP; *tp[w] = 0; bool wantSample = samples.size() < 2 && done[k] >= work[k].n/2 && s.name[0] == s.name[0]; c.rendering = wantSample; sh[w]->sub = work[k].sub; sh[w]->idx = done[k]; sh[w]->state = 1;
                        cpuTimer(CPU_LIMIT); Outcome o = runCase(s, c); 
                        if(o.fail) { failed = true; sh[w]->state = 2; strncpy(sh[w]->msg, o.msg.c_str(), sizeof(sh[w]->msg) - 1); }
                        else { sh[w]->state = 3; evals++; perSub[s.name]++; if(o.discarded) disc++; else { for(auto& l : c.labels) labels[l]++; if(c.nontriv) { nontr++; distinct.insert(c.hash ^ work[k].sub); if(wantSample) samples.push_back("[" + s.name + "] " + c.notes); } } }
                        sh[w]->counts[0] = evals;
                    } } }
            cpuTimer(0);
            std::ofstream os(sumf[w].c_str()); os << evals << " " << nontr << " " << disc << " " << (stop ? 1 : 0) << "\n" << labels.size() << "\n"; for(auto& l : labels) os << l.second << " " << l.first << "\n"; os << perSub.size() << "\n"; for(auto& l : perSub) os << l.second << " " << l.first << "\n"; os << distinct.size() << "\n"; for(auto d : distinct) os << d << "\n"; os << samples.size() << "\n"; for(auto& s : samples) { os << s.size() << "\n"; os.write(s.data(), s.size()); os << "\n"; } os.close();
            _exit(failed ? 1 : 0);
        }
    }
    uint64_t evals = 0, nontr = 0, disc = 0; bool stopped = false; std::map<std::string, uint64_t> labels, perSub; std::set<uint64_t> distinct; std::vector<std::string> samples; int badW = -1; std::vector<int> failing;
    for(int w = 0; w < workers; w++) { int st; waitpid(pid[w], &st, 0); bool fine = WIFEXITED(st) && (WEXITSTATUS(st) == 0); if(!fine) { failing.push_back(w); if(!(WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh[w]->state == 2)) sh[w]->state = 4; }
        std::ifstream is(sumf[w].c_str()); uint64_t e, n, d; int sp; if(is >> e >> n >> d >> sp) { evals += e; nontr += n; disc += d; stopped |= sp; size_t k; is >> k; for(size_t i = 0; i < k; i++) { uint64_t c; std::string l; is >> c; std::getline(is, l); labels[l.substr(1)] += c; } is >> k; for(size_t i = 0; i < k; i++) { uint64_t c; std::string l; is >> c; std::getline(is, l); perSub[l.substr(1)] += c; } is >> k; for(size_t i = 0; i < k; i++) { uint64_t v; is >> v; distinct.insert(v); } is >> k; for(size_t i = 0; i < k && samples.size() < 4; i++) { size_t len; is >> len; is.get(); std::string s(len, 0); is.read(&s[0], len); if(s.size() > 1500) s = s.substr(0, 1500) + "..."; samples.push_back(s); } } else evals += sh[w]->counts[0]; }
    (void)badW;
    // failures: take the lowest (sub, idx), confirm, shrink
    int rc = 0; std::string vmsg, vsub; std::vector<uint32_t> vtape; size_t tries = 0; std::string unrep;
    std::sort(failing.begin(), failing.end(), [&](int a, int b) { return std::make_pair((uint32_t)sh[a]->sub, (uint64_t)sh[a]->idx) < std::make_pair((uint32_t)sh[b]->sub, (uint64_t)sh[b]->idx); });
    for(int w : failing) {
        const Sub& s = subs()[sh[w]->sub]; std::vector<uint32_t> t(tp[w] + 1, tp[w] + 1 + std::min<size_t>(*tp[w], CAP));
        int hits = 0; for(int k = 0; k < 3; k++) if(isolated(s, t, false).fail) hits++;
        if(hits < 3) { unrep += s.name + fmt(" case %llu failed once but %d/3 on replay: ", (unsigned long long)sh[w]->idx, hits) + (sh[w]->state == 2 ? sh[w]->msg : tailFile(errf[w], 800)) + "\n"; continue; }
        vtape = shrink(s, t, shrinkTries, 40, tries);
        Rec r = isolated(s, vtape, true); if(!r.fail) { vtape = t; r = isolated(s, vtape, true); }
        std::ofstream os(replayOut.c_str()); os << "sub: " << s.name << "\ntape:"; for(auto v : vtape) os << " " << v; os << "\n--- message ---\n" << r.msg << "\n--- case ---\n" << r.notes << "\n"; os.close();
        vmsg = r.msg; vsub = s.name; rc = 1; 
        printf("FAILED sub-check %s (case %llu, shrunk to %zu choices in %zu tries)\n%s\n%s\n", s.name.c_str(), (unsigned long long)sh[w]->idx, vtape.size(), tries, r.msg.c_str(), r.notes.c_str());
        break;
    }
    if(rc == 0 && !unrep.empty()) { printf("UNREPRODUCED %s\n", unrep.c_str()); }
    if(!outFile.empty()) {
        std::ofstream os(outFile.c_str()); os << "{\"evaluations\": " << evals << ", \"nontrivial\": " << nontr << ", \"distinct_nontrivial\": " << distinct.size() << ", \"discarded\": " << disc << ", \"stopped_by_budget\": " << (stopped ? "true" : "false") << ", \"rule\": " << jesc(RULE) << ", \"labels\": {";
        bool f = true; for(auto& l : labels) { os << (f ? "" : ", ") << jesc(l.first) << ": " << l.second; f = false; } os << "}, \"per_subcheck\": {"; f = true; for(auto& l : perSub) { os << (f ? "" : ", ") << jesc(l.first) << ": " << l.second; f = false; } os << "}, \"samples\": ["; for(size_t i = 0; i < samples.size(); i++) os << (i ? ", " : "") << jesc(samples[i]); os << "], \"failed\": " << (rc ? "true" : "false") << ", \"unreproduced\": " << jesc(unrep) << ", \"failure\": " << jesc(vsub + ": " + vmsg) << ", \"wall_s\": " << elapsed() << "}\n";
    }
    cleanup(); return rc;
}
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=4000:handle_abort=1:detect_stack_use_after_return=0:symbolize=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=86"; }
int main(int argc, char** argv) { return pbt::runMain(argc, argv); }
