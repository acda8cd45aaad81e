// The library gives the same results before main, in main, in threads and while the program ends.
#include "inc.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
namespace hx {
struct Build { const char* cxx; const char* flags; };
static const Build BUILDS[] = {{"g++", "-std=c++11 -O0 -fsanitize=address,undefined -fno-sanitize-recover=all"}, {"clang++", "-std=c++17 -O1"}, {"g++", "-std=c++20 -O2"}, {"clang++", "-std=c++11 -O0 -fsanitize=address,undefined -fno-sanitize-recover=all"}};
static unsigned nbuilds() { return mc::tier(2u, 4u); }
static const unsigned NPH = 12; static const char* const PH[NPH] = {"a static constructor of the first file", "a static constructor of the second file", "main", "a thread", "a thread_local destructor of a thread", "the destructor of a static object of main", "a static constructor of a loaded library", "a static destructor of a loaded library", "a thread_local destructor of the main thread", "an exit handler registered first", "a static destructor of the second file", "a static destructor of the first file"};
static int sh(const std::string& c) { return system(c.c_str()); }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string base(unsigned b) { return std::string(getenv("MC_SCRATCH")) + "/life" + std::to_string(b); }
static std::string phases(unsigned set) { std::string r; for (unsigned i = 0; i < NPH; ++i) if (set >> i & 1) r += char('a' + i); return r; }
// runs one program; every phase of the set leaves its results in a file
static int run(unsigned b, unsigned order, const std::string& probe, unsigned set, const std::string& dir, bool noargs = false) {
    sh("rm -rf " + dir + "/*"); std::string d = base(b); return sh(mc::strf("cd %s && env -u LIFE_APP %s LIFE_DIR=%s %s LIFE_PHASES=%s LIFE_PROBE=%s ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=0 timeout -s KILL 120 %s/%s > %s/said 2>&1", dir.c_str(), noargs ? "LIFE_NOARGS=1" : "", dir.c_str(), (set >> 6 & 3) ? ("LIFE_SO=" + d + "/part3").c_str() : "", phases(set).c_str(), probe.c_str(), d.c_str(), order ? "ba" : "ab", dir.c_str()));
}
static std::string result(const std::string& dir, unsigned ph) { std::string f = dir + "/phase_" + char('a' + ph); return access(f.c_str(), F_OK) ? "(nothing: the phase did not come to its end)\n" : slurp(f); }
static std::vector<std::string> names(unsigned b) { std::vector<std::string> r; std::istringstream is(slurp(base(b) + "/names")); for (std::string l; std::getline(is, l);) r.push_back(l); return r; }
static bool built(mc::Exec& e, unsigned b) {
    std::string d = base(b), done = d + "/done"; if (access(done.c_str(), F_OK) == 0) return true;
    if (mkdir(d.c_str(), 0700) != 0) { for (int i = 0; i < 4800 && access(done.c_str(), F_OK) != 0; ++i) { usleep(50000); e.beat(); } return access(done.c_str(), F_OK) == 0; }
    const Build& B = BUILDS[b]; std::string c = "cd " + d + " && (", link; for (int p = 0; p < 4; ++p) c += mc::strf("%s %s -w -g0 -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 -include cstdint -DPART=%d -I%s %s %s -o part%d 2>err%d & ", B.cxx, B.flags, p, inc::dir(), MC_HERE "/harness/programs/life.cpp", p == 3 ? "-shared -fPIC" : "-c -x c++", p, p);
    c += "wait) && mv part0 part0.o && mv part1 part1.o && mv part2 part2.o && "; for (const char* o : {"1.o part2.o part0.o -o ab", "2.o part1.o part0.o -o ba"}) c += mc::strf("%s %s -g0 part%s -lpthread -ldl 2>>err0 && ", B.cxx, B.flags, o); std::string o;
    if (inc::run(e, c + "./ab names > names", o) != 0) { sh("touch " + d + "/broken " + done); return true; }
    unsigned n = (unsigned)names(b).size(); for (unsigned p = 0; p < n; ++p) { std::string t = d + "/t" + std::to_string(p); mkdir(t.c_str(), 0700); run(b, 0, std::to_string(p), 1u << 2, t); e.beat(); std::ofstream(d + "/want" + std::to_string(p)) << result(t, 2); }
    sh("touch " + done); return true;
}
static bool ready(mc::Exec& e, unsigned b) { if (!built(e, b)) { e.fail("build", "the program could not be built in time"); return false; } if (access((base(b) + "/broken").c_str(), F_OK) == 0) { std::string w; for (int i = 0; i < 4 && w.empty(); ++i) w = slurp(base(b) + "/err" + std::to_string(i)); e.fail("compile", "%s %s: the program of three files and a library does not compile: %s", BUILDS[b].cxx, BUILDS[b].flags, mc::quote(w.substr(0, 500)).c_str()); return false; } return true; }
static std::string set_name(unsigned set) { std::string r; for (unsigned i = 0; i < NPH; ++i) if (set >> i & 1) { if (!r.empty()) r += ", then "; r += PH[i]; } return r; }
static std::string sorted(unsigned b, unsigned order) { return mc::strf("%s %s, %s file first", BUILDS[b].cxx, BUILDS[b].flags, order ? "second" : "first"); }
// all sets of up to n phases
static const std::vector<unsigned>& sets(unsigned n, unsigned without) { static std::map<unsigned, std::vector<unsigned>> m; auto& v = m[n * 65536 + without]; if (v.empty()) for (unsigned s = 1; s < 1u << NPH; ++s) if (__builtin_popcount(s) <= (int)n && !(s & without)) v.push_back(s); return v; }
MC_SECTION(phases, false, false, 100, false, 300) {
    unsigned b = e.choose(nbuilds()), order = mc::thorough() ? e.choose(2) : b; const auto& S = sets(mc::tier(2u, 3u), 0); unsigned set = S[e.choose((unsigned)S.size())]; if (!ready(e, b)) return; auto N = names(b); if (N.empty()) { e.fail("run", "the program does not run"); return; }
    unsigned p = e.choose((unsigned)N.size()); bool cumulative = N[p] == "tests"; if (cumulative && __builtin_popcount(set) > 1) return; // the registry keeps its tests
    e.op("run"); MC_LOG(e, "%s: %s, %s", N[p].c_str(), set_name(set).c_str(), sorted(b, order).c_str()); e.state(mc::Hash().u(set)); std::string dir = mc::scratch(), want = slurp(base(b) + "/want" + std::to_string(p)); int rc = run(b, order, std::to_string(p), set, dir);
    bool first = true; for (unsigned ph = 0; ph < NPH; ++ph) if (set >> ph & 1) {
        std::string got = result(dir, ph), w = want; e.transition(1 + (uint64_t)std::count(got.begin(), got.end(), '\n')); e.outcome(mc::Hash().s(got));
        if (__builtin_popcount(set) > 1) for (std::string* x : {&w, &got}) { size_t at = x->rfind("arguments -> "); if (at == std::string::npos) at = x->rfind("escaped: caitlyn::init"); if (at != std::string::npos) x->resize(at); } // the program is initialised once
        if (got != w) { size_t i = 0; while (i < got.size() && i < w.size() && got[i] == w[i]) ++i; size_t q = w.rfind('\n', i ? i - 1 : 0); q = q == std::string::npos ? 0 : q + 1; auto line = [&](const std::string& s) { if (q >= s.size()) return std::string("(nothing)"); size_t n = s.find('\n', q); return s.substr(q, n == std::string::npos ? std::string::npos : n - q).substr(0, 200); };
            e.fail("phase", "%s in %s: %s; in main: %s (used in %s; %s) %s", N[p].c_str(), PH[ph], mc::quote(line(got)).c_str(), mc::quote(line(w)).c_str(), set_name(set).c_str(), sorted(b, order).c_str(), mc::quote(slurp(dir + "/said").substr(0, 200)).c_str()); return; }
        first = false; }
    e.check(rc == 0, "exit", "%s in %s: the program ended with %d: %s (%s)", N[p].c_str(), set_name(set).c_str(), rc, mc::quote(slurp(dir + "/said").substr(0, 300)).c_str(), sorted(b, order).c_str()); (void)first;
}
// the program's arguments, handed over in whichever phase comes first, are there in every later one, and cannot be handed over again
MC_SECTION(application, false, false, 100, false, 300) {
    unsigned b = e.choose(nbuilds()), order = e.choose(2); const auto& S = sets(mc::tier(3u, 4u), 3u << 6); unsigned set = S[e.choose((unsigned)S.size())]; bool noargs = e.flag(); if (!ready(e, b)) return;
    e.op("initialise"); MC_LOG(e, "%s, %s", set_name(set).c_str(), sorted(b, order).c_str()); e.state(mc::Hash().u(set).u(noargs)); std::string dir = mc::scratch(), when = order ? "bacdeifjlk" : "abcdeifjkl"; int rc = run(b, order, "app", set, dir, noargs); bool first = true; std::string tail;
    for (char c : when) if (set >> (c - 'a') & 1) {
        unsigned ph = (unsigned)(c - 'a'); std::string got = result(dir, ph), head = first ? "initialised\n" : "refused: "; e.transition(1); e.outcome(mc::Hash().s(got)); size_t n = got.find('\n'); std::string rest = n == std::string::npos ? "" : got.substr(n + 1), args = noargs ? "" : "arg prog\narg \narg \xC3\xA9\n";
        if (first) tail = rest;
        if (got.compare(0, head.size(), head) || rest != tail || rest.compare(0, args.size(), args) || (noargs && rest.compare(0, 4, "arg ") == 0) || std::count(rest.begin(), rest.end(), '\n') != 3 + (noargs ? 0 : 3)) { e.fail("application", "%s in %s shows %s (used in %s; %s) %s", first ? "Initialize" : "a second Initialize", PH[ph], mc::quote(got).c_str(), set_name(set).c_str(), sorted(b, order).c_str(), mc::quote(slurp(dir + "/said").substr(0, 300)).c_str()); return; }
        first = false; }
    e.check(rc == 0, "exit", "Initialize in %s: the program ended with %d: %s (%s)", set_name(set).c_str(), rc, mc::quote(slurp(dir + "/said").substr(0, 300)).c_str(), sorted(b, order).c_str());
}
}
