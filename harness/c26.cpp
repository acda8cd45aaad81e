#include "mc.hpp"
#include <regex>
#include <Caitlyn/Testing>
using namespace Caitlyn;
using namespace Caitlyn::Test;
enum B { PASSING, BOOM, INTEGER, NOTUTF8, ASSERTION, MESSAGE, IN_CTOR, NB };
static B g_behave[16]; static std::string g_trace;
static int helper(int x) { ASSERT_TRUE(x > 0); return x; }
static void act(int i) {
    g_trace += mc::strf("%d ", i);
    switch (g_behave[i]) { case PASSING: helper(1); ASSERT_EQ(1, 1); break; case BOOM: throw std::runtime_error("boom"); case INTEGER: throw 42; case NOTUTF8: throw std::logic_error("\xFF bad \xC3"); case ASSERTION: { int one = 1; ASSERT_EQ(one, 2); break; } case MESSAGE: FAIL_MESSAGE() << "told so"; break; case IN_CTOR: break; default: break; }
    g_trace += mc::strf("%d! ", i);
}
struct Fix { int v; Fix() : v(7) { g_trace += "up "; if (g_behave[2] == IN_CTOR) throw std::runtime_error("boom"); } ~Fix() { g_trace += "down "; } };
template <class T> struct TFix { T v; TFix() : v(3) { g_trace += "Tup "; if (g_behave[3] == IN_CTOR) throw std::runtime_error("boom"); } ~TFix() { g_trace += "Tdown "; } };
#ifndef DYNAMIC_ONLY
TEST(Static, Second) { act(0); }
TEST(Static, First) { act(1); }
TEST_F(Fix, One) { if (v != 7) throw 1; v = 8; act(2); }
TEST_F(TFix<int>, Two) { if (v != 3) throw 1; v = 8; act(3); }
static const int kStatic = 4;
#else
static const int kStatic = 0;
#endif
namespace hx {
template <int I> static void dyn() { act(4 + I); }
static TestFunction DF[] = {dyn<0>, dyn<1>, dyn<2>, dyn<3>, dyn<4>};
struct T { std::string suite, name; int id; };
struct Result { int rc; std::string trace, out; bool escaped; };
// the registry is a process-wide singleton: every execution builds and runs its own in a child process
static std::string child(const std::function<std::string()>& f) {
    int p[2]; if (pipe(p)) abort(); fflush(nullptr); pid_t c = fork();
    if (c == 0) { close(p[0]); std::string r; try { r = f(); } catch (...) { r = "escaped"; } size_t o = 0; while (o < r.size()) { ssize_t n = write(p[1], r.data() + o, r.size() - o); if (n <= 0) break; o += (size_t)n; } _exit(0); }
    close(p[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)n); close(p[0]); int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) r = mc::strf("died %d\n", st) + r; return r;
}
static std::string lines(const std::string& out) {   // the claimed part of the report, without times
    std::istringstream is(out); std::string l, r; 
    while (std::getline(is, l)) { size_t p = l.rfind(" ("); if (l.size() > 3 && p != std::string::npos && l.find(" ms", p) != std::string::npos) l = l.substr(0, p);
        if (l.compare(0, 12, "[     INFO ]") == 0 && l.find("boom") == std::string::npos && l.find("Unknown error") == std::string::npos && l.find("told so") == std::string::npos && l.find("Assertion failed") == std::string::npos) l = "[     INFO ] (any)";
        if (l.find("told so") != std::string::npos) l = "[     INFO ] told so"; if (l.find("Assertion failed: one == 2") != std::string::npos) l = "[     INFO ] Assertion failed"; r += l + "\n"; }
    return r;
}
static std::string expected(const std::vector<T>& t, std::string& trace, int& rc) {
    std::map<std::string, std::vector<T>> by; for (auto& x : t) by[x.suite].push_back(x);
    std::string o = mc::strf("[==========] Running %zu tests from %zu test cases.\n[----------] Global test environment set-up.\n\n", t.size(), by.size()); unsigned pass = 0, fail = 0; std::string failed;
    for (auto& s : by) {
        o += mc::strf("[----------] %zu tests from %s\n", s.second.size(), s.first.c_str());
        for (auto& x : s.second) {
            std::string n = x.suite + "." + x.name; o += "[ RUN      ] " + n + "\n"; B b = g_behave[x.id]; bool ok = b == PASSING || (b == IN_CTOR && x.id != 2 && x.id != 3);
            const char* up = x.id == 2 ? "up " : x.id == 3 ? "Tup " : ""; const char* down = x.id == 2 ? "down " : x.id == 3 ? "Tdown " : "";
            trace += up; if (b != IN_CTOR || x.id < 2 || x.id > 3) { trace += mc::strf("%d ", x.id); if (ok) trace += mc::strf("%d! ", x.id); trace += down; }
            if (ok) { o += "[       OK ] " + n + "\n"; pass++; }
            else { o += "[     FAIL ] " + n + "\n[     INFO ] " + (b == BOOM || b == IN_CTOR ? "boom" : b == INTEGER ? "Unknown error" : b == ASSERTION ? "Assertion failed" : b == MESSAGE ? "told so" : "(any)") + "\n"; fail++; failed += "[  FAILED  ] " + n + "\n"; }
        }
        o += mc::strf("[----------] %zu tests from %s\n\n", s.second.size(), s.first.c_str());
    }
    o += mc::strf("[----------] Global test environment tear-down\n[==========] %zu tests from %zu test cases ran.\n", t.size(), by.size());
    if (pass) o += mc::strf("[  PASSED  ] %u test%s.\n", pass, pass == 1 ? "" : "s");
    if (fail) o += mc::strf("[  FAILED  ] %u test%s, listed below:\n", fail, fail == 1 ? "" : "s") + failed;
    o += mc::strf("\n%u FAILED TEST%s\n", fail, fail == 1 ? "" : "S"); rc = fail ? 1 : 0; return o;
}
static void runs(mc::Exec& e, unsigned maxdyn, unsigned nruns, unsigned nb, bool statics) {
    std::vector<T> t; if (kStatic) { t = {{"Static", "Second", 0}, {"Static", "First", 1}, {"Fix", "One", 2}, {"TFix<int>", "Two", 3}}; }
    std::vector<std::vector<B>> plan; static const char* S[] = {"Alpha", "Static", "Zeta"}; static const char* NM[] = {"x", "First", "\xC3\xA9"};
    unsigned nd = e.choose(maxdyn + 1), late = nd && nruns > 1 ? e.choose(2) : 0;   // the last test may be added between two runs
    std::vector<T> d; for (unsigned i = 0; i < nd; ++i) d.push_back({S[e.choose(3)], NM[i % 3], 4 + (int)i});
    for (unsigned r = 0; r < nruns; ++r) { std::vector<B> b(16, PASSING); for (int i = 0; i < kStatic; ++i) b[(size_t)i] = statics ? (B)(e.flag() ? (i >= 2 && r == 0 ? IN_CTOR : BOOM) : PASSING) : (i == 1 && r == 0 ? BOOM : PASSING); for (unsigned i = 0; i < nd; ++i) b[4 + i] = (B)e.choose(nb); plan.push_back(b); }
    e.op("RunAll"); std::string log; for (auto& x : d) log += x.suite + "." + x.name + " "; for (auto& b : plan) { log += "| run:"; for (int i = 0; i < kStatic; ++i) log += mc::strf(" %d", b[(size_t)i]); for (unsigned i = 0; i < nd; ++i) log += mc::strf(" %d", b[4 + i]); } MC_LOG(e, "added tests: %s", log.c_str());
    std::string want; 
    for (unsigned r = 0; r < nruns; ++r) { std::vector<T> now = t; for (unsigned i = 0; i < nd; ++i) if (!(late && r == 0 && i + 1 == nd)) now.push_back(d[i]); for (int i = 0; i < 16; ++i) g_behave[i] = plan[r][(size_t)i]; std::string tr; int rc; std::string o = expected(now, tr, rc); want += mc::strf("rc %d\ntrace %s\n", rc, tr.c_str()) + o; }
    std::string got = child([&] {
        std::string r; std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf());
        for (unsigned k = 0; k < nruns; ++k) {
            for (unsigned i = 0; i < nd; ++i) if (k == (late && i + 1 == nd ? 1u : 0u)) TestRegistry::Instance().AddTest(String(d[i].suite.c_str()), String(d[i].name.c_str()), DF[i]);
            for (int i = 0; i < 16; ++i) g_behave[i] = plan[k][(size_t)i]; g_trace.clear(); os.str(""); int rc = TestRegistry::Instance().RunAll(); r += mc::strf("rc %d\ntrace %s\n", rc, g_trace.c_str()) + lines(os.str());
        }
        std::cout.rdbuf(old); return r; });
    e.transition((uint64_t)nruns * (nd + (unsigned)kStatic)); e.state(mc::Hash().s(want));
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t b = got.rfind('\n', i); b = b == std::string::npos ? 0 : b; e.fail("report", "the run reports ...%s... instead of ...%s...", mc::quote(got.substr(b, 160)).c_str(), mc::quote(want.substr(b, 160)).c_str()); }
}
#ifdef DYNAMIC_ONLY
MC_SECTION(dynamic_once, true) { runs(e, mc::tier(3u, 4u), 1, mc::tier(6u, 6u), false); }
MC_SECTION(dynamic_twice, true) { runs(e, 2, 2, mc::tier(4u, 6u), false); }
MC_SECTION(dynamic_thrice, true) { runs(e, mc::tier(1u, 2u), 3, 2, false); }
MC_SECTION(many, true, false, 0, true, 60) {             // as many tests, suites, passes and failures as a narrow count could not hold
    static const unsigned ns[] = {9, 10, 11, 99, 100, 127, 128, 129, 255, 256, 257, 258, 300, 512, 1000, 32767, 32768, 65535, 65536, 65537, 70000}; unsigned n = e.pick(ns), k = e.choose(5); if (n > mc::tier(1000u, 200000u) && mc::tier(k != 1 ? 1 : 0, 0)) return;
    std::vector<T> d; for (unsigned i = 0; i < n; ++i) d.push_back({k == 2 || k == 3 ? mc::strf("S%06u", i) : k == 4 && i % 2 ? "Odd" : "Many", mc::strf("t%u", i), k == 1 || k == 3 || (k == 4 && i % 3 == 0) ? 5 : 4}); for (int i = 0; i < 16; ++i) g_behave[i] = i == 5 ? BOOM : PASSING;
    e.op("RunAll"); MC_LOG(e, "%u tests, kind %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(n); std::string want, tr; { int rc; std::string o = expected(d, tr, rc); want = mc::strf("rc %d\ntrace ", rc) + tr + "\n" + lines(o); }
    std::string got = child([&] { std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); for (auto& x : d) TestRegistry::Instance().AddTest(String(x.suite.c_str()), String(x.name.c_str()), DF[x.id - 4]); g_trace.clear(); int rc = TestRegistry::Instance().RunAll(); std::cout.rdbuf(old); return mc::strf("rc %d\ntrace ", rc) + g_trace + "\n" + lines(os.str()); });
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t b = i ? got.rfind('\n', i - 1) : 0; b = b == std::string::npos ? 0 : b; e.fail("report", "with %u tests (kind %u) the run reports ...%s... instead of ...%s...", n, k, mc::quote(got.substr(b, 160)).c_str(), mc::quote(want.substr(std::min(b, want.size()), 160)).c_str()); }
    e.outcome(k);
}
#else
MC_SECTION(once, true) { runs(e, 1, 1, 6, true); }
MC_SECTION(twice, true) { runs(e, 1, 2, 2, true); }
#endif
}
