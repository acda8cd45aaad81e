// The same programs, built in every supported way, print the same results.
#include "inc.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
namespace hx {
static const char* const STD[] = {"c++11", "c++14", "c++17", "c++20", "c++23", "gnu++11", "gnu++20"};
static const char* const FLAGS[] = {"-O0", "-O1 -funsigned-char", "-O3 -DNDEBUG", "-O0 -D_GLIBCXX_DEBUG", "-O0 -D_GLIBCXX_USE_CXX11_ABI=0", "-Os -fno-inline", "-O0 -ftrapv", "-O1 -fwrapv -fno-strict-aliasing", "-O1 -flto", "-O1 -fshort-wchar -fno-threadsafe-statics", "-O1 -fPIE -pie -fvisibility=hidden", "-O2 -D_FORTIFY_SOURCE=2 -fstack-protector-all"};
static const unsigned NSTD = 7, NFLAGS = sizeof FLAGS / sizeof *FLAGS;
static const std::string SRC = MC_HERE "/harness/programs/probe.cpp";
static std::string base() { return std::string(getenv("MC_SCRATCH")) + "/baseline"; }
static int sh(const std::string& c) { return system(c.c_str()); }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string build(const std::string& cxx, const std::string& flags, const std::string& out) { return mc::strf("%s %s -w -g0 -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 -include cstdint -I%s %s -o %s -lpthread", cxx.c_str(), flags.c_str(), inc::dir(), SRC.c_str(), out.c_str()); }
static std::string exec(const std::string& exe, unsigned p, const std::string& dir, const std::string& out) { return mc::strf("cd %s && timeout -s KILL 300 %s %u %s %d > %s 2>/dev/null", dir.c_str(), exe.c_str(), p, dir.c_str(), (int)mc::thorough(), out.c_str()); }
static std::vector<std::string> names() { std::vector<std::string> r; std::istringstream is(slurp(base() + "/names")); for (std::string l; std::getline(is, l);) r.push_back(l); return r; }
static bool differ(mc::Exec& e, const std::string& got, const std::string& want, const std::string& what, const std::string& where) {
    if (got == want) return true; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t b = want.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1; auto line = [&](const std::string& s) { if (b >= s.size()) return std::string("(nothing)"); size_t n = s.find('\n', b); return s.substr(b, n == std::string::npos ? std::string::npos : n - b).substr(0, 200); };
    e.fail("build", "%s built with %s: %s; built with g++ -std=c++11 -O1: %s", what.c_str(), where.c_str(), mc::quote(line(got)).c_str(), mc::quote(line(want)).c_str()); return false;
}
// the program every other one is compared with: built once, by whoever comes first
static bool baseline(mc::Exec& e) {
    std::string d = base(), done = d + "/done"; if (access(done.c_str(), F_OK) == 0) return true;
    if (mkdir(d.c_str(), 0700) != 0) { for (int i = 0; i < 2400 && access(done.c_str(), F_OK) != 0; ++i) { usleep(100000); e.beat(); } return access(done.c_str(), F_OK) == 0; }
    std::string o; int rc = inc::run(e, build("g++", "-std=c++11 -O1", d + "/p"), o); if (rc != 0) { sh("touch " + d + "/broken " + done); return true; }
    sh(mc::strf("%s/p > %s/names", d.c_str(), d.c_str())); unsigned n = (unsigned)names().size(); for (unsigned p = 0; p < n; ++p) { sh(exec(d + "/p", p, d, d + "/out" + std::to_string(p))); e.beat(); } sh("touch " + done); return true;
}
static void one(mc::Exec& e, const char* cxx, const char* std, const char* flags) {
    std::string how = mc::strf("%s -std=%s %s", cxx, std, flags); e.op("build and run"); MC_LOG(e, "%s", how.c_str()); e.state(mc::Hash().s(how));
    // what a compiler cannot do with the standard library alone says nothing about this library
    std::string std_only = "#include <string>\n#include <sstream>\n#include <iostream>\n#include <thread>\n"; if (!strcmp(std, "c++23")) std_only += "#include <generator>\n"; std_only += "int main() { std::cout << std::string(\"x\"); }\n"; std::string dir = mc::scratch(), o;
    if (inc::run(e, mc::strf("%s -std=%s %s %s -o %s/empty", cxx, std, flags, inc::file("empty.cpp", std_only).c_str(), dir.c_str()), o) != 0) return;
    if (!baseline(e)) { e.fail("baseline", "the reference program could not be built in time"); return; }
    std::string exe = dir + "/p"; if (inc::run(e, build(cxx, mc::strf("-std=%s %s", std, flags), exe), o) != 0) { e.fail("compile", "%s does not compile: %s", how.c_str(), mc::quote(o.substr(0, 500)).c_str()); return; }
    if (access((base() + "/broken").c_str(), F_OK) == 0) { e.fail("compile", "g++ -std=c++11 -O1 does not compile the program that %s compiles", how.c_str()); return; }
    auto n = names(); if (n.empty()) { e.fail("run", "the reference program does not run"); return; }
    for (unsigned p = 0; p < n.size(); ++p) { std::string out = dir + "/out"; sh(exec(exe, p, dir, out)); e.beat(); std::string want = slurp(base() + "/out" + std::to_string(p)), got = slurp(out); size_t at = want.rfind("operations "); e.transition(at == std::string::npos ? 1 : (uint64_t)atoll(want.c_str() + at + 11)); e.outcome(mc::Hash().s(got));
        if (!differ(e, got, want, n[p], how)) break; }
    unlink(exe.c_str());
}
MC_SECTION(standards, false, false, 14, false, 300) { unsigned s = e.choose(NSTD), c = e.choose(2); one(e, c ? "clang++" : "g++", STD[s], mc::tier("-O0", "-O2")); }
MC_SECTION(flags, false, false, 22, false, 300) { unsigned f = 1 + e.choose(NFLAGS - 1), c = e.choose(2), s = e.choose(mc::tier(1u, 3u)); static const unsigned S[] = {0, 3, 2}; one(e, c ? "clang++" : "g++", STD[S[s]], FLAGS[f]); }
}
