// Programs that consist of includes only, compiled and linked with the real compilers.
#include "mc.hpp"
#include <sys/wait.h>
namespace hx {
static const char* const H[] = {"Caitlyn/Algorithms", "Caitlyn/Caitlyn", "Caitlyn/Char", "Caitlyn/Collections", "Caitlyn/DateTime", "Caitlyn/Error", "Caitlyn/File", "Caitlyn/IO", "Caitlyn/Memory", "Caitlyn/Numeric", "Caitlyn/Serializing", "Caitlyn/String", "Caitlyn/System", "Caitlyn/Testing", "Caitlyn/Threading", "Caitlyn/Traits", "Caitlyn/Utility"};
static const unsigned NH = sizeof H / sizeof *H; static const char* const STD[] = {"c++11", "c++14", "c++17", "c++20"}; static const char* const CXX[] = {"g++", "clang++"};
static const char* inc() { return MC_REPO "/include"; }
static int run(mc::Exec& e, const std::string& cmd, std::string& out) { out.clear(); FILE* p = popen((cmd + " 2>&1").c_str(), "r"); if (!p) return -1; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) { if (out.size() < 1500) out.append(b, n); e.beat(); } return pclose(p); }
static std::string file(const char* name, const std::string& text) { std::string p = std::string(mc::scratch()) + "/" + name; FILE* f = fopen(p.c_str(), "w"); fputs(text.c_str(), f); fclose(f); return p; }
// a compiler that cannot compile an empty program says nothing about the library
static bool usable(mc::Exec& e, const char* cxx, const char* std) { std::string o; return run(e, mc::strf("%s -std=%s -fsyntax-only %s", cxx, std, file("empty.cpp", "#include <string>\nint main() {}\n").c_str()), o) == 0; }
static void syntax(mc::Exec& e, const char* cxx, const char* std, const std::string& text) { std::string o, f = file("a.cpp", text + "int main() { return 0; }\n"); MC_LOG(e, "%s -std=%s of\n%s", cxx, std, text.c_str()); e.transition(); if (run(e, mc::strf("%s -std=%s -I%s -fsyntax-only %s", cxx, std, inc(), f.c_str()), o) != 0 && usable(e, cxx, std)) e.fail("does-not-compile", "%s -std=%s:\n%s", cxx, std, o.c_str()); }
static std::string I(unsigned h) { return mc::strf("#include <%s>\n", H[h]); }
MC_SECTION(alone, false, false, true, false, 120) { unsigned h = e.choose(NH), s = e.choose(4), c = e.choose(2); e.op("one header"); e.state(mc::Hash().u(h).u(s).u(c)); syntax(e, CXX[c], STD[s], I(h)); }
MC_SECTION(all_in_order, false, false, true, false, 120) { unsigned a = e.choose(NH); bool back = a % 2; e.op("all headers"); e.state(mc::Hash().u(a).u(back)); std::string t; for (unsigned i = 0; i < NH; ++i) t += I((back ? a + NH - i : a + i) % NH); syntax(e, "g++", "c++11", t); }
MC_SECTION(in_order_everywhere, false, true, true, false, 120) { unsigned a = e.choose(NH), b = e.choose(NH), s = e.choose(4), c = e.choose(2); e.op("two headers"); e.state(mc::Hash().u(a).u(b).u(s).u(c)); syntax(e, CXX[c], STD[s], I(a) + I(b)); }
// every header in two translation units of one program that is run
static void linked(mc::Exec& e, const char* cxx, const char* std, const std::string& ta, const std::string& tb) {
    std::string o, a = file("a.cpp", ta + "int f();\nint main() { return f(); }\n"), b = file("b.cpp", tb + "int f() { return 0; }\n"), x = std::string(mc::scratch()) + "/prog"; bool tbb = strcmp(std, "c++11") && strcmp(std, "c++14") && !strcmp(cxx, "g++"); MC_LOG(e, "%s -std=%s of two units\n%s--\n%s", cxx, std, ta.c_str(), tb.c_str()); e.transition(2);
    std::string extra = tbb && run(e, "echo 'int main(){}' | g++ -x c++ - -o /dev/null -ltbb", o) == 0 ? " -ltbb" : ""; if (tbb && extra.empty()) return;   // <execution> of this standard library needs TBB
    if (run(e, mc::strf("%s -std=%s -I%s %s %s -o %s -lpthread%s", cxx, std, inc(), a.c_str(), b.c_str(), x.c_str(), extra.c_str()), o) != 0) { if (usable(e, cxx, std)) e.fail("does-not-link", "%s -std=%s:\n%s", cxx, std, o.c_str()); return; } if (run(e, x, o) != 0) e.fail("does-not-run", "a program of two units that only include the headers fails: %s", o.c_str());
}
MC_SECTION(two_units, false, false, true, false, 120) { unsigned h = e.choose(NH + 1); const char* std = STD[h == NH ? 2 * e.choose(2) : 0]; e.op("two units"); std::string t; for (unsigned i = 0; i < NH; ++i) if (i == h || h == NH) t += I(i); e.state(mc::Hash().u(h).s(std)); linked(e, "g++", std, t, t); }
MC_SECTION(two_units_everywhere, false, true, true, false, 120) { unsigned a = e.choose(NH + 1), b = e.choose(NH + 1); const char* std = STD[e.choose(4)]; e.op("two units"); std::string t, u; for (unsigned i = 0; i < NH; ++i) { if (i == a || a == NH) t += I(i); if (i == b || b == NH) u += I(NH - 1 - i); } e.state(mc::Hash().u(a).u(b).s(std)); linked(e, e.flag() ? "clang++" : "g++", std, t, u); }
}
