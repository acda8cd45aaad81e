// What the configuration macros say, asked of the real preprocessors for every target they know, and of a program that runs.
#include "targets.hpp"
#include <map>
#include <sstream>
#include <unistd.h>
namespace hx {
static const char* const NAMES[] = {"ARCH_X86", "ARCH_X86_64", "ARCH_ARM", "ARCH_ARM64", "OS_LINUX", "OS_APPLE", "OS_WINDOWS", "OS_ANDROID", "OS_UNIX", "COMPILER_CLANG", "COMPILER_GCC", "COMPILER_MSVC", "COMPILER_INTEL"};
static std::string probe() {
    std::string s = "#include <Caitlyn/Caitlyn>\n";
    for (unsigned i = 0; i < sizeof NAMES / sizeof *NAMES; ++i) s += mc::strf("#ifdef __CAITLYN_%s\n@%s yes\n#else\n@%s no\n#endif\n", NAMES[i], NAMES[i], NAMES[i]);
    s += "@ARCH __CAITLYN_ARCH\n@OS_NAME __CAITLYN_OS_NAME\n@COMPILER_VERSION __CAITLYN_COMPILER_VERSION\n@VERSION __CAITLYN_VERSION\n@STANDARD __CAITLYN_CXX_STANDARD\n@cplusplus __cplusplus\n@pointer __SIZEOF_POINTER__\n@MAJOR __CAITLYN_MAJOR_VERSION__\n@MINOR __CAITLYN_MINOR_VERSION__\n@PATCH __CAITLYN_PATCH_VERSION__\n";
    static const char* const n[] = {"11", "14", "17", "20", "23"}; for (unsigned i = 0; i < 5; ++i) s += mc::strf("@HAS%s __CAITLYN_HAS_CXX%s\n@CONSTEXPR%s __CAITLYN_CONSTEXPR%s\n#if __CAITLYN_HAS_CXX%s\n@IF%s yes\n#else\n@IF%s no\n#endif\n", n[i], n[i], n[i], n[i], n[i], n[i], n[i]);
    s += "@INLINE17 __CAITLYN_INLINE17\n@NODISCARD17 __CAITLYN_NODISCARD17\n@NODISCARD20 __CAITLYN_NODISCARD20(why)\n@CONSTEVAL20 __CAITLYN_CONSTEVAL20\n@CONSTINIT20 __CAITLYN_CONSTINIT20\n@NOEXCEPT11 __CAITLYN_NOEXCEPT11\n@WORDSIZE __CAITLYN_WORDSIZE\n@gnuc __GNUC__.__GNUC_MINOR__\n@clang __clang_major__.__clang_minor__\n@end end\n"; return s;
}
// the standard headers are empty here: the macros may only depend on what the compiler predefines
static std::string strip(const std::string& t) { std::string r; bool q = false; for (char c : t) { if (c == '"') { q = !q; continue; } if (!q && c == ' ') continue; r += c; } return r; }   // adjacent literals joined
static void ask(mc::Exec& e, const std::string& cmd, const char* std, long ver, const char* cxx, const Target& t) {
    MC_LOG(e, "%s", cmd.c_str()); std::string o; e.transition(); int rc = inc::run(e, cmd, o, 100000000); if (rc != 0) { std::string err = o.substr(0, 600); e.fail("unsupported", "%s %s: the headers do not preprocess:\n%s", t.triple, std, err.c_str()); }
    std::map<std::string, std::string> m; std::istringstream in(o); for (std::string l; std::getline(in, l);) if (l[0] == '@') { size_t p = l.find(' '); m[l.substr(1, p - 1)] = p == std::string::npos ? "" : l.substr(p + 1); }
    if (m["end"] != "end") e.fail("unsupported", "%s %s: no answer", t.triple, std);
    auto is = [&](const char* k, const std::string& w) { e.transition(); std::string g = strip(m[k]); e.check(g == w, "macro", "%s -std=%s for %s: %s is \"%s\" instead of \"%s\"", cxx, std, t.triple, k, g.c_str(), w.c_str()); };
    auto yes = [&](const std::string& k, bool w) { is(k.c_str(), w ? "yes" : "no"); };
    for (const char* a : {"X86", "X86_64", "ARM", "ARM64"}) yes(std::string("ARCH_") + a, !strcmp(a, t.arch)); is("ARCH", std::to_string(t.bits));
    for (const char* a : {"LINUX", "APPLE", "WINDOWS", "ANDROID"}) yes(std::string("OS_") + a, !strcmp(a, t.os)); yes("OS_UNIX", t.unix_); is("OS_NAME", t.name);
    if (t.unix_) is("WORDSIZE", std::to_string(8 * atoi(m["pointer"].c_str())));
    bool clang = !strncmp(cxx, "clang", 5); yes("COMPILER_CLANG", clang); yes("COMPILER_GCC", !clang); yes("COMPILER_MSVC", false); yes("COMPILER_INTEL", false);
    is("COMPILER_VERSION", clang ? "Clang" "" " " + strip(m["clang"]) : "GCC " + strip(m["gnuc"])); is("VERSION", "Caitlyn " + m["MAJOR"] + "." + m["MINOR"] + "." + m["PATCH"]);
    is("STANDARD", m["cplusplus"]); long cpp = atol(m["cplusplus"].c_str()); if (ver < 202300) e.check(cpp == ver, "macro", "the compiler does not use %s", std);
    static const char* const n[] = {"11", "14", "17", "20", "23"}; for (unsigned i = 0; i < 5; ++i) { bool h = cpp >= VER[i]; is((std::string("HAS") + n[i]).c_str(), h ? "1" : "0"); yes(std::string("IF") + n[i], h); is((std::string("CONSTEXPR") + n[i]).c_str(), h ? "constexpr" : ""); }
    is("NOEXCEPT11", "noexcept"); is("INLINE17", cpp >= VER[2] ? "inline" : ""); is("NODISCARD17", cpp >= VER[2] ? "[[nodiscard]]" : ""); is("NODISCARD20", cpp >= VER[3] ? "[[nodiscard(why)]]" : ""); is("CONSTEVAL20", cpp >= VER[3] ? "consteval" : ""); is("CONSTINIT20", cpp >= VER[3] ? "constinit" : "");
    e.outcome(mc::Hash().s(t.os).s(t.arch).u(cpp));
}
MC_SECTION(targets, false, false, true, false, 120) {       // clang++ knows every target without a sysroot
    unsigned t = e.choose(NT), s = e.choose(5); e.op("clang++ -E"); e.state(mc::Hash().u(t).u(s)); for (const char* h : STUB) inc::file(h, "");
    ask(e, mc::strf("clang++ -E -P -w -nostdinc -nostdinc++ -isystem %s --target=%s -std=%s -I%s %s", mc::scratch().c_str(), T[t].triple, STD[s], inc::dir(), inc::file("p.cpp", probe()).c_str()), STD[s], VER[s], "clang++", T[t]);
}
MC_SECTION(gcc_targets, false, false, true, false, 120) {   // g++ knows this machine, its 32-bit mode and x32
    unsigned t = e.choose(3), s = e.choose(5); static const unsigned w[] = {0, 1, 4}; static const char* const f[] = {"-m64", "-m32", "-mx32"}; e.op("g++ -E"); e.state(mc::Hash().u(t).u(s)); for (const char* h : STUB) inc::file(h, "");
    ask(e, mc::strf("g++ -E -P -w -nostdinc -nostdinc++ -isystem %s %s -std=%s -I%s %s", mc::scratch().c_str(), f[t], STD[s], inc::dir(), inc::file("p.cpp", probe()).c_str()), STD[s], VER[s], "g++", T[w[t]]);
}
MC_SECTION(native, false, false, true, false, 120) {        // with the real standard headers, in every public header
    static const char* const H[] = {"Caitlyn/Algorithms", "Caitlyn/Caitlyn", "Caitlyn/Char", "Caitlyn/Collections", "Caitlyn/DateTime", "Caitlyn/Error", "Caitlyn/File", "Caitlyn/IO", "Caitlyn/Memory", "Caitlyn/Numeric", "Caitlyn/Serializing", "Caitlyn/String", "Caitlyn/System", "Caitlyn/Testing", "Caitlyn/Threading", "Caitlyn/Traits", "Caitlyn/Utility"};
    unsigned h = e.choose(17), s = e.choose(4), c = e.choose(2); const char* cxx = c ? "clang++" : "g++"; e.op("native"); e.state(mc::Hash().u(h).u(s).u(c)); if (!inc::usable(e, cxx, STD[s])) return;
    std::string p = probe(); p.replace(0, p.find('\n'), mc::strf("#include <%s>", H[h])); ask(e, mc::strf("%s -E -P -w -std=%s -I%s %s", cxx, STD[s], inc::dir(), inc::file("p.cpp", p).c_str()), STD[s], VER[s], cxx, T[0]);
}
}
