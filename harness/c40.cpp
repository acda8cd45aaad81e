// The same program in every locale: nothing the library prints, reads, classifies or compares depends on it.
// Every probe runs in a child process that has chosen its locale before the library is used at all, and once more in the "C" locale.
#include "mc.hpp"
#include <clocale>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <locale>
#include <sstream>
#include <sys/wait.h>
#include <Caitlyn/Char>
#include <Caitlyn/Collections>
#include <Caitlyn/File>
#include <Caitlyn/IO>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Testing>
#include <Caitlyn/Utility>
#include <Caitlyn/Caitlyn>
#include <Caitlyn/Error>
#include <Caitlyn/Memory>
using namespace Caitlyn; using namespace Caitlyn::Test;
namespace hx { static std::string dir() { return mc::scratch(); } static bool deep() { return mc::thorough(); } }
#include "probes.hpp"
namespace hx {
struct Loc { const char* source; const char* charset; const char* name; };
static const Loc LOCS[] = {
    {"de_DE", "UTF-8", "de_DE.UTF-8"}, {"fr_FR", "UTF-8", "fr_FR.UTF-8"}, {"en_US", "UTF-8", "en_US.UTF-8"}, {"tr_TR", "UTF-8", "tr_TR.UTF-8"}, {"fa_IR", "UTF-8", "fa_IR.UTF-8"}, {"en_IN", "UTF-8", "en_IN.UTF-8"},
    {"de_DE", "ISO-8859-1", "de_DE.ISO-8859-1"}, {"ja_JP", "EUC-JP", "ja_JP.EUC-JP"}, {"de_CH", "UTF-8", "de_CH.UTF-8"}, {"lt_LT", "UTF-8", "lt_LT.UTF-8"}, {"ps_AF", "UTF-8", "ps_AF.UTF-8"}, {"ru_RU", "KOI8-R", "ru_RU.KOI8-R"}};
static const unsigned NLOC = sizeof LOCS / sizeof *LOCS;
// built once, before any worker is forked, from the sources every system carries; a locale that cannot be built is left out
static bool g_built[NLOC];
static const bool g_ready = [] {
    const char* base = getenv("MC_SCRATCH"); if (!base || !*base) return false; std::string dir = std::string(base) + "/locales"; mkdir(dir.c_str(), 0700);
    std::string cmd; for (auto& l : LOCS) cmd += mc::strf("(localedef -i %s -f %s '%s/%s' >/dev/null 2>&1) & ", l.source, l.charset, dir.c_str(), l.name); cmd += "wait";
    if (system(cmd.c_str())) {} setenv("LOCPATH", dir.c_str(), 1);
    for (unsigned i = 0; i < NLOC; ++i) { locale_t t = newlocale(LC_ALL_MASK, LOCS[i].name, (locale_t)0); g_built[i] = t != (locale_t)0; if (t) freelocale(t); }
    return true; }();
// a locale written by the application itself
struct Punct : std::numpunct<char> {
    char d, t; std::string g, yes, no; Punct(char a, char b, const char* c, const char* y, const char* n) : d(a), t(b), g(c), yes(y), no(n) {}
    char do_decimal_point() const override { return d; } char do_thousands_sep() const override { return t; } std::string do_grouping() const override { return g; } std::string do_truename() const override { return yes; } std::string do_falsename() const override { return no; }
};
struct Case : std::ctype<char> {   // 'i' and 'I' are not a pair, '_' is a letter, '7' is white space and '.' a digit
    static const mask* table() { static mask t[table_size]; std::copy(classic_table(), classic_table() + table_size, t); t[(unsigned char)'_'] = alpha; t[(unsigned char)'7'] = space; t[(unsigned char)'.'] = digit; t[(unsigned char)' '] = punct; t[0xC3] = space; return t; }
    Case() : std::ctype<char>(table()) {} char do_toupper(char c) const override { return c == 'i' ? '!' : std::ctype<char>::do_toupper(c); } char do_tolower(char c) const override { return c == 'I' ? '!' : std::ctype<char>::do_tolower(c); }
};
static const unsigned NOWN = 5, NWAY = 4;
static std::locale own(unsigned i) {
    std::locale c = std::locale::classic();
    switch (i) { case 0: return std::locale(c, new Punct(',', '.', "\3", "ja", "nein")); case 1: return std::locale(c, new Punct('x', '0', "\1", "0", "1")); case 2: return std::locale(c, new Punct('-', 'e', "\2\1", "", "")); case 3: return std::locale(c, new Case); default: return std::locale(std::locale(c, new Punct('1', '-', "\1\2", "false", "true")), new Case); }
}
static const unsigned NCHOICE = NLOC * NWAY + NOWN + 1;   // the last one is the classic locale
static std::string name(unsigned c) {
    if (c < NLOC * NWAY) { static const char* const W[] = {"std::locale::global(%s)", "setlocale(LC_ALL, %s)", "setlocale(LC_NUMERIC, %s)", "uselocale(%s)"}; return mc::strf(W[c % NWAY], LOCS[c / NWAY].name); }
    return c < NLOC * NWAY + NOWN ? mc::strf("std::locale::global(own facets %u)", c - NLOC * NWAY) : "the C locale";
}
static bool usable(unsigned c) { return c >= NLOC * NWAY || g_built[c / NWAY]; }
static void enter(unsigned c) {
    uselocale(LC_GLOBAL_LOCALE); std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); if (c == NCHOICE - 1) return;
    if (c >= NLOC * NWAY) { std::locale::global(own(c - NLOC * NWAY)); return; }
    const char* n = LOCS[c / NWAY].name; bool ok = true;
    switch (c % NWAY) { case 0: try { std::locale::global(std::locale(n)); } catch (...) { ok = setlocale(LC_ALL, n) != nullptr; } break; case 1: ok = setlocale(LC_ALL, n) != nullptr; break; case 2: ok = setlocale(LC_NUMERIC, n) != nullptr; break; default: { locale_t t = newlocale(LC_ALL_MASK, n, (locale_t)0); ok = t != (locale_t)0; if (ok) uselocale(t); } }
    if (!ok) _exit(9);
}
static std::string child(const std::function<std::string()>& f) {
    int p[2]; if (pipe(p)) abort(); fflush(nullptr); pid_t c = fork();
    if (c == 0) { close(p[0]); std::string r; try { r = f(); } catch (const std::exception& x) { r = std::string("escaped: ") + x.what(); } catch (...) { r = "escaped"; } size_t o = 0; while (o < r.size()) { ssize_t n = write(p[1], r.data() + o, r.size() - o); if (n <= 0) break; o += (size_t)n; } _exit(0); }
    close(p[1]); std::string r; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)n); close(p[0]); int st; waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) return "(unusable)"; if (!WIFEXITED(st) || WEXITSTATUS(st)) r = mc::strf("died %d\n", st) + r; return r;
}
static std::string run(unsigned p, unsigned c) { return child([&] { enter(c); O.clear(); ops = 0; PROBES[p].f(); return O + "operations " + num((long long)ops) + "\n"; }); }
static bool differ(mc::Exec& e, const std::string& got, const std::string& want, const char* what, const std::string& where) {
    if (got == want) return true; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t b = want.rfind('\n', i ? i - 1 : 0); b = b == std::string::npos ? 0 : b + 1; auto line = [&](const std::string& s) { if (b >= s.size()) return std::string("(nothing)"); size_t n = s.find('\n', b); return s.substr(b, n == std::string::npos ? std::string::npos : n - b).substr(0, 200); };
    e.fail("locale", "%s under %s: %s; in the C locale: %s", what, where.c_str(), mc::quote(line(got)).c_str(), mc::quote(line(want)).c_str()); return false;
}
MC_SECTION(whole, false, false, 100, true, 200) {
    unsigned p = e.choose(NP), c = e.choose(NCHOICE); if (!usable(c)) return; e.op("run"); MC_LOG(e, "%s under %s", PROBES[p].name, name(c).c_str());
    static std::map<unsigned, std::string> base; auto it = base.find(p); if (it == base.end()) { it = base.insert({p, run(p, NCHOICE - 1)}).first; e.beat(); }
    std::string got = run(p, c); if (got == "(unusable)") return; const std::string& w = it->second; size_t at = w.rfind("operations "); e.transition(at == std::string::npos ? 1 : (uint64_t)atoll(w.c_str() + at + 11)); e.state(mc::Hash().u(p).u(c)); e.outcome(mc::Hash().s(got));
    e.check(at != std::string::npos, "probe", "%s in the C locale: %s", PROBES[p].name, mc::quote(w.substr(0, 300)).c_str()); differ(e, got, w, PROBES[p].name, name(c));
}
// the locale changes between operations on the same objects
struct World { String text; StringBuilder b; JsonDocument d, back; BigFloat f{"0.5"}; BigInteger i{"999"}; std::string log; };
static void step(World& w, unsigned op) {
    auto o = [&](const std::string& s) { w.log += s; w.log += '\n'; };
    switch (op) {
    case 0: w.d["x"] = 1234567.5; w.d["y"] = (Int64)7654321; o(w.d.ToString(true, 2).str()); break;
    case 1: w.back.Parse(w.d.ToString()); o(num((long long)w.back.GetError()) + w.back.ToString(false, 2).str()); break;
    case 2: w.text += String::Format("{} {:.2f};", 1000000, 1234.565); o(w.text.str()); break;
    case 3: w.b.Append("{} {:.1f} ", 1000000, 0.25); w.b.AppendLine(w.text); o(w.b.str().str()); break;
    case 4: try { w.f = w.f * BigFloat(2.5) + BigFloat("1000.25"); o(w.f.ToString().str()); } catch (const std::exception&) { o("exception"); } break;
    case 5: w.i = w.i * w.i + BigInteger((int64_t)1000000); { std::ostringstream os; os << w.i << ' ' << w.f << ' ' << w.text << ' ' << w.d; o(os.str()); } break;
    default: { JsonDocument n; n.Parse(String("{\"x\": 2.75, \"y\": [1000000, 1e3], \"\xC4\xB0\": \"i\"}")); o(num((long long)n.GetError()) + n.ToString().str()); StringBuilder c(w.b); c.Append(String("{} end"), 1e6); o(c.str().str()); o(w.text.ToUppercase().str()); }
    }
}
static const unsigned NOP = 7;
MC_SECTION(switching, false, false, true, true, 60) {
    static const unsigned pick[] = {0, 1, 4 * 4 + 1, 4 * 6, NLOC * NWAY, NLOC * NWAY + 1, NLOC * NWAY + 4}; unsigned n = mc::tier(2u, 3u), np = mc::tier(5u, 7u); std::vector<std::pair<unsigned, unsigned>> h;
    auto at = [&](unsigned l) { return l == 0 ? NCHOICE - 1 : pick[l - 1]; }; 
    for (unsigned k = 0; k < n; ++k) { unsigned l = e.choose(np + 1), op = e.choose(NOP); h.push_back({at(l), op}); if (!usable(h.back().first)) return; }
    e.op("history"); std::string t; for (auto& x : h) t += name(x.first) + ": op " + num(x.second) + "; "; MC_LOG(e, "%s", t.c_str());
    // one child runs all last steps, every history from fresh objects; the runs in the C locale come after the others, in the same process
    std::string r = child([&] { std::string got, want;
        for (int classic = 0; classic < 2; ++classic) for (unsigned l = 0; l <= np; ++l) for (unsigned op = 0; op < NOP; ++op) { if (!usable(at(l))) continue; World w; for (auto& x : h) { enter(classic ? NCHOICE - 1 : x.first); step(w, x.second); } enter(classic ? NCHOICE - 1 : at(l)); step(w, op); std::string& o = classic ? want : got; o += "then " + name(at(l)) + ": op " + num(op) + ": "; for (char c : w.log) o += c == '\n' ? '\x01' : c; o += '\n'; }
        return got + "\x02" + want; });
    size_t m = r.find('\x02'); e.transition((uint64_t)h.size() * (np + 1) * NOP); if (m == std::string::npos) { e.fail("switch", "the history dies: %s", mc::quote(r.substr(0, 300)).c_str()); return; } e.state(mc::Hash().s(r)); differ(e, r.substr(0, m), r.substr(m + 1), "a history", t);
}
}
