#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/Algorithms.h"
using namespace Caitlyn;
namespace hx {
typedef std::vector<std::string> C;
template <size_t N> static C word(mc::Exec& e, const char* const (&al)[N], unsigned maxlen) { C c; unsigned n = e.choose(maxlen + 1); for (unsigned i = 0; i < n; ++i) c.push_back(al[e.choose(N)]); return c; }

MC_SECTION(split) {
    static const char* const al[] = {"a", ",", ";", " ", "\n"}; C w = word(e, al, mc::tier(7u, 8u)); std::string s = ref::join(w);
    for (char d : {',', ' ', '\n', 'a', 'z'}) {
        e.op("Split"); e.transition(); C m; std::string cur; bool open = false;
        for (char c : s) { open = true; if (c == d) { m.push_back(cur); cur.clear(); open = false; } else cur += c; }
        if (open) m.push_back(cur);
        MC_LOG(e, "Split(%s, %s)", mc::quote(s).c_str(), mc::quote(std::string(1, d)).c_str()); e.state(mc::Hash().s(s).u(d)); e.outcome(m.size());
        auto r = Split(s, d); e.check(r.size() == m.size(), "split-count", "Split(%s, '%c') gives %zu pieces instead of %zu", mc::quote(s).c_str(), d, r.size(), m.size());
        std::string back; for (size_t i = 0; i < r.size(); ++i) { e.check(r[i] == m[i], "split-piece", "Split(%s, '%c') piece %zu is %s", mc::quote(s).c_str(), d, i, mc::quote(r[i]).c_str()); back += (i ? std::string(1, d) : std::string()) + r[i]; }
        e.check(back == s || back + d == s, "split-join", "joining the pieces of %s gives %s", mc::quote(s).c_str(), mc::quote(back).c_str());
    }
}
MC_SECTION(split_long) { unsigned n = e.choose(mc::tier(200u, 2000u)), g = 1 + e.choose(5); std::string s; for (unsigned i = 0; i < n; ++i) s += i % g == g - 1 ? ',' : (char)('a' + i % 26); C m; std::string cur; bool open = false; for (char c : s) { open = true; if (c == ',') { m.push_back(cur); cur.clear(); open = false; } else cur += c; } if (open) m.push_back(cur); e.op("Split"); e.state(mc::Hash().s(s)); MC_LOG(e, "Split of %u characters", n); auto r = Split(s, ','); e.transition(); e.check(r == m, "split-long", "Split of a %u character text is wrong", n); }
MC_SECTION(repeat) {
    static const char* const al[] = {"a", "\xC3\xA9", " "}; std::string s = ref::join(word(e, al, 4)); static const unsigned ns[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 255, 256, 1000}; unsigned n = e.pick(ns);
    e.op("Repeat"); std::string m; for (unsigned i = 0; i < n; ++i) m += s; MC_LOG(e, "Repeat(%s, %u)", mc::quote(s).c_str(), n); e.state(mc::Hash().s(s).u(n)); e.transition();
    std::string r = Repeat(s, n); e.check(r == m, "repeat", "Repeat(%s, %u) has %zu bytes instead of %zu: %s", mc::quote(s).c_str(), n, r.size(), m.size(), mc::quote(r.substr(0, 80)).c_str());
}
static int hexv(const std::string& c) { if (c.size() != 1) return -1; char x = c[0]; return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; }
static long h4(const C& t, size_t p) { long v = 0; for (size_t i = p; i < p + 4; ++i) { if (i >= t.size()) return -1; int h = hexv(t[i]); if (h < 0) return -1; v = v * 16 + h; } return v; }
static bool unescape(const C& t, std::string& o) {      // false: outcome left open (NUL, lone surrogate)
    o.clear(); bool open = false;
    static const char k[] = "\"?\\/abfnrtv"; static const char v[] = "\"?\\/\a\b\f\n\r\t\v";
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] != "\\" || i + 1 >= t.size()) { o += t[i]; continue; }
        const std::string& c = t[i + 1]; const char* q = c.size() == 1 ? strchr(k, c[0]) : nullptr;
        if (q && *q) { o += v[q - k]; ++i; continue; }
        if (c == "u") {
            long x = h4(t, i + 2);
            if (x >= 0) { size_t nx = i + 6; if (x >= 0xD800 && x < 0xDC00 && nx + 1 < t.size() && t[nx] == "\\" && t[nx + 1] == "u") { long y = h4(t, nx + 2); if (y >= 0xDC00 && y < 0xE000) { x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00); nx += 6; } }
                if (x == 0 || (x >= 0xD800 && x < 0xE000)) open = true; o += ref::enc((uint32_t)x); i = nx - 1; continue; }
        }
        o += "\\" + c; ++i;
    }
    return !open;
}
static void esc(mc::Exec& e, const C& t) {
    std::string s = ref::join(t), w; bool exact = unescape(t, w); e.op("EscapeString"); e.transition(); e.state(mc::Hash().s(s)); MC_LOG(e, "EscapeString(%s)", mc::quote(s).c_str());
    std::string r = EscapeString(String(s.c_str())).str(); e.outcome(mc::Hash().u(r.size()).u(s.size()));
    if (exact) e.check(r == w, "unescape", "EscapeString(%s) = %s instead of %s", mc::quote(s).c_str(), mc::quote(r).c_str(), mc::quote(w).c_str());
}
MC_SECTION(escapes_all) { static const char* const al[] = {"\\", "u", "0", "4", "1", "d", "8", "n", "\"", "A", "\xC3\xA9"}; unsigned n = e.choose(mc::tier(7u, 8u)); C t; for (unsigned i = 0; i < n; ++i) t.push_back(e.pick(al)); esc(e, t); }
MC_SECTION(escapes_single) { unsigned c = 1 + e.choose(0x24F), pre = e.choose(3), post = e.choose(3); C t; if (pre) t.push_back(pre == 1 ? "x" : "\xE4\xB8\x96"); t.push_back("\\"); t.push_back(ref::enc(c)); if (post) t.push_back(post == 1 ? "u" : "\\"); esc(e, t); }
static void puts4(C& t, unsigned x, bool up) { char b[8]; snprintf(b, 8, up ? "%04X" : "%04x", x); t.push_back("\\"); t.push_back("u"); for (int i = 0; i < 4; ++i) t.push_back(std::string(1, b[i])); }
MC_SECTION(escapes_unicode) { unsigned b = e.choose(1024); for (unsigned i = 0; i < 64; ++i) for (int up = 0; up < 2; ++up) { C t; t.push_back("<"); puts4(t, b * 64 + i, up); t.push_back(">"); esc(e, t); } }
MC_SECTION(escapes_surrogates) { unsigned hi = 0xD7FF + e.choose(0x402); unsigned st = mc::tier(37u, 1u); for (unsigned lo = 0xDBFE; lo < 0xE002; lo += (lo < 0xDC02 || lo > 0xDFF8) ? 1 : st) { C t; puts4(t, hi, false); puts4(t, lo, true); t.push_back("z"); esc(e, t); e.beat(); } }
MC_SECTION(is_number) {
    static const char* const al[] = {"0", "9", "5", "a", " ", "-", "+", ".", "\xD9\xA3", "\xEF\xBC\x91"}; C t = word(e, al, mc::tier(5u, 6u)); bool w = !t.empty(); for (auto& c : t) if (!(c == "0" || c == "9" || c == "5" || c.size() > 1)) w = false;
    e.op("IsNumber"); e.transition(); std::string s = ref::join(t); e.state(mc::Hash().s(s)); MC_LOG(e, "IsNumber(%s)", mc::quote(s).c_str()); e.outcome(w);
    e.check(IsNumber(String(s.c_str())) == w, "isnumber", "IsNumber(%s) = %d", mc::quote(s).c_str(), !w);
}
MC_SECTION(non_space) {
    static const char* const al[] = {" ", "a", "\t", "\xE3\x80\x80", "\xC3\xA9", "\n"}; C t = word(e, al, mc::tier(7u, 8u)); size_t f = t.size(), l = t.size();
    auto sp = [](const std::string& c) { return c == " " || c == "\t" || c == "\n" || c == "\xE3\x80\x80"; };
    for (size_t i = 0; i < t.size(); ++i) if (!sp(t[i])) { if (f == t.size()) f = i; l = i; }
    std::string s = ref::join(t); String x(s.c_str()); e.state(mc::Hash().s(s)); e.outcome(mc::Hash().u(f).u(l)); MC_LOG(e, "non-space positions of %s", mc::quote(s).c_str());
    e.op("FindFirstNonSpace"); size_t r = FindFirstNonSpace(x); e.check(r == f, "first", "FindFirstNonSpace(%s) = %zu instead of %zu", mc::quote(s).c_str(), r, f);
    e.op("FindLastNonSpace"); r = FindLastNonSpace(x); e.check(r == l, "last", "FindLastNonSpace(%s) = %zu instead of %zu", mc::quote(s).c_str(), r, l); e.transition(2);
}
MC_SECTION(scale, true, false, 0, true, 60) {
    unsigned n = e.pick(kScale), k = e.choose(5); e.op("algorithms on long texts"); MC_LOG(e, "kind %u, size %u", k, n); e.state(mc::Hash().u(n).u(k)); e.transition();
    if (k == 0) { std::string s(n, 'p'); s += "," + std::string(n, 'q') + ",,r"; auto r = Split(s, ','); e.check(r.size() == 4 && r[0] == std::string(n, 'p') && r[1] == std::string(n, 'q') && r[2].empty() && r[3] == "r", "split-piece", "Split of pieces of %u characters gives %zu pieces", n, r.size()); }
    if (k == 1) { std::string s; for (unsigned i = 0; i < n; ++i) s += "z,"; auto r = Split(s, ','); bool ok = r.size() == n; for (auto& x : r) ok = ok && x == "z"; e.check(ok, "split-count", "Split of %u pieces gives %zu", n, r.size()); }
    if (k == 2) { std::string w, s = "ab\xC3\xA9"; for (unsigned i = 0; i < n; ++i) w += s; std::string r = Repeat(s, n); e.check(r == w, "repeat", "Repeat(\"ab\xC3\xA9\", %u) has %zu bytes instead of %zu", n, r.size(), w.size()); std::string l(n, 'l'); e.check(Repeat(l, 3) == l + l + l && Repeat(l, 1) == l, "repeat", "Repeat of %u characters is wrong", n); }
    if (k == 3) { String s((std::string(n, ' ') + "x\xC3\xA9" + std::string(n, ' ')).c_str()); size_t f = FindFirstNonSpace(s), l = FindLastNonSpace(s); e.check(f == n && l == n + 1u, "non-space", "the non-space characters after %u spaces are found at %zu and %zu", n, f, l); String b(std::string(n, ' ').c_str()); e.check(FindFirstNonSpace(b) == n && FindLastNonSpace(b) == n, "non-space", "in %u spaces, non-space characters are found at %zu and %zu", n, (size_t)FindFirstNonSpace(b), (size_t)FindLastNonSpace(b)); }
    if (k == 4) { std::string s(n, '7'); e.check(IsNumber(String(s.c_str())), "isnumber", "%u digits are no number", n); s += "a"; e.check(!IsNumber(String(s.c_str())), "isnumber", "%u digits and a letter are a number", n);
        std::string t(n, 'e'), u = t + "\\u00e9\\n" + t; e.check(EscapeString(String(u.c_str())).str() == t + "\xC3\xA9\n" + t, "unescape", "an escape after %u characters is not replaced", n); }
}
} // namespace hx
