#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include <sstream>
#include <memory>
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
namespace hx {

struct Buf {                    // exact-size heap copy so that any over-read is trapped
    char* p; Buf(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; }
    ~Buf() { free(p); }
};
static void same(mc::Exec& e, const String& x, const std::vector<std::string>& w, const char* how) {
    e.transition();
    std::string want = ref::join(w);
    if (x.size() != w.size() || x.Length() != w.size()) e.fail("size", "%s: %zu characters instead of %zu", how, (size_t)x.size(), w.size());
    if (x.IsEmpty() != w.empty() || x.NotEmpty() == w.empty()) e.fail("empty", "%s: emptiness wrong", how);
    if (x.str() != want) e.fail("bytes", "%s: bytes %s instead of %s", how, mc::quote(x.str()).c_str(), mc::quote(want).c_str());
    if (x.ByteCount() != want.size()) e.fail("bytecount", "%s: byte count %zu instead of %zu", how, (size_t)x.ByteCount(), want.size());
    for (size_t i = 0; i < w.size(); ++i) if (x[i].str() != w[i]) e.fail("char", "%s: character %zu is %s instead of %s", how, i, mc::quote(x[i].str()).c_str(), mc::quote(w[i]).c_str());
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

static void decode(mc::Exec& e, const std::string& s, bool full) {
    std::vector<std::string> w; bool ok = ref::split(s, w);
    e.state(mc::Hash().s(s)); e.outcome(ok ? w.size() : 1000);
    MC_LOG(e, "bytes %s: %s", mc::quote(s).c_str(), ok ? "well-formed" : "malformed");
    Buf b(s);
    e.op("String(const char*)"); bool t = throws([&] { String x(b.p); if (ok) same(e, x, w, "String(const char*)"); });
    e.check(t == !ok, t ? "rejects-valid" : "accepts-invalid", "String(const char*): %s %s", mc::quote(s).c_str(), t ? "was rejected" : "was accepted");
    e.op("String(std::string)"); t = throws([&] { String x(s); if (ok) same(e, x, w, "String(std::string)"); });
    e.check(t == !ok, "std-string", "String(std::string): %s %s", mc::quote(s).c_str(), t ? "was rejected" : "was accepted");
    if (!full) return;
    {   // heap-allocated std::string whose last byte is the end of its block
        std::string h = std::string(16, 'x') + s; std::vector<std::string> hw(16, "x"); hw.insert(hw.end(), w.begin(), w.end());
        std::unique_ptr<std::string> hp(new std::string(h.begin(), h.end())); hp->shrink_to_fit();
        e.op("String(heap std::string)"); t = throws([&] { String x(*hp); if (ok) same(e, x, hw, "String(heap std::string)"); });
        e.check(t == !ok, "std-string-heap", "String(std::string): %s %s", mc::quote(h).c_str(), t ? "was rejected" : "was accepted");
    }
    std::vector<std::string> base = {"q", "\xC3\xA9"};
    e.op("Append(const char*)"); { String x("q\xC3\xA9"); t = throws([&] { x.Append(b.p); }); e.check(t == !ok, "append", "Append(%s) %s", mc::quote(s).c_str(), t ? "threw" : "did not throw"); std::vector<std::string> m = base; if (ok) m.insert(m.end(), w.begin(), w.end()); same(e, x, m, "after Append"); }
    e.op("Insert(const char*)"); { String x("q\xC3\xA9"); t = throws([&] { x.Insert(1, b.p); }); e.check(t == !ok, "insert", "Insert(%s) %s", mc::quote(s).c_str(), t ? "threw" : "did not throw"); std::vector<std::string> m = base; if (ok) m.insert(m.begin() + 1, w.begin(), w.end()); same(e, x, m, "after Insert"); }
    e.op("assign"); { String x("q\xC3\xA9"); t = throws([&] { x = b.p; }); e.check(t == !ok, "assign", "= %s %s", mc::quote(s).c_str(), t ? "threw" : "did not throw"); same(e, x, ok ? w : base, "after assignment"); }
    if (ok) {
        e.op("literal/stream"); String x = operator""_str(b.p, s.size()); same(e, x, w, "_str literal");
        std::ostringstream os; os << x; e.check(os.str() == s, "stream-out", "printed %s", mc::quote(os.str()).c_str());
        String y(x.data()); same(e, y, w, "String(std::vector<Char>)");
    }
    if (s.find('\n') == std::string::npos) {
        e.op("operator>>"); String x("old"); std::istringstream is(s + "\nnext"); t = throws([&] { is >> x; });
        e.check(t == !ok, "stream-in", ">> %s %s", mc::quote(s).c_str(), t ? "threw" : "did not throw");
        same(e, x, ok ? w : std::vector<std::string>{"o", "l", "d"}, "after >>");
        if (ok) { is >> x; same(e, x, {"n", "e", "x", "t"}, "second >>"); is >> x; same(e, x, {"n", "e", "x", "t"}, ">> at end of input"); }
    }
}
static const unsigned char cls[] = {'A', 0x7F, 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF8, 0xFF};
MC_SECTION(byte_classes) {
    unsigned n = e.choose(mc::tier(7u, 8u)); std::string s;
    for (unsigned i = 0; i + 1 < n; ++i) s += (char)e.pick(cls);
    if (!n) { decode(e, s, true); return; }
    for (unsigned char c : cls) decode(e, s + (char)c, n <= 5);
}
MC_SECTION(all_bytes) {                 // every byte string of length 1..2, and every 3-byte string at the end of a text
    unsigned a = e.choose(256), b = e.choose(256);
    if (a == 0 || b == 0) return;
    std::string s; s += (char)a; if (a == 1) decode(e, std::string(1, (char)b), true);
    s += (char)b; decode(e, s, true);
    for (unsigned c = 1; c < 256; c += mc::tier(3, 1)) decode(e, s + (char)c, false);
}
MC_SECTION(long_texts) {
    static const unsigned len[] = {1, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
    static const char* const ch[] = {"a", "\xC3\xA9", "\xE4\xB8\x96", "\xF0\x9F\x99\x82", "mix"};
    static const char* const tail[] = {"", "\x80", "\xC3", "\xE4\xB8", "\xE4", "\xF0\x9F\x99", "\xF0\x9F", "\xF0", "\xFF", "\xC3" "a", "\xF0\x9F\x99z"};
    unsigned n = e.pick(len); unsigned k = e.choose(5); std::string t = e.pick(tail); unsigned where = e.choose(3);
    std::string s; size_t at = where == 0 ? n : where == 1 ? n / 2 : 0;
    for (unsigned i = 0; i <= n; ++i) { if (i == at) s += t; if (i < n) s += k == 4 ? ch[i % 4] : ch[k]; }
    decode(e, s, true);
}
// a text of `count` equal characters, given as a byte, a Char or a pattern
static const unsigned counts[] = {0, 1, 2, 3, 17, 300};
MC_SECTION(fill_bytes) {
    unsigned b = 1 + e.choose(255), n = e.pick(counts); bool ok = b < 0x80; std::vector<std::string> w(n, std::string(1, (char)b)); bool t;
    MC_LOG(e, "%u times byte %02X", n, b); e.state(mc::Hash().u(b).u(n)); e.outcome(ok ? n : 1000); e.op("String(count, char)"); if (!n && !ok) return;
    t = throws([&] { String x(n, (char)b); same(e, x, w, "String(count, char)"); }); e.check(t == !ok, "fill", "String(%u, '\\x%02X') %s", n, b, t ? "threw" : "was accepted");
    if (ok) { String x(n, Char((char)b)); same(e, x, w, "String(count, Char)"); }
}
MC_SECTION(fill_patterns) {
    static const char* const p[] = {"a", "\x7F", "\xC3\xA9", "\xDF\xBF", "\xE4\xB8\x96", "\xF0\x9F\x99\x82", "\x80", "\xBF", "\xC3", "\xE4\xB8", "\xE4", "\xF0\x9F\x99", "\xF0", "\xFF", "\xC3" "a", "\xC3\xA9\xA9", "\xE9"};
    std::string c = e.pick(p); unsigned n = e.pick(counts); bool ok = ref::one_char(c); std::vector<std::string> base = {"q", "\xC3\xA9"}, m = base; Buf b(c); bool t;
    MC_LOG(e, "%u times %s", n, mc::quote(c).c_str()); e.state(mc::Hash().s(c).u(n)); e.outcome(ok ? n : 1000); if (!n && !ok) return; if (ok) m.insert(m.end(), n, c);
    e.op("Append(count, pattern)"); String x("q\xC3\xA9"); t = throws([&] { x.Append((SizeType)n, b.p); }); e.check(t == !ok, "append-fill", "Append(%u, %s) %s", n, mc::quote(c).c_str(), t ? "threw" : "was accepted"); same(e, x, m, "after Append(count, pattern)");
    if (!ok) return;
    String y("q\xC3\xA9"); y.Append((SizeType)n, Char(c)); same(e, y, m, "after Append(count, Char)"); String z((SizeType)n, Char(c)); same(e, z, std::vector<std::string>(n, c), "String(count, Char)");
    String v(std::vector<Char>(n, Char(c))); same(e, v, std::vector<std::string>(n, c), "String(std::vector<Char>)");
}
MC_SECTION(scale, true, false, 0, true, 60) {       // texts around every power of two at which a count could wrap
    static const char* const ch[] = {"a", "\xC3\xA9", "\xF0\x9F\x99\x82"}; static const char* const tail[] = {"", "\x80", "\xF0\x9F\x99"};
    unsigned n = e.pick(kScale), k = e.choose(4), t = e.choose(3), where = e.choose(2); if (n > 30000 && mc::tier(1, 0) && (k != 3 || (where && t))) return;
    std::string s; for (unsigned i = 0; i <= n; ++i) { if (i == (where ? n : n / 2)) s += tail[t]; if (i < n) s += k == 3 ? ch[i % 3] : ch[k]; }
    decode(e, s, t == 0 && where == 0);
}
} // namespace hx
