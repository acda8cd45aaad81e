#include "mc.hpp"
#include "utf8.hpp"
#include <sstream>
#include "Caitlyn/__Core/Char.h"
using Caitlyn::Char; using Caitlyn::CodePoint;

static void observe(mc::Exec& e, const Char& c, const std::string& want, const char* how) {
    e.transition();
    if (c.size() != want.size() || c.Length() != want.size()) e.fail("size", "%s: size %zu, length %zu instead of %zu", how, (size_t)c.size(), (size_t)c.Length(), want.size());
    if (c.str() != want || std::string(c.data(), c.size()) != want || std::string(c.c_str()) != std::string(want.c_str())) e.fail("bytes", "%s: holds %s instead of %s", how, mc::quote(c.str()).c_str(), mc::quote(want).c_str());
    if (c.IsEmpty() != want.empty() || c.NotEmpty() == want.empty()) e.fail("empty", "%s: emptiness wrong", how);
    CodePoint cp = c.GetCodePoint(), w = want.empty() ? 0 : ref::dec1(want);
    if (cp != w) e.fail("codepoint", "%s: code point %x instead of %x", how, (unsigned)cp, w);
}

MC_SECTION(code_points) {
    unsigned blk = e.range(0x110000 / 64);
    for (unsigned i = 0; i < 64; ++i) {
        CodePoint cp = blk * 64 + i; e.op("Char(CodePoint)");
        MC_LOG(e, "Char(U+%04X)", (unsigned)cp);
        std::string want = cp ? ref::enc(cp) : std::string();
        e.state(mc::Hash().s(want));
        Char c(cp); observe(e, c, want, "Char(code point)");
        if (c.GetCodePoint() != cp) e.fail("roundtrip", "U+%X reports U+%X", (unsigned)cp, (unsigned)c.GetCodePoint());
        Char d; d = cp; observe(e, d, want, "= code point");
        e.op("stream"); std::ostringstream os; os << c; e.check(os.str() == want, "stream", "U+%X printed as %s", (unsigned)cp, mc::quote(os.str()).c_str());
        if (cp) {
            Char f(want); observe(e, f, want, "Char(std::string)");
            Char g(want.c_str()); observe(e, g, want, "Char(const char*)");
            Char h; h = want; observe(e, h, want, "= std::string"); h = want.c_str(); observe(e, h, want, "= const char*");
            Char l = operator""_char(want.c_str(), want.size()); observe(e, l, want, "_char literal");
        }
        if (cp < 128 && cp) { Char b((char)cp); observe(e, b, want, "Char(char)"); Char b2; b2 = (char)cp; observe(e, b2, want, "= char"); }
        Char k(c); observe(e, k, want, "copy"); Char m(std::move(k)); observe(e, m, want, "move"); k = m; observe(e, k, want, "copy-assign");
    }
}

static void bytes(mc::Exec& e, const std::string& s) {
    bool ok = ref::one_char(s); e.state(mc::Hash().s(s)); e.outcome(ok ? 1 + s.size() : 100 + s.size());
    MC_LOG(e, "bytes %s (%s)", mc::quote(s).c_str(), ok ? "valid" : "invalid");
    e.op("Char(std::string)");
    bool threw = false; try { Char c(s); if (ok) observe(e, c, s, "Char(bytes)"); } catch (const std::exception&) { threw = true; }
    e.check(threw == !ok, threw ? "rejects-valid" : "accepts-invalid", "Char(std::string %s) %s", mc::quote(s).c_str(), threw ? "threw on a well-formed character" : "accepted a malformed character");
    e.op("= std::string"); threw = false; Char d("z"); try { d = s; } catch (const std::exception&) { threw = true; }
    e.check(threw == !ok, "assign", "assigning %s %s", mc::quote(s).c_str(), threw ? "threw" : "was accepted");
    observe(e, d, ok ? s : "z", "after assignment");
    if (s.find('\0') == std::string::npos) {
        e.op("Char(const char*)"); threw = false; try { Char c(s.c_str()); if (ok) observe(e, c, s, "Char(cstr)"); } catch (const std::exception&) { threw = true; }
        e.check(threw == !ok, "cstr", "Char(const char* %s) %s", mc::quote(s).c_str(), threw ? "threw" : "was accepted");
        threw = false; Char f("y"); try { f = s.c_str(); } catch (const std::exception&) { threw = true; }
        e.check(threw == !ok, "cstr-assign", "assigning C string %s %s", mc::quote(s).c_str(), threw ? "threw" : "was accepted");
        observe(e, f, ok ? s : "y", "after C string assignment");
    }
}
static const unsigned char cls[] = {0x00, 0x01, 0x41, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x8F, 0x90, 0xA0};
MC_SECTION(byte_strings_all) {          // every byte string of length 0..2 (quick) or 0..3 (thorough)
    unsigned n = e.choose(mc::tier(3u, 4u)); std::string s;
    if (n == 0) { bytes(e, s); return; }
    if (n >= 2) s += (char)e.choose(256);
    if (n >= 3) s += (char)e.choose(256);
    for (unsigned b = 0; b < 256; ++b) bytes(e, s + (char)b);
}
MC_SECTION(byte_strings_classes) {      // length 3..5 over every byte class
    unsigned n = 3 + e.choose(3); std::string s; const unsigned k = sizeof cls;
    for (unsigned i = 0; i + 1 < n; ++i) { if (i == 3) s += (char)cls[1 + e.choose(4)]; else s += (char)cls[e.choose(k)]; }
    for (unsigned b = 0; b < k; ++b) bytes(e, s + (char)cls[b]);
}
static const struct { const char* v; unsigned cp; const char* n; } kDefs[] = {
#include "defs_table.inc"
};
MC_SECTION(named_constants) {           // each named character constant is the character of that name
    auto& d = kDefs[e.choose(sizeof kDefs / sizeof *kDefs)]; e.op(d.n); e.state(d.cp + 1); e.transition();
    std::string want = d.cp ? ref::enc(d.cp) : std::string();
    MC_LOG(e, "Def::%s", d.n);
    e.check(std::string(d.v) == want, "constant", "Def::%s is %s instead of %s", d.n, mc::quote(d.v).c_str(), mc::quote(want).c_str());
    if (d.cp) observe(e, Char(d.v), want, "Char(constant)");
}
