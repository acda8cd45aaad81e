#include "mc.hpp"
#include "utf8.hpp"
#include "unicode_table.inc"
#include <map>
#include "Caitlyn/__Core/Char.h"
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
namespace hx {

static std::vector<unsigned> gUp, gLo; static std::vector<unsigned char> gCat;
static void init() {
    if (!gUp.empty()) return;
    gUp.resize(0x110000); gLo.resize(0x110000); gCat.assign(0x110000, 0);
    for (unsigned i = 0; i < 0x110000; ++i) gUp[i] = gLo[i] = i;
    for (auto& p : kUpper) gUp[p[0]] = p[1];
    for (auto& p : kLower) gLo[p[0]] = p[1];
    for (auto& p : kCat) gCat[p[0]] = (unsigned char)p[1];
}
static struct Init { Init() { init(); } } gInit;
static bool in(unsigned c, unsigned a, unsigned b) { return c >= a && c <= b; }
// letters the library undertakes to map (ASCII, Latin Extended-A up to U+0177, basic Greek and Cyrillic, Greek Extended)
static bool must_upper(unsigned c) {
    return in(c, 'a', 'z') || in(c, 0x430, 0x44F) || (in(c, 0x3B1, 0x3C9) && c != 0x3C2) || c == 0x131 ||
           in(c, 0x100, 0x12F) || in(c, 0x132, 0x137) || in(c, 0x139, 0x148) || in(c, 0x14A, 0x177) ||
           in(c, 0x1F00, 0x1F07) || in(c, 0x1F10, 0x1F15) || in(c, 0x1F20, 0x1F27) || in(c, 0x1F30, 0x1F37) || in(c, 0x1F40, 0x1F45) || in(c, 0x1F60, 0x1F67) || in(c, 0x1F70, 0x1F7D);
}
static bool must_lower(unsigned c) {
    return in(c, 'A', 'Z') || in(c, 0x410, 0x42F) || (in(c, 0x391, 0x3A9) && c != 0x3A2) || c == 0x1E9E || c == 0x130 || c == 0x212A || c == 0x212B ||
           in(c, 0x100, 0x12F) || in(c, 0x132, 0x137) || in(c, 0x139, 0x148) || in(c, 0x14A, 0x177) ||
           in(c, 0x1F08, 0x1F0F) || in(c, 0x1F18, 0x1F1D) || in(c, 0x1F28, 0x1F2F) || in(c, 0x1F38, 0x1F3F) || in(c, 0x1F48, 0x1F4D) || in(c, 0x1F68, 0x1F6F) ||
           in(c, 0x1FB8, 0x1FBB) || in(c, 0x1FC8, 0x1FCB) || in(c, 0x1FD8, 0x1FDB) || in(c, 0x1FE8, 0x1FEC) || in(c, 0x1FF8, 0x1FFB);
}
static bool must_isupper(unsigned c) { return in(c, 'A', 'Z') || in(c, 0x410, 0x42F) || (in(c, 0x391, 0x3A9) && c != 0x3A2) || (must_lower(c) && in(c, 0x1F00, 0x1FEC)) || c == 0x1E9E || c == 0x130 || c == 0x212A || c == 0x212B; }
static bool must_islower(unsigned c) { return in(c, 'a', 'z') || in(c, 0x430, 0x44F) || (in(c, 0x3B1, 0x3C9) && c != 0x3C2) || (must_upper(c) && in(c, 0x1F00, 0x1FFF)) || c == 0xDF || c == 0x131 || c == 0x149; }
static bool white(unsigned c) { return in(c, 9, 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || in(c, 0x2000, 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000; }

static unsigned want_upper_ok(unsigned c, unsigned got) { return got == gUp[c] || (c == 0xDF && got == 0x1E9E) || (c == 0x149 && got == 0x2BC); }

static void one(mc::Exec& e, unsigned c) {
    if (in(c, 0xD800, 0xDFFF)) return;
    MC_LOG(e, "U+%04X", c);
    e.state(c + 1); e.transition(6);
    e.op("ToUppercase"); CodePoint u = ToUppercase(CodePoint(c));
    if (u != c && !want_upper_ok(c, u)) e.fail("upper-wrong", "upper case of U+%04X is U+%04X, Unicode says U+%04X", c, (unsigned)u, gUp[c]);
    if (must_upper(c) && u != gUp[c]) e.fail("upper-missing", "U+%04X is not mapped to upper case U+%04X", c, gUp[c]);
    e.op("ToLowercase"); CodePoint l = ToLowercase(CodePoint(c));
    if (l != c && l != gLo[c]) e.fail("lower-wrong", "lower case of U+%04X is U+%04X, Unicode says U+%04X", c, (unsigned)l, gLo[c]);
    if (must_lower(c) && l != gLo[c]) e.fail("lower-missing", "U+%04X is not mapped to lower case U+%04X", c, gLo[c]);
    if (c) {
        e.op("Char case"); Char ch{CodePoint(c)};
        if (ToUppercase(ch).GetCodePoint() != u || ToLowercase(ch).GetCodePoint() != l) e.fail("char-case", "Char and code point case mapping differ at U+%04X", c);
    }
    e.op("Is*");
    bool iu = IsUppercase(c), il = IsLowercase(c), lt = IsLetter(c), dg = IsDigit(c), sp = IsSpace(c);
    if (iu && gCat[c] != 1) e.fail("isupper", "U+%04X is reported as an upper-case letter", c);
    if (il && gCat[c] != 2) e.fail("islower", "U+%04X is reported as a lower-case letter", c);
    if (must_isupper(c) && !iu) e.fail("isupper-missing", "U+%04X is not reported as upper case", c);
    if (must_islower(c) && !il) e.fail("islower-missing", "U+%04X is not reported as lower case", c);
    if (lt != (iu || il)) e.fail("isletter", "IsLetter(U+%04X)=%d", c, lt);
    if (dg && gCat[c] != 3) e.fail("isdigit", "U+%04X is reported as a digit", c);
    if (!dg && gCat[c] == 3 && c < 0x10000 && !in(c, 0xDE6, 0xDEF)) e.fail("isdigit-missing", "U+%04X is not reported as a digit", c);
    if (sp != white(c)) e.fail("isspace", "IsSpace(U+%04X)=%d", c, sp);
    int td = ToDigit(c); if (td != (in(c, '0', '9') ? (int)c - '0' : -1)) e.fail("todigit", "ToDigit(U+%04X)=%d", c, td);
    e.outcome(mc::Hash().u(u - c).u(l - c).u(iu * 16 + il * 8 + dg * 4 + sp * 2));
}
MC_SECTION(all_code_points) {
    unsigned b = e.range(0x110000 / 64);
    for (unsigned i = 0; i < 64; ++i) one(e, b * 64 + i);
}
// whole-string conversion is the character-wise conversion
MC_SECTION(strings) {
    static const unsigned al[] = {'a', 'Z', '5', 0x3B1, 0x410, 0x101, 0x1F71, 0x4E2D, 0x1F600, 0x1FEC};
    unsigned n = e.choose(mc::tier(5u, 6u)); std::vector<unsigned> cs; std::string s, up, lo;
    for (unsigned i = 0; i < n; ++i) { unsigned c = e.pick(al); s += ref::enc(c); up += ref::enc(gUp[c]); lo += ref::enc(gLo[c]); }
    MC_LOG(e, "string %s", mc::quote(s).c_str());
    e.state(mc::Hash().s(s)); e.transition(2); e.op("String case");
    String x(s.c_str());
    String U = x.ToUppercase(), L = x.ToLowercase();
    if (U.str() != up) e.fail("string-upper", "%s upper-cased to %s", mc::quote(s).c_str(), mc::quote(U.str()).c_str());
    if (L.str() != lo) e.fail("string-lower", "%s lower-cased to %s", mc::quote(s).c_str(), mc::quote(L.str()).c_str());
    if (x.str() != s) e.fail("string-const", "case conversion changed the source");
}
} // namespace hx
