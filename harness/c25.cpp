#include "mc.hpp"
#include "sizes.hpp"
#include "Caitlyn/__Core/IO.h"
#include "Caitlyn/__Numeric/Types/BigInteger.h"
using namespace Caitlyn;
namespace hx {
// what is written becomes visible only when the stream is flushed
struct Sink : std::streambuf { std::string pending, seen; int_type overflow(int_type c) override { if (c != EOF) pending += (char)c; return 0; } std::streamsize xsputn(const char* s, std::streamsize n) override { pending.append(s, (size_t)n); return n; } int sync() override { seen += pending; pending.clear(); return 0; } };
struct Redirect {
    Sink s[3]; std::streambuf* old[3]; std::stringbuf in; std::streambuf* oldin;
    explicit Redirect(const std::string& input = "") : in(input) { std::ostream* o[3] = {&std::cout, &std::cerr, &std::clog}; for (int i = 0; i < 3; ++i) { o[i]->clear(); old[i] = o[i]->rdbuf(&s[i]); } std::cin.clear(); oldin = std::cin.rdbuf(&in); }
    ~Redirect() { std::ostream* o[3] = {&std::cout, &std::cerr, &std::clog}; for (int i = 0; i < 3; ++i) { o[i]->rdbuf(old[i]); o[i]->clear(); } std::cin.rdbuf(oldin); std::cin.clear(); }
};
struct Ts { std::string to_string() const { return "to_string"; } }; struct St { std::string str() const { return "str"; } }; struct TS { String ToString() const { return "ToString"; } };
static const char* N[] = {"Write(text)", "Write(String)", "Write(empty)", "Write(to_string type)", "Write(str type)", "Write(ToString type)", "Write({}.{}, 1, b)", "Write(BigInteger)", "Write({{}})",
    "WriteLine()", "WriteLine(text)", "WriteLine(String)", "WriteLine(to_string type)", "WriteLine(str type)", "WriteLine(ToString type)", "WriteLine({1}{0}, x, 2)", "WriteLine(LF in text)", "WriteLine(long)"};
static const unsigned NO = 18;
template <class S> static std::string put(unsigned op) {
    switch (op) {
    case 0: S::Write("text"); return "text"; case 1: S::Write(String("\xC3\xA9\xF0\x9F\x98\x80")); return "\xC3\xA9\xF0\x9F\x98\x80"; case 2: S::Write(""); return ""; case 3: S::Write(Ts()); return "to_string"; case 4: S::Write(St()); return "str"; case 5: S::Write(TS()); return "ToString";
    case 6: S::Write("{}.{}", 1, "b"); return "1.b"; case 7: S::Write(BigInteger("-123")); return "-123"; case 8: S::Write("{{}}", 1); return "{}";
    case 9: S::WriteLine(); return "\n"; case 10: S::WriteLine("line"); return "line\n"; case 11: S::WriteLine(String("\xE2\x82\xAC")); return "\xE2\x82\xAC\n"; case 12: S::WriteLine(Ts()); return "to_string\n"; case 13: S::WriteLine(St()); return "str\n"; case 14: S::WriteLine(TS()); return "ToString\n";
    case 15: S::WriteLine("{1}{0}", "x", 2); return "2x\n"; case 16: S::WriteLine("a\nb"); return "a\nb\n"; case 17: { std::string l(5000, 'q'); S::WriteLine(String(l.c_str())); return l + "\n"; }
    }
    return "";
}
static void compare(mc::Exec& e, Redirect& r, const std::string* m, const char* op) {
    static const char* who[] = {"cout", "cerr", "clog"};
    for (int i = 0; i < 3; ++i) { if (r.s[i].seen != m[i]) e.fail("output", "after %s %s shows %s instead of %s (%zu bytes unflushed)", op, who[i], mc::quote(r.s[i].seen.substr(0, 200)).c_str(), mc::quote(m[i].substr(0, 200)).c_str(), r.s[i].pending.size()); if (!r.s[i].pending.empty()) e.fail("flush", "after %s %s keeps text unflushed", op, who[i]); }
}
MC_SECTION(output, true) {
    Redirect r; std::string m[3]; unsigned n = mc::tier(3u, 4u);
    for (unsigned i = 0; i < n; ++i) {
        unsigned s = e.choose(3), op = e.choose(NO); static const char* who[] = {"OutputStream", "ErrorStream", "LogStream"}; e.op(N[op]); MC_LOG(e, "%s::%s", who[s], N[op]);
        m[s] += s == 0 ? put<OutputStream>(op) : s == 1 ? put<ErrorStream>(op) : put<LogStream>(op); e.transition(); compare(e, r, m, N[op]);
    }
    e.state(mc::Hash().s(m[0]).s(m[1]).s(m[2]));
}
// what a stream that cannot write does is left open; the others go on
static void input(mc::Exec& e, const std::string& text, unsigned depth) {
    Redirect r(text); std::string m[3]; size_t pos = 0; MC_LOG(e, "input %s", mc::quote(text).c_str());
    for (unsigned i = 0; i < depth; ++i) {
        unsigned op = e.choose(7); static const char* nm[] = {"ReadLine()", "ReadLine(prompt)", "ReadLine({}?, 1)", "ReadChar()", "ReadChar(prompt)", "ReadChar({}?, 1)", "Write between reads"}; e.op(nm[op]); MC_LOG(e, "%s", nm[op]);
        if (op == 6) { OutputStream::Write("w"); m[0] += "w"; compare(e, r, m, nm[op]); e.transition(); continue; }
        std::string want; if (pos < text.size()) { size_t q = text.find('\n', pos); want = text.substr(pos, q == std::string::npos ? q : q - pos); pos = q == std::string::npos ? text.size() : q + 1; }
        std::string got;
        switch (op) { case 0: got = InputStream::ReadLine().str(); break; case 1: got = InputStream::ReadLine("prompt> ").str(); m[0] += "prompt> "; break; case 2: got = InputStream::ReadLine("{}?", 1).str(); m[0] += "1?"; break;
            default: { Char c = op == 3 ? InputStream::ReadChar() : op == 4 ? InputStream::ReadChar("prompt> ") : InputStream::ReadChar("{}?", 1); if (op == 4) m[0] += "prompt> "; if (op == 5) m[0] += "1?";
                String w(want.c_str()); if (w.IsEmpty()) { if (c != Char()) e.fail("char", "ReadChar on an empty line gives %s", mc::quote(c.str()).c_str()); } else if (c != w[0]) e.fail("char", "ReadChar gives %s from line %s", mc::quote(c.str()).c_str(), mc::quote(want).c_str());
                e.transition(); compare(e, r, m, nm[op]); e.state(mc::Hash().s(text).u(pos)); continue; } }
        e.transition(); if (got != want) e.fail("line", "%s gives %s instead of %s", nm[op], mc::quote(got).c_str(), mc::quote(want).c_str()); compare(e, r, m, nm[op]); e.state(mc::Hash().s(text).u(pos));
    }
}
MC_SECTION(input_small, true) { static const char* L[] = {"a", "\n", "\xC3\xA9", " "}; unsigned n = e.choose(mc::tier(6u, 7u)); std::string t; for (unsigned i = 0; i < n; ++i) t += L[e.choose(4)]; input(e, t, 3); }
MC_SECTION(input_histories, true) { static const char* L[] = {"", "\n", "first\nsecond\n", "x", "\n\nz\n\n", "\xF0\x9F\x98\x80tail\nlast"}; std::string t = L[e.choose(6)]; input(e, t, mc::tier(4u, 6u)); }
MC_SECTION(input_long, true) { unsigned z = e.choose(40) * 257; std::string t(z, 'k'); t += "\n" + std::string(z, 'm'); input(e, t, 2); }
MC_SECTION(scale, true, false, 0, true, 60) {
    unsigned n = e.pick(kScale), k = e.choose(4); e.op("long lines"); MC_LOG(e, "%u characters, kind %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(3); std::string t; for (unsigned i = 0; i < n; ++i) t += k & 1 && i % 2 ? "\xC3\xA9" : "w";
    if (k < 2) { Redirect r; String s(t.c_str()); OutputStream::Write(s); OutputStream::WriteLine(s); ErrorStream::WriteLine("<{}>", s); LogStream::Write(s); std::string m[3] = {t + t + "\n", "<" + t + ">\n", t}; compare(e, r, m, "long output"); }
    else { Redirect r(t + "\n\n" + t + "z\nlast"); std::string a = InputStream::ReadLine().str(), b = InputStream::ReadLine().str(); Char c = InputStream::ReadChar(); std::string d = InputStream::ReadLine().str(); e.check(a == t && b.empty() && c == Char("w") && d == "last", "line", "lines around one of %u characters are read as %zu, %zu and %zu bytes", n, a.size(), b.size(), d.size()); std::string m[3]; compare(e, r, m, "long input"); }
}
MC_SECTION(many_lines, true, false, 0, true, 60) { unsigned n = e.pick(kScale); if (n > mc::tier(5000u, 70000u)) return; std::string t, m[3]; for (unsigned i = 0; i < n; ++i) t += std::to_string(i) + "\n"; Redirect r(t); e.op("many lines"); MC_LOG(e, "%u lines", n); e.state(n); e.transition(2 * n);
    for (unsigned i = 0; i < n; ++i) { std::string g = InputStream::ReadLine().str(); if (g != std::to_string(i)) e.fail("line", "line %u is read as %s", i, mc::quote(g).c_str()); OutputStream::WriteLine("{}", i); m[0] += g + "\n"; } compare(e, r, m, "many lines"); }
}
