#include "mc.hpp"
#include "sizes.hpp"
#include <memory>
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
namespace hx {
typedef std::unique_ptr<StringBuilder> P;
static const char* T[] = {"", "x", "\xC3\xA9w", "a longer piece of text that does not fit small buffers {}"};
static void look(mc::Exec& e, const P& p, const std::string& m, const char* who) {
    e.transition(); std::string a = p->str().str(), b = p->str().str();
    if (a != m) e.fail("text", "%s holds %s instead of %s", who, mc::quote(a).c_str(), mc::quote(m).c_str());
    if (a != b) e.fail("str-pure", "reading %s twice gives different texts", who);
}
static void ops(mc::Exec& e, unsigned depth, unsigned big, bool all_arguments) {
    P s[2]; std::string m[2]; s[0].reset(new StringBuilder()); s[1].reset(new StringBuilder(MakeText("seed"))); m[1] = "seed";
    if (big) { std::string x(big, 'q'); s[0]->Append(String(x.c_str())); m[0] = x; }
    for (unsigned k = 0; k < depth; ++k) {
        unsigned op = e.choose(18); std::string l;
#define OP(...) do { l = mc::strf(__VA_ARGS__); e.op(l.c_str()); MC_LOG(e, "%s", l.c_str()); } while (0)
        StringBuilder& a = *s[0];
        switch (op) {
        case 0: OP("a.Append(x)"); a.Append("x"); m[0] += "x"; break;
        case 1: OP("a.Append(two-byte text)"); a.Append(T[2]); m[0] += T[2]; break;
        case 2: OP("a.Append(long text)"); a.Append(T[3]); m[0] += T[3]; break;
        case 3: OP("a.Append({}-{}, 1, s)"); a.Append("{}-{}", 1, "s"); m[0] += "1-s"; break;
        case 4: OP("a.AppendLine(x)"); a.AppendLine("x"); m[0] += "x\n"; break;
        case 5: OP("a.AppendLine({0}{0}, 7)"); a.AppendLine("{0}{0}", 7); m[0] += "77\n"; break;
        case 6: OP("a.Append(empty)"); a.Append(""); break;
        case 7: OP("a = copy of b"); s[0].reset(new StringBuilder(static_cast<const StringBuilder&>(*s[1]))); m[0] = m[1]; break;
        case 8: OP("b = copy of a"); s[1].reset(new StringBuilder(static_cast<const StringBuilder&>(*s[0]))); m[1] = m[0]; break;
        case 9: { OP("b = move of a; a fresh"); s[1].reset(new StringBuilder(std::move(*s[0]))); m[1] = m[0]; s[0].reset(new StringBuilder()); m[0].clear(); break; }
        case 10: OP("swap"); std::swap(s[0], s[1]); std::swap(m[0], m[1]); break;
        case 11: { OP("a.Append(a.str())"); a.Append(a.str()); m[0] += m[0]; break; }
        case 12: { unsigned c = e.choose(4); OP("a constructed, kind %u", c); s[0].reset(c == 0 ? new StringBuilder('c') : c == 1 ? new StringBuilder("cstr") : c == 2 ? new StringBuilder(String("S\xC3\xA9")) : new StringBuilder(String("<{}>"), 5)); m[0] = c == 0 ? "c" : c == 1 ? "cstr" : c == 2 ? "S\xC3\xA9" : "<5>"; break; }
        case 13: { unsigned c = e.choose(4); OP("a = MakeText, kind %u", c); s[0].reset(new StringBuilder(c == 0 ? MakeText() : c == 1 ? MakeText('c') : c == 2 ? MakeText(String("S")) : MakeText(String("<{}{}>"), 5, "k"))); m[0] = c == 0 ? "" : c == 1 ? "c" : c == 2 ? "S" : "<5k>"; break; }
        case 14: OP("a.Append(b.str())"); a.Append(s[1]->str()); m[0] += m[1]; break;
        case 16: { static const char* A[] = {"{}", "{{", "}", "{0:>9}", "{1}"}; unsigned v = all_arguments ? e.choose(5) : k % 5, c = all_arguments ? e.choose(4) : k & 1; OP("a, kind %u, argument %s", c, A[v]); /* arguments are values: their braces are not interpreted */
            if (c == 0) { a.Append("[{}]", A[v]); m[0] += std::string("[") + A[v] + "]"; }
            else if (c == 1) { a.AppendLine("{}{}", String(A[v]), 3); m[0] += std::string(A[v]) + "3\n"; }
            else if (c == 2) { s[0].reset(new StringBuilder(String("{}"), A[v])); m[0] = A[v]; }
            else { s[0].reset(new StringBuilder(MakeText(String("{}"), String(A[v])))); m[0] = A[v]; }
            break; }
        case 17: OP("a.AppendLine({{}}-{}, é)"); a.AppendLine("{{}}-{}", "\xC3\xA9"); m[0] += "{}-\xC3\xA9\n"; break;
        case 15: { OP("a.Append(bad template) throws"); bool t = false; try { a.Append("{} {", 1); } catch (const std::exception&) { t = true; } if (!t) e.fail("throw", "malformed template accepted"); break; }
        }
        look(e, s[0], m[0], "a"); look(e, s[1], m[1], "b"); e.state(mc::Hash().s(m[0]).s(m[1]));
    }
}
MC_SECTION(histories) { ops(e, mc::tier(4u, 5u), 0, false); }
MC_SECTION(brace_arguments) { ops(e, mc::tier(2u, 3u), 0, true); }
MC_SECTION(large_builders) { static const unsigned n[] = {15, 16, 511, 512, 513, 4096}; unsigned b = e.pick(n); ops(e, mc::tier(2u, 3u), b, false); }
MC_SECTION(scale, true, false, 0, true, 60) { unsigned b = e.pick(kScale); ops(e, 1, b, false); }
MC_SECTION(many_appends, true, false, 0, true, 60) {     // as many appends as fit each size, read at the end
    unsigned n = e.pick(kScale), k = e.choose(4); if (n > mc::tier(5000u, 200000u)) return; P p[1]; p[0].reset(new StringBuilder()); std::string m; e.op("append again and again"); MC_LOG(e, "%u appends of kind %u", n, k);
    for (unsigned i = 0; i < n; ++i) switch (k) { case 0: p[0]->Append("x"); m += "x"; break; case 1: p[0]->Append("{}", i); m += std::to_string(i); break; case 2: p[0]->AppendLine("\xC3\xA9"); m += "\xC3\xA9\n"; break; case 3: p[0]->AppendLine("{}-{}", i, "q"); m += std::to_string(i) + "-q\n"; break; }
    e.state(mc::Hash().u(n).u(k)); e.check(p[0]->str().str() == m, "text", "after %u appends the builder holds %zu bytes instead of %zu", n, p[0]->str().str().size(), m.size()); e.transition(n);
}
} // namespace hx
