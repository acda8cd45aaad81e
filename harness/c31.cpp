#include "mc.hpp"
#include "sched.hpp"
#include "Caitlyn/__Core/Char.h"
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/Memory.h"
#include "Caitlyn/__Core/Error.h"
#include "Caitlyn/__Core/Collections.h"
#include "Caitlyn/__Core/Utility.h"
#include "Caitlyn/__Numeric/Types/BigInteger.h"
#include "Caitlyn/__Numeric/Types/BigFloat.h"
#include "Caitlyn/__Serializing/Json.h"
using namespace Caitlyn;
namespace hx {
struct Shared {
    String s, p, up, esc, f; Char c, d; BigInteger x, y, z; BigFloat g, h; JsonDocument j; Expected<int, String> ok, bad; Expected<String, String> text; SharedPtr<int> sp; UniquePtr<int> u; Ptr<int> raw; WeakPtr<int> w; std::map<int, String> m; StringBuilder sb; std::string plain;
    Shared() : s("H\xC3\xA9llo, W\xC3\xB6rld 123 \xF0\x9F\x99\x82"), p("W\xC3\xB6r"), up("\xC3\x9F\xD0\x96\xCE\xA9q"), esc("a\\n\\u00e9\\x"), f("{1:>6}|{0}|{{}}"), c("\xC3\xA9"), d("Q"), x(String("123456789012345678901234567890")), y(String("-98765432109")), z(String("1000000")), g(String("12.125")), h(String("-0.5")),
        j(String("{\"a\":[1,2.5,\"x\\ny\"],\"b\":{\"c\":null,\"d\":true},\"e\":-7}")), ok(5), bad(Unexpected<String>(String("broken"))), text(String("txt")), sp(new int(41)), u(new int(42)), raw(u.Get()), w(sp), plain("a,b,,c") { m[2] = String("two"); m[1] = String("one"); sb.Append("built"); }
   
};
typedef const Shared& A; typedef std::string& O;
static void put(O o, const String& v) { o += v.str(); o += '/'; }
static void put(O o, const char* v) { o += v; o += '/'; }
static void put(O o, const std::string& v) { o += v; o += '/'; }
static void num(O o, long long v) { char b[32]; snprintf(b, sizeof b, "%lld/", v); o += b; }
struct Op { const char* name; void (*fn)(A, O); };
static const Op kOps[] = {
    {"String iterate", [](A a, O o) { for (auto& c : a.s) o += c.str(); for (auto i = a.s.rbegin(); i != a.s.rend(); ++i) o += i->str(); num(o, a.s.size()); num(o, a.s.ByteCount()); num(o, a.s.IsEmpty()); }},
    {"String index", [](A a, O o) { for (size_t i = 0; i < a.s.size(); ++i) { o += a.s[i].str(); o += a.s.At(i).str(); } try { a.s.At(99); } catch (const std::out_of_range&) { put(o, "oor"); } }},
    {"String copy and change", [](A a, O o) { String t(a.s); t += a.p; t.PushBack(a.c); t[0] = a.d; t.Insert(2, a.up); put(o, t); String v; v = a.s; v.Append("x"); put(o, v); v.Clear(); num(o, v.size()); }},
    {"String str/data", [](A a, O o) { put(o, a.s.str()); num(o, a.s.data().size()); }},
    {"String Find", [](A a, O o) { num(o, a.s.Find(a.p)); num(o, a.s.ReverseFind(a.p)); num(o, a.s.Contains(a.p)); num(o, a.s.StartsWith(a.p)); num(o, a.s.EndsWith(a.p)); }},
    {"String Substring", [](A a, O o) { put(o, a.s.Substring(3, 4)); put(o, a.s.Substring(1)); }},
    {"String compare", [](A a, O o) { num(o, a.s < a.p); num(o, a.s == a.p); num(o, a.s >= a.s); num(o, a.s == "x"); num(o, a.s > "A"); }},
    {"String concatenate", [](A a, O o) { put(o, a.s + a.p); put(o, a.p + a.s); }},
    {"String ToUppercase", [](A a, O o) { put(o, a.s.ToUppercase()); put(o, a.up.ToUppercase()); }},
    {"String ToLowercase", [](A a, O o) { put(o, a.s.ToLowercase()); put(o, a.up.ToLowercase()); }},
    {"String Format", [](A a, O o) { put(o, String::Format(a.f, a.s, 12)); put(o, String::Format(a.f, a.p, a.c)); }},
    {"String Format numbers", [](A a, O o) { put(o, String::Format(a.f, 1.5, -7)); put(o, String::Format("{} {}", true, 'c')); }},
    {"String ValueOf", [](A a, O o) { put(o, String::ValueOf(true)); put(o, String::ValueOf(nullptr)); }},
    {"String Empty", [](A, O o) { num(o, String::Empty().size()); }},
    {"String stream", [](A a, O o) { std::ostringstream s; s << a.s << a.c; put(o, s.str()); std::istringstream i("word next"); String t; i >> t; put(o, t); }},
    {"String decode", [](A a, O o) { String t(a.plain.c_str()); put(o, t); String u(u8"\u4e16\u754c"); num(o, u.size()); try { String b("\xC3"); put(o, b); } catch (const std::exception&) { put(o, "bad"); } }},
    {"String FindIf", [](A a, O o) { num(o, a.s.FindIf([](const Char& c) { return IsDigit(c.GetCodePoint()); })); num(o, a.s.FindIfNot([](const Char& c) { return c.Length() == 1; })); }},
    {"Char read", [](A a, O o) { o += a.c.str(); num(o, a.c.Length()); num(o, a.c.GetCodePoint()); num(o, a.c < a.d); num(o, a.c == a.d); num(o, a.c.IsEmpty()); o += a.c.c_str(); }},
    {"Char copy", [](A a, O o) { Char t(a.c); t = a.d; o += t.str(); Char u(0x1F642u); o += u.str(); }},
    {"Char case", [](A a, O o) { o += ToUppercase(a.c).str(); o += ToLowercase(a.d).str(); o += '/'; }},
    {"ToUppercase", [](A, O o) { for (CodePoint c : {0x61u, 0xDFu, 0x149u, 0xE9u, 0x436u, 0x3C9u, 0xFFu}) num(o, ToUppercase(c)); }},
    {"ToLowercase", [](A, O o) { for (CodePoint c : {0x41u, 0x1E9Eu, 0x178u, 0xC9u, 0x416u, 0x3A9u}) num(o, ToLowercase(c)); }},
    {"IsSpace", [](A, O o) { for (CodePoint c : {0x20u, 0x3000u, 0x41u, 0xA0u, 0x2003u}) num(o, IsSpace(c)); }},
    {"IsDigit", [](A, O o) { for (CodePoint c : {0x30u, 0x663u, 0xFF11u, 0x41u}) { num(o, IsDigit(c)); num(o, IsDigit(c) ? ToDigit(c) : -1); } }},
    {"IsUppercase", [](A, O o) { for (CodePoint c : {0x41u, 0x61u, 0x178u, 0xC9u}) num(o, IsUppercase(c)); }},
    {"IsLowercase", [](A, O o) { for (CodePoint c : {0x41u, 0x61u, 0xFFu, 0xE9u, 0xDFu}) num(o, IsLowercase(c)); }},
    {"IsLetter", [](A, O o) { for (CodePoint c : {0x41u, 0x61u, 0xFFu, 0x31u}) num(o, IsLetter(c)); }},
    {"text utilities", [](A a, O o) { for (auto& t : Split(a.plain, ',')) put(o, t); put(o, Repeat(a.plain, 3)); num(o, IsNumber(a.s)); num(o, FindFirstNonSpace(a.s)); num(o, FindLastNonSpace(a.s)); }},
    {"EscapeString", [](A a, O o) { put(o, EscapeString(a.esc)); }},
    {"kmp", [](A a, O o) { num(o, kmp("b,,", a.plain)); num(o, kmp("abab", a.plain)); }},
    {"StringBuilder read", [](A a, O o) { put(o, a.sb.str()); }},
    {"StringBuilder own", [](A a, O o) { StringBuilder b; b.Append(a.s); b.Append("{}-{}", 12, a.c); b.AppendLine(a.p); put(o, b.str()); }},
    {"BigInteger read", [](A a, O o) { put(o, a.x.ToString()); put(o, a.y.ToString()); num(o, a.x.Size()); num(o, a.x < a.y); num(o, a.x == a.x); num(o, a.x > a.y); }},
    {"BigInteger add", [](A a, O o) { put(o, (a.x + a.y).ToString()); put(o, (a.y - a.x).ToString()); put(o, a.y.Abs().ToString()); }},
    {"BigInteger multiply", [](A a, O o) { put(o, (a.x * a.y).ToString()); put(o, a.z.Sqr().ToString()); }},
    {"BigInteger divide", [](A a, O o) { put(o, (a.x / a.z).ToString()); put(o, (a.x % a.z).ToString()); }},
    {"BigInteger power and root", [](A a, O o) { put(o, a.z.Pow(2).ToString()); put(o, BigInteger(String("144")).Sqrt().ToString()); }},
    {"BigInteger own", [](A a, O o) { BigInteger t(a.x); t = t + BigInteger(String("1")); put(o, t.ToString()); BigInteger u; u = a.y; u = BigInteger(String("0")) - u; put(o, u.ToString()); try { BigInteger b(String("12x")); } catch (const std::exception&) { put(o, "bad"); } }},
    {"BigFloat read", [](A a, O o) { put(o, a.g.ToString()); num(o, a.g < a.h); num(o, a.g == a.g); num(o, a.g.Size()); }},
    {"BigFloat arithmetic", [](A a, O o) { put(o, (a.g + a.h).ToString()); put(o, (a.g - a.h).ToString()); put(o, (a.g * a.h).ToString()); put(o, a.h.Abs().ToString()); put(o, a.h.Pow(2).ToString()); }},
    {"Json read", [](A a, O o) { const JsonDocument& j = a.j; num(o, j.Size()); num(o, j.HasMember("a")); num(o, j["a"].At(0).GetIntegral()); put(o, j["a"].At(2).GetString()); num(o, j["b"].At(std::string("c")).IsNull()); num(o, j["e"].GetIntegral()); num(o, (int)j["e"].GetType()); }},
    {"Json ToString", [](A a, O o) { put(o, a.j.ToString()); }},
    {"Json ToString indented", [](A a, O o) { put(o, a.j.ToString(true, 3)); }},
    {"Json state", [](A a, O o) { num(o, a.j.HasError()); num(o, (int)a.j.GetError()); put(o, a.j.GetErrorString()); num(o, (int)a.j.GetType()); }},
    {"Json copy and change", [](A a, O o) { JsonDocument d(a.j); d["a"][0] = 9; d["z"] = "new"; d.RemoveMember("b"); put(o, d.ToString()); JsonDocument e; e = a.j; e["e"] = true; put(o, e.ToString()); }},
    {"Json missing member", [](A a, O o) { try { a.j["none"]; put(o, "?"); } catch (const std::exception& x) { put(o, "throws"); } try { a.j["a"].At(7); put(o, "?"); } catch (const std::exception& x) { put(o, "throws"); } }},
    {"Json parse", [](A, O o) { JsonDocument d(String("{\"k\":[1e2,\"\\u00e9\"]}")); put(o, d.ToString()); JsonDocument b(String("{\"k\":}")); num(o, b.HasError()); put(o, b.GetErrorString()); }},
    {"Json build", [](A, O o) { JsonDocument d; d["n"] = nullptr; d["l"][1] = 2.5; d["l"].Append("q"); put(o, d.ToString()); std::ostringstream s; s << d; put(o, s.str()); }},
    {"Expected read", [](A a, O o) { num(o, a.ok.HasValue()); num(o, a.ok.Get()); put(o, a.bad.GetError()); num(o, a.bad.HasError()); num(o, a.ok.UnwrapOr(3)); num(o, a.bad.UnwrapOr(3)); num(o, a.ok.Expect("m")); }},
    {"Expected default", [](A a, O o) { num(o, a.bad.UnwrapOrDefault()); num(o, a.ok.UnwrapOrDefault()); put(o, a.text.UnwrapOrDefault()); Expected<String, String> e(Unexpected<String>(String("x"))); put(o, e.UnwrapOrDefault()); }},
    {"Expected default of String", [](A, O o) { Expected<String, String> e(Unexpected<String>(String("x"))); put(o, e.UnwrapOrDefault()); }},
    {"Expected combine", [](A a, O o) { num(o, a.ok.Map([](int v) { return v * 2; }).Get()); put(o, a.bad.MapError([](const String& m) { return m + String("!"); }).GetError()); num(o, a.ok.AndThen([](int v) { return Expected<int, String>(v + 1); }).Get()); num(o, a.ok.Filter([](int v) { return v > 2; }).HasValue()); num(o, a.bad.OrElse([](const String&) { return Expected<int, String>(9); }).Get()); }},
    {"Expected throws", [](A a, O o) { try { a.bad.Get(); } catch (const std::exception&) { put(o, "no value"); } try { a.ok.GetError(); } catch (const std::exception&) { put(o, "no error"); } try { a.bad.Expect("message"); } catch (const std::exception&) { put(o, "expect"); } }},
    {"Expected own", [](A a, O o) { Expected<int, String> t(a.ok); t = a.bad; put(o, t.GetError()); t = a.ok; num(o, t.Get()); Expected<String, String> v(a.text); v = Expected<String, String>(String("n")); put(o, v.Get()); }},
    {"SharedPtr read and copy", [](A a, O o) { num(o, *a.sp); SharedPtr<int> t(a.sp); num(o, *t); SharedPtr<int> v; v = a.sp; num(o, v == a.sp); }},
    {"WeakPtr lock", [](A a, O o) { num(o, *a.w.lock()); num(o, a.w.expired()); WeakPtr<int> t(a.w); num(o, *t.lock()); num(o, *a.w); }},
    {"UniquePtr read", [](A a, O o) { num(o, *a.u); num(o, a.u.Get() != nullptr); UniquePtr<int> t(new int(3)); num(o, *t); }},
    {"Ptr read", [](A a, O o) { num(o, *a.raw); }},
    {"map extraction", [](A a, O o) { for (int k : GetMapKeys(a.m)) num(o, k); for (auto& v : GetMapValues(a.m)) put(o, v); }},
    {"comparators", [](A, O o) { num(o, cmp_less(-1, 1u)); num(o, cmp_eq(-1, 1u)); }},
};
enum { kN = sizeof kOps / sizeof *kOps, kCap = 1000 };
struct Table { unsigned len[kN]; char text[kN][kCap]; };
static Table* expected;
// results of each operation run alone, each in a fresh process
static void alone(mc::Exec&, void* p) { int i = (int)(long)p; Shared s; std::string o; kOps[i].fn(s, o); if (o.size() >= kCap) { fprintf(stderr, "result of %s too long\n", kOps[i].name); abort(); } memcpy(expected->text[i], o.data(), o.size()); expected->len[i] = (unsigned)o.size(); }
static void prepare(mc::Exec& e) {
    if (expected) return;
    expected = (Table*)mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < kN; ++i) sched::isolated(e, alone, (void*)(long)i);
}
static void compare(int id, unsigned op, const std::string& o) {
    sched::Quiet q; const unsigned n = expected->len[op];
    if (o.size() != n || memcmp(o.data(), expected->text[op], n)) sched::fail("result", "[%s] in thread %d gives %s instead of %s as when run alone", kOps[op].name, id, mc::quote(o).c_str(), mc::quote(std::string(expected->text[op], n)).c_str());
}
struct Job { const Shared* s; int id; unsigned n, op[3]; };
static void body(void* p) { Job& j = *(Job*)p; for (unsigned k = 0; k < j.n; ++k) { unsigned i = j.op[k]; sched::op(kOps[i].name); std::string o; kOps[i].fn(*j.s, o); compare(j.id, i, o); } }
struct Plan { unsigned threads, n, op[3][3], pre, stale; };
static void run(mc::Exec& e, void* c) {
    Plan& p = *(Plan*)c; Job j[3];
    sched::begin(e, p.pre, p.stale, 1);
    {
        Shared s;
        for (unsigned t = 0; t < p.threads; ++t) { j[t].s = &s; j[t].id = t + 1; j[t].n = p.n; for (unsigned k = 0; k < p.n; ++k) { j[t].op[k] = p.op[t][k]; if (e.tracing) e.log("thread %u: %s", t + 1, kOps[p.op[t][k]].name); } }
        for (unsigned t = 0; t < p.threads; ++t) sched::spawn(body, &j[t]);
        sched::join(); sched::op("after join");
        for (unsigned t = 0; t < p.threads; ++t) for (unsigned k = 0; k < p.n; ++k) { std::string o; kOps[j[t].op[k]].fn(s, o); compare(0, j[t].op[k], o); }
    }
    unsigned long long pts = sched::points(); uint64_t h = sched::schedule_hash(); sched::end(false);
    mc::Hash x; for (unsigned t = 0; t < p.threads; ++t) for (unsigned k = 0; k < p.n; ++k) x.u(p.op[t][k]); x.u(h); e.transition(pts + p.threads * p.n); e.state(x); e.outcome(mc::Hash().u(h));
}
static void go(mc::Exec& e, Plan& p) { sched::isolated(e, run, &p); }
MC_SECTION(pairs, false, false, 0, false) { prepare(e); Plan p = {2, 1, {}, mc::tier(2u, 6u), mc::tier(1u, 3u)}; unsigned i = e.choose(kN), j = i + e.choose(kN - i); p.op[0][0] = i; p.op[1][0] = j; go(e, p); }
MC_SECTION(triples, false, false, 0, false) { prepare(e); Plan p = {3, 1, {}, mc::tier(1u, 2u), 0}; unsigned i = e.choose(kN); p.op[0][0] = p.op[1][0] = p.op[2][0] = i; go(e, p); }
MC_SECTION(two_steps, false, true, 0, false) { prepare(e); Plan p = {2, 2, {}, 1, 0}; unsigned i = e.choose(kN), j = e.choose(kN), k = e.choose(kN); p.op[0][0] = i; p.op[0][1] = j; p.op[1][0] = j; p.op[1][1] = k; go(e, p); }
} // namespace hx
