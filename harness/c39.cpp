// Memory runs out at every allocation of every operation: nothing leaks, breaks or is silently lost.
#include "jref.hpp"
#include <set>
#include "Caitlyn/String"
#include "Caitlyn/Memory"
#include "Caitlyn/Error"
#include "Caitlyn/Numeric"
#include "Caitlyn/Serializing"
#include "Caitlyn/Utility"
#include "Caitlyn/IO"
#include "Caitlyn/File"
#include "Caitlyn/Collections"
#include "Caitlyn/Caitlyn"
#include <sys/wait.h>
using namespace Caitlyn;
namespace hx {
static const std::string L = "a long text that does not fit any small buffer, \xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80", L2 = "another long text that does not fit any small buffer";
static const std::string up(const std::string& s, int n) { std::string r; while (n--) r += s; return r; }
static int g_live; struct Obj { int v; explicit Obj(int x = 0) : v(x) { ++g_live; } Obj(const Obj& o) : v(o.v) { ++g_live; } ~Obj() { --g_live; } };
// One operation with faults. The case prepares its operands, calls run(op) once and checks afterwards.
struct Ctl {
    mc::Exec& e; const char* name; unsigned long long at = 0, at2 = 0; bool persist = false, quiet = false; unsigned long long count = 0; bool done = false, fired = false; Ctl(mc::Exec& x, const char* n) : e(x), name(n) {}
    template <class F> bool run(F op) {   // true: the operation says it succeeded
        auto& f = mc::g_alloc_fault; f = {at, persist, 0, 0, true, at2}; bool threw = false; std::string what;
        try { op(); } catch (const std::bad_alloc&) { threw = true; } catch (const std::exception& x) { f.armed = false; threw = true; what = x.what(); }
        f.armed = false; count = f.seen; fired = f.fired > 0; done = !threw; e.transition();
        if (threw && !fired) e.fail("spurious", "[%s] fails although memory is available: %s", name, what.c_str());
        if (threw && !what.empty()) { MC_LOG(e, "reported as %s", what.c_str()); }
        MC_LOG(e, "%s: %s", name, done ? "completed" : "threw");
        return done;
    }
    void is(const std::string& got, const std::string& want, const char* who) { if (got != want) e.fail("content", "[%s] with allocation %llu failing%s %s: %s is %s instead of %s", name, at, persist ? " (and all later)" : "", done ? "completed" : "threw", who, mc::quote(got).c_str(), mc::quote(want).c_str()); }
    void eq(bool ok, const char* who) { if (!ok) e.fail("content", "[%s] with allocation %llu failing%s %s: %s", name, at, persist ? " (and all later)" : "", done ? "completed" : "threw", who); }
    // an object changed by the operation: new content after success, any valid content after a failure, and usable in both cases
    void target(String& t, const std::string& neu, const std::string& old, bool strong, const char* who) {
        std::string s = t.str();
        if (done) is(s, neu, who); else if (strong) is(s, old, who);
        else { std::vector<std::string> v; if (!ref::split(s, v) || v.size() != t.size()) e.fail("content", "[%s] with allocation %llu failing leaves %s as %zu characters of text %s", name, at, who, (size_t)t.size(), mc::quote(s).c_str()); }
        t += "x"; is(t.str(), s + "x", "the text appended to later"); t = "later"; is(t.str(), "later", "the text assigned later");
    }
};
struct Case { const char* name; void (*f)(Ctl&); };
static std::vector<Case>& cases() { static std::vector<Case> v; return v; }
struct Reg { Reg(const char* n, void (*f)(Ctl&)) { cases().push_back({n, f}); } };
#define CASE(text) static void MC_CAT(case_, __LINE__)(Ctl& c); static Reg MC_CAT(reg_, __LINE__)(text, MC_CAT(case_, __LINE__)); static void MC_CAT(case_, __LINE__)(Ctl& c)
#define FRESH(text, expr, want) CASE(text) { String a(L.c_str()), b(L2.c_str()); std::string r; c.run([&] { auto x = expr; auto f = mc::g_alloc_fault.armed; mc::g_alloc_fault.armed = false; r = tx(x); mc::g_alloc_fault.armed = f; }); if (c.done) c.is(r, want, "the result"); c.is(a.str(), L, "the first operand"); c.is(b.str(), L2, "the second operand"); }
static std::string tx(const String& s) { return s.str(); } static std::string tx(const std::string& s) { return s; } static std::string tx(bool b) { return b ? "true" : "false"; } static std::string tx(size_t n) { return std::to_string(n); }
static std::string tx(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + "|"; return r; }
static std::string tx(const BigInteger& b) { return b.ToString().str(); } static std::string tx(const BigFloat& b) { return b.ToString().str(); }

FRESH("String(const char*)", String(L.c_str()), L)
FRESH("String(std::string)", String(std::string(L)), L)
FRESH("String copy", String(a), L)
FRESH("String(count, char)", String(40, 'q'), std::string(40, 'q'))
FRESH("String(count, Char)", String(40, Char(CodePoint(0xE9))), up("\xC3\xA9", 40))
FRESH("a + b", a + b, L + L2)
FRESH("Substring", a.Substring(2, 45), L.substr(2, 45))
FRESH("ToUppercase", b.ToUppercase(), "ANOTHER LONG TEXT THAT DOES NOT FIT ANY SMALL BUFFER")
FRESH("ToLowercase", b.ToLowercase(), L2)
FRESH("str()", a.str(), L)
FRESH("data()", String(a.data()), L)
FRESH("Find", (size_t)a.Find(String("does")), std::to_string(L.find("does")))
FRESH("ReverseFind", (size_t)a.ReverseFind(String("does")), std::to_string(L.find("does")))
FRESH("StartsWith", a.StartsWith(String("a long text that")), "true")
FRESH("EndsWith", b.EndsWith(String("any small buffer")), "true")
FRESH("== text", a == L.c_str(), "true")
FRESH("< text", a < L2.c_str(), "true")
FRESH("Format", String::Format("{}, {1:*>60} and {0}", a, b), (L + ", " + std::string(60 - L2.size(), '*') + L2 + " and " + L))
FRESH("Format numbers", String::Format("{:.3f} {:>40d} {} {} {}", 1.5, 123456789, true, "text", std::string(L)), "1.500 " + std::string(31, ' ') + "123456789 true text " + L)
FRESH("_str", operator""_str(L.c_str(), L.size()), L)
FRESH("operator<<", ([&] { std::ostringstream o; o.exceptions(std::ios::badbit); o << a; return o.str(); }()), L)
CASE("String = String") { String t(L2.c_str()), a(L.c_str()); c.run([&] { t = a; }); c.is(a.str(), L, "the source"); c.target(t, L, L2, false, "the target"); }
CASE("String = text") { String t(L2.c_str()); c.run([&] { t = L.c_str(); }); c.target(t, L, L2, true, "the target"); }
CASE("String += String") { String t(L2.c_str()), a(L.c_str()); c.run([&] { t += a; }); c.is(a.str(), L, "the argument"); c.target(t, L2 + L, L2, false, "the target"); }
CASE("String += itself") { String t(L2.c_str()); c.run([&] { t += t; }); c.target(t, L2 + L2, L2, false, "the target"); }
CASE("Append(text)") { String t(L2.c_str()); c.run([&] { t.Append(L.c_str()); }); c.target(t, L2 + L, L2, false, "the target"); }
CASE("Append(count, text)") { String t(L2.c_str()); c.run([&] { t.Append(30, "\xE2\x82\xAC"); }); c.target(t, L2 + up("\xE2\x82\xAC", 30), L2, false, "the target"); }
CASE("Append(count, Char)") { String t(L2.c_str()); c.run([&] { t.Append(100, Char(CodePoint(0x20AC))); }); c.target(t, L2 + up("\xE2\x82\xAC", 100), L2, false, "the target"); }
CASE("PushBack") { String t; unsigned n = 0; c.run([&] { for (; n < 40; ++n) t.PushBack(Char('a')); }); c.is(t.str(), std::string(n, 'a'), "the target"); }
CASE("Insert(text)") { String t(L2.c_str()); c.run([&] { t.Insert(3, L.c_str()); }); c.target(t, L2.substr(0, 3) + L + L2.substr(3), L2, false, "the target"); }
CASE("Insert(String)") { String t(L2.c_str()), a(L.c_str()); c.run([&] { t.Insert(3, a); }); c.is(a.str(), L, "the argument"); c.target(t, L2.substr(0, 3) + L + L2.substr(3), L2, false, "the target"); }
CASE("Insert(itself)") { String t(L2.c_str()); c.run([&] { t.Insert(3, t); }); c.target(t, L2.substr(0, 3) + L2 + L2.substr(3), L2, false, "the target"); }
CASE("Insert(count, Char)") { String t(L2.c_str()); c.run([&] { t.Insert(3, 70, Char('z')); }); c.target(t, L2.substr(0, 3) + std::string(70, 'z') + L2.substr(3), L2, false, "the target"); }
CASE("operator>>") { String t("old"); std::istringstream in(up("word", 30) + "\nnext"); in.exceptions(std::ios::badbit); c.run([&] { in >> t; }); c.target(t, up("word", 30), "old", false, "the target"); }
// text builder
CASE("StringBuilder::Append") { StringBuilder b(L.c_str()); String a(L2.c_str()); c.run([&] { b.Append(a); }); c.is(a.str(), L2, "the argument"); if (c.done) c.is(b.str().str(), L + L2, "the builder"); else c.eq(b.str().StartsWith(String(L.c_str())), "the builder lost its text"); }
CASE("StringBuilder::Append(format)") { StringBuilder b(L.c_str()); String a(L2.c_str()); c.run([&] { b.Append("{}-{}", a, 7); }); if (c.done) c.is(b.str().str(), L + L2 + "-7", "the builder"); else c.eq(b.str().StartsWith(String(L.c_str())), "the builder lost its text"); }
CASE("StringBuilder::AppendLine") { StringBuilder b(L.c_str()); String a(L2.c_str()); c.run([&] { b.AppendLine(a); }); if (c.done) c.is(b.str().str(), L + L2 + "\n", "the builder"); else c.eq(b.str().StartsWith(String(L.c_str())), "the builder lost its text"); }
CASE("StringBuilder copy") { StringBuilder b(L.c_str()); std::string r; c.run([&] { StringBuilder d(b); r = d.str().str(); }); if (c.done) c.is(r, L, "the copy"); c.is(b.str().str(), L, "the source"); }
CASE("StringBuilder(String)") { String a(L.c_str()); std::string r; c.run([&] { StringBuilder d(a); r = d.str().str(); }); if (c.done) c.is(r, L, "the builder"); }
CASE("StringBuilder::str") { StringBuilder b(L.c_str()); std::string r; c.run([&] { r = b.str().str(); }); if (c.done) c.is(r, L, "the text"); c.is(b.str().str(), L, "the builder"); }
// numbers
static const char *N1 = "-12345678901234567890123", *N2 = "98765432109";
#define NUM(text, T, expr, want, s1, s2) CASE(text) { T a(s1), b(s2); std::string a0 = tx(a), b0 = tx(b), r; c.run([&] { auto x = expr; mc::g_alloc_fault.armed = false; r = tx(x); mc::g_alloc_fault.armed = true; }); if (c.done) c.is(r, want, "the result"); c.is(tx(a), a0, "the first operand"); c.is(tx(b), b0, "the second operand"); }
NUM("BigInteger(text)", BigInteger, BigInteger(N1), N1, N1, N2)
NUM("BigInteger copy", BigInteger, BigInteger(a), N1, N1, N2)
NUM("BigInteger +", BigInteger, a + b, "-12345678901135802458014", N1, N2)
NUM("BigInteger -", BigInteger, a - b, "-12345678901333333322232", N1, N2)
NUM("BigInteger *", BigInteger, a * b, "-1219326311359396431235894528159407", N1, N2)
NUM("BigInteger /", BigInteger, a / b, "-124999998862", N1, N2)
NUM("BigInteger ToString", BigInteger, a.ToString(), N1, N1, N2)
NUM("BigInteger Pow", BigInteger, a.Pow(3), "1000", "10", N2)
NUM("BigInteger Sqrt", BigInteger, b.Sqrt(), "314269", N1, N2)
NUM("BigInteger Abs", BigInteger, a.Abs(), N1 + 1, N1, N2)
NUM("BigFloat(text)", BigFloat, BigFloat("1234567890.0123456789012345"), "1234567890.0123456789012345", "1.5", "2.25")
NUM("BigFloat copy", BigFloat, BigFloat(a), "1234567890.0123456789", "1234567890.0123456789", "2.25")
NUM("BigFloat +", BigFloat, a + b, "1234567892.2623456789", "1234567890.0123456789", "2.25")
NUM("BigFloat -", BigFloat, a - b, "1234567887.7623456789", "1234567890.0123456789", "2.25")
NUM("BigFloat *", BigFloat, a * b, "2777777752.527777777525", "1234567890.0123456789", "2.25")
NUM("BigFloat ToString", BigFloat, a.ToString(), "1234567890.0123456789", "1234567890.0123456789", "2.25")
NUM("BigFloat Pow", BigFloat, b.Pow(3), "11.390625", "1.5", "2.25")
CASE("BigFloat /") { BigFloat a("1234.5"), b("5"); std::string r; c.run([&] { auto x = a / b; r = tx(x); }); if (c.done) c.eq(r == "246.9", "the quotient is not 246.9"); c.is(tx(a), "1234.5", "a"); c.is(tx(b), "5", "b"); }
CASE("BigInteger =") { BigInteger t(N2), a(N1); c.run([&] { t = a; }); c.is(tx(a), N1, "the source"); if (c.done) c.is(tx(t), N1, "the target"); (void)tx(t); t = BigInteger("5"); c.is(tx(t), "5", "the target assigned later"); }
CASE("BigFloat =") { BigFloat t("2.5"), a("1234567890.0123456789"); c.run([&] { t = a; }); if (c.done) c.is(tx(t), "1234567890.0123456789", "the target"); (void)tx(t); t = BigFloat("5.5"); c.is(tx(t), "5.5", "the target assigned later"); }
// JSON
using jr::V;
static const char* J = "{\"name\":\"a long text past any buffer\",\"list\":[1,2.5,null,true,{\"in\":[]}]}";
static V model() { V v; jr::parse(J, v); return v; }
static void same(Ctl& c, const jr::JD& d, const V& v, const char* who) { std::string r = jr::diff(d, v); if (!r.empty()) c.e.fail("content", "[%s] with allocation %llu failing%s %s: %s: %s", c.name, c.at, c.persist ? " (and all later)" : "", c.done ? "completed" : "threw", who, r.c_str()); }
static void same(Ctl& c, const jr::Doc& d, const V& v, const char* who) { std::string r = jr::diff(d, v); if (!r.empty()) c.e.fail("content", "[%s] with allocation %llu failing%s %s: %s: %s", c.name, c.at, c.persist ? " (and all later)" : "", c.done ? "completed" : "threw", who, r.c_str()); }
// after a failed edit: any tree, but one that can be read, copied, printed, parsed again and edited
static void valid(Ctl& c, jr::JD& d, const char* who) {
    jr::JD k(d); if (k.GetType() != d.GetType()) c.e.fail("content", "[%s] leaves %s with a copy of another type", c.name, who);
    jr::Doc o; o.AddMember(String("k"), d); std::string t = o.ToString().str(); jr::Doc back{String(t.c_str())}; if (back.HasError() || back.ToString().str() != t) c.e.fail("content", "[%s] with allocation %llu failing leaves %s that prints as %s", c.name, c.at, who, mc::quote(t).c_str());
    d[String("z")] = 1; if (!d.HasMember(String("z"))) c.e.fail("content", "[%s] leaves %s that cannot be edited", c.name, who); d = "t"; if (d.GetString() != "t") c.e.fail("content", "[%s] leaves %s that cannot be assigned", c.name, who);
}
CASE("JsonDocument(text)") { String t(J); std::string r; jr::Doc* d = nullptr; c.run([&] { d = new jr::Doc(t); }); if (c.done) { c.eq(!d->HasError(), "valid text is rejected"); same(c, *d, model(), "the document"); } delete d; }
CASE("JsonDocument(invalid text)") { String t("{\"a\":[1,2,\"a long string that does not fit a small buffer\"],}"); jr::Doc* d = nullptr; c.run([&] { d = new jr::Doc(t); }); if (c.done) c.eq(d->HasError(), "invalid text is accepted"); delete d; }
CASE("JsonDocument::Parse") { jr::Doc d(String("{\"old\":\"a long string that does not fit a small buffer\"}")); String t(J); c.run([&] { d.Parse(t); }); if (c.done) { c.eq(!d.HasError(), "valid text is rejected"); same(c, d, model(), "the document"); } d.Parse(t); same(c, d, model(), "the document parsed again"); }
CASE("JsonDocument copy") { jr::Doc d{String(J)}; jr::Doc* k = nullptr; c.run([&] { k = new jr::Doc(d); }); same(c, d, model(), "the source"); if (c.done) same(c, *k, model(), "the copy"); delete k; }
CASE("JsonDocument =") { jr::Doc d{String(J)}, t{String("{\"old\":[1,2,3]}")}; c.run([&] { t = d; }); same(c, d, model(), "the source"); if (c.done) same(c, t, model(), "the target"); t = d; same(c, t, model(), "the target assigned later"); }
CASE("JsonDocument::ToString") { jr::Doc d{String(J)}; std::string want = d.ToString().str(), r; c.run([&] { r = d.ToString().str(); }); same(c, d, model(), "the document"); if (c.done) c.is(r, want, "the text"); }
CASE("JsonDocument::ToString(mangling)") { jr::Doc d{String(J)}; std::string want = d.ToString(true, 3).str(), r; c.run([&] { r = d.ToString(true, 3).str(); }); same(c, d, model(), "the document"); if (c.done) c.is(r, want, "the text"); }
CASE("JsonDocument <<") { jr::Doc d{String(J)}; std::string want = d.ToString().str(), r; c.run([&] { std::ostringstream o; o.exceptions(std::ios::badbit); o << d; r = o.str(); }); if (c.done) c.is(r, want, "the text"); }
CASE("JsonDocument >>") { jr::Doc d{String("{\"old\":1}")}; std::istringstream in(J); in.exceptions(std::ios::badbit); c.run([&] { in >> d; }); if (c.done) { c.eq(!d.HasError(), "valid text is rejected"); same(c, d, model(), "the document"); } d.Parse(String(J)); same(c, d, model(), "the document parsed later"); }
CASE("AddMember") { jr::Doc d{String(J)}; String k("a key that does not fit any small buffer"); jr::JD v(L.c_str()); V m = model(); bool ok = c.run([&] { d.AddMember(k, v); }); if (ok) { m.mem(k.str()) = V::str(L); same(c, d, m, "the document"); } else { jr::Doc t{String(d.ToString())}; c.eq(!t.HasError(), "the document does not print as a document"); d.RemoveMember(k); same(c, d, m, "the document without the new member"); } same(c, v, V::str(L), "the value"); }
CASE("RemoveMember") { jr::Doc d{String(J)}; String k("list"); V m = model(); bool ok = c.run([&] { d.RemoveMember(k); }); if (ok || !d.HasMember(k)) for (auto i = m.o.begin(); i != m.o.end(); ++i) if (i->first == "list") { m.o.erase(i); break; } same(c, d, m, "the document"); }
CASE("document[key]") { jr::Doc d{String(J)}; String k("a key that does not fit any small buffer"); V m = model(); bool ok = c.run([&] { d[k]; }); if (ok) { m.mem(k.str()); } else if (d.HasMember(k)) m.mem(k.str()); same(c, d, m, "the document"); }
CASE("HasMember") { jr::Doc d{String(J)}; bool r = false; c.run([&] { r = d.HasMember(String("list")); }); if (c.done) c.eq(r, "the member is not found"); same(c, d, model(), "the document"); }
CASE("GetErrorString") { jr::Doc d{String("{]")}; std::string want = d.GetErrorString().str(), r; c.run([&] { r = d.GetErrorString().str(); }); if (c.done) c.is(r, want, "the message"); }
CASE("value copy") { jr::JD d = jr::build(model()); jr::JD* k = nullptr; c.run([&] { k = new jr::JD(d); }); same(c, d, model(), "the source"); if (c.done) same(c, *k, model(), "the copy"); delete k; }
CASE("value =") { jr::JD d = jr::build(model()), t(L.c_str()); bool ok = c.run([&] { t = d; }); same(c, d, model(), "the source"); if (ok) same(c, t, model(), "the target"); valid(c, t, "the target"); }
CASE("value = part of itself") { jr::JD d = jr::build(model()); V m = model(); bool ok = c.run([&] { d = d[String("list")]; }); if (ok) same(c, d, m.mem("list"), "the target"); valid(c, d, "the target"); }
CASE("value = text") { jr::JD t = jr::build(model()); bool ok = c.run([&] { t = L.c_str(); }); if (ok) same(c, t, V::str(L), "the target"); valid(c, t, "the target"); }
CASE("value = String") { jr::JD t = jr::build(model()); String a(L.c_str()); bool ok = c.run([&] { t = a.str(); }); if (ok) same(c, t, V::str(L), "the target"); valid(c, t, "the target"); }
CASE("value = number") { jr::JD t = jr::build(model()); bool ok = c.run([&] { t = 7; }); if (ok) same(c, t, V::num(7), "the target"); valid(c, t, "the target"); }
CASE("value[key]") { jr::JD t = jr::build(model()); String k("a key that does not fit any small buffer"); V m = model(); bool ok = c.run([&] { t[k] = L.c_str(); }); if (ok) { m.mem(k.str()) = V::str(L); same(c, t, m, "the target"); } valid(c, t, "the target"); }
CASE("value[key] of a text") { jr::JD t(L.c_str()); String k("a key that does not fit any small buffer"); V m; bool ok = c.run([&] { t[k] = 1; }); if (ok) { m.mem(k.str()) = V::num(1); same(c, t, m, "the target"); } valid(c, t, "the target"); }
CASE("value[index]") { jr::JD t = jr::build(model()); V m = model(); bool ok = c.run([&] { t[String("list")][9] = L.c_str(); }); if (ok) { m.mem("list").el(9) = V::str(L); same(c, t, m, "the target"); } valid(c, t, "the target"); }
CASE("Append") { jr::JD t = jr::build(model().mem("list")); V m = model().mem("list"); jr::JD v = jr::build(model()); bool ok = c.run([&] { t.Append(v); }); if (ok) { m.push(model()); same(c, t, m, "the target"); } same(c, v, model(), "the argument"); valid(c, t, "the target"); }
CASE("Append(several)") { jr::JD t = jr::build(model().mem("list")); V m = model().mem("list"); bool ok = c.run([&] { t.Append(1, L.c_str(), true); }); if (ok) { m.push(V::num(1)); m.push(V::str(L)); m.push(V::boolean(true)); same(c, t, m, "the target"); } valid(c, t, "the target"); }
CASE("Append to itself") { jr::JD t = jr::build(model().mem("list")); V m = model().mem("list"); bool ok = c.run([&] { t.Append(t); }); if (ok) { m.push(V(m)); same(c, t, m, "the target"); } valid(c, t, "the target"); }
CASE("MakeArray") { jr::JD* t = nullptr; V m = V::arr(); bool ok = c.run([&] { t = new jr::JD(Json::MakeArray(1, L.c_str(), 2.5)); }); if (ok) { m.push(V::num(1)); m.push(V::str(L)); m.push(V::real(2.5)); same(c, *t, m, "the array"); } delete t; }
CASE("value ToString") { jr::JD t = jr::build(model()); std::string want = t.ToString().str(), r; c.run([&] { r = t.ToString().str(); }); if (c.done) c.is(r, want, "the text"); same(c, t, model(), "the value"); }
CASE("GetString") { jr::JD t(L.c_str()); std::string r; c.run([&] { r = t.GetString().str(); }); if (c.done) c.is(r, L, "the text"); same(c, t, V::str(L), "the value"); }
// pointers
#define OBJ0 if (g_live) c.e.fail("object", "[%s] with allocation %llu failing: %d objects are never destroyed", c.name, c.at, g_live);
CASE("SharedPtr(new)") { g_live = 0; { SharedPtr<Obj> p; c.run([&] { SharedPtr<Obj> q(new Obj(7)); p = q; }); if (c.done) c.eq(p.Get() && p->v == 7 && g_live == 1, "the owner"); else c.eq(!p.Get(), "the owner"); } OBJ0 }
CASE("SharedPtr = new") { g_live = 0; { SharedPtr<Obj> p(new Obj(1)); c.run([&] { p = new Obj(7); }); if (c.done) c.eq(p.Get() && p->v == 7, "the owner"); else c.eq(!p.Get() || p->v == 1, "the owner after a failed assignment"); c.eq(g_live == (p.Get() ? 1 : 0), "the number of live objects"); } OBJ0 }
CASE("SharedPtr::Reset") { g_live = 0; { SharedPtr<Obj> p(new Obj(1)), q(p); c.run([&] { p.Reset(new Obj(7)); }); c.eq(q.Get() && q->v == 1, "the other owner"); if (c.done) c.eq(p.Get() && p->v == 7, "the owner"); else c.eq(!p.Get() || p.Get() == q.Get(), "the owner after a failed Reset"); c.eq(g_live == (c.done ? 2 : 1), "the number of live objects"); } OBJ0 }
CASE("UniquePtr = new") { g_live = 0; { UniquePtr<Obj> p; c.run([&] { p = new Obj(7); }); if (c.done) c.eq(p.Get() && p->v == 7 && g_live == 1, "the owner"); else c.eq(!p.Get(), "the owner"); } OBJ0 }
CASE("owner operations") { g_live = 0; { SharedPtr<Obj> p(new Obj(1)); WeakPtr<Obj> w(p); c.run([&] { SharedPtr<Obj> q(p), r; r = q; WeakPtr<Obj> v(w), u; u = v; u = r; SharedPtr<Obj> s = u.lock(); s.Reset(); }); c.eq(c.done && c.count == 0, "copying owners takes memory"); c.eq(p->v == 1 && !w.expired(), "the owner"); } OBJ0 }
// values and errors
typedef Expected<std::string, std::string> Ex;
#define EXV(x) ((x).HasValue() ? "v:" + (x).Get() : "e:" + (x).GetError())
CASE("Expected copy") { Ex a(L), b{Unexpected<std::string>(L2)}; std::string r; c.run([&] { Ex x(a), y(b); mc::g_alloc_fault.armed = false; r = EXV(x) + EXV(y); }); c.is(EXV(a), "v:" + L, "a"); c.is(EXV(b), "e:" + L2, "b"); if (c.done) c.is(r, "v:" + L + "e:" + L2, "the copies"); }
CASE("Expected = value") { Ex t(L2), a(L); c.run([&] { t = a; }); c.is(EXV(a), "v:" + L, "the source"); c.is(EXV(t), c.done ? "v:" + L : "v:" + L2, "the target"); }
CASE("Expected = error") { Ex t(L2), a{Unexpected<std::string>(L)}; c.run([&] { t = a; }); c.is(EXV(a), "e:" + L, "the source"); c.is(EXV(t), c.done ? "e:" + L : "v:" + L2, "the target"); }
CASE("Expected combinators") { Ex a(L); std::string r; c.run([&] { auto x = a.Map([](const std::string& s) { return s + s; }).Then([](const std::string& s) -> Ex { return Ex(s + "!"); }).CatchError([](const std::string& s) -> Ex { return Ex(s); }); mc::g_alloc_fault.armed = false; r = EXV(x); }); c.is(EXV(a), "v:" + L, "the source"); if (c.done) c.is(r, "v:" + L + L + "!", "the result"); }
CASE("Expected observers") { Ex a(L), b{Unexpected<std::string>(L2)}; std::string r; c.run([&] { r = a.UnwrapOr(L2) + b.UnwrapOr(L) + b.UnwrapOrElse([](const std::string& s) { return s + s; }); }); if (c.done) c.is(r, L + L + L2 + L2, "the results"); c.is(EXV(a), "v:" + L, "a"); c.is(EXV(b), "e:" + L2, "b"); }
// collections and streams
CASE("map keys and values") { std::map<std::string, std::string> m{{L, "1"}, {L2, L}}; std::string r; c.run([&] { auto k = GetMapKeys(m); auto v = GetMapValues(m); mc::g_alloc_fault.armed = false; for (auto& x : k) r += x; for (auto& x : v) r += x; }); if (c.done) c.is(r, L + L2 + "1" + L, "the lists"); c.eq(m.size() == 2, "the map"); }
struct Catch { std::ostringstream o; std::streambuf* old; Catch() : old(std::cout.rdbuf(o.rdbuf())) {} ~Catch() { std::cout.rdbuf(old); std::cout.clear(); } };
CASE("file") {
    std::string path = mc::scratch() + "/f.txt"; { std::ofstream o(path); o << "first line of the file, long enough\nsecond\n"; } std::string a, b; bool wrote = false;
    { std::unique_ptr<Caitlyn::File> f; c.run([&] { f.reset(new Caitlyn::File(String(path.c_str()))); a = f->ReadLine().str(); b = f->Read().str(); f->Write(L.c_str()); f->Close(); wrote = true; }); if (c.done) c.eq(a == "first line of the file, long enough", "the line read"); }
    std::ifstream in(path); std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); in.close(); remove(path.c_str()); c.eq(all.compare(0, 43, "first line of the file, long enough\nsecond\n") == 0, "the old content of the file"); if (wrote) c.is(all.substr(43), L, "the content written");
}
static void all_cases(mc::Exec& e) {
    unsigned i = e.choose((unsigned)cases().size()); e.op(cases()[i].name); MC_LOG(e, "case: %s", cases()[i].name);
    Ctl c(e, cases()[i].name); cases()[i].f(c); cases()[i].f(c); if (!c.done) return; unsigned long long n = c.count; if (!n) { e.outcome(mc::Hash().s(c.name)); return; }
    unsigned at = e.choose((unsigned)n) + 1; c.at = at; unsigned second = e.choose(mc::tier(2u, 10u)); c.persist = second == 1; c.at2 = second > 1 ? at + second - 1 : 0; MC_LOG(e, "allocation %u of %llu%s fails", at, n, c.persist ? " and every later one" : c.at2 ? mc::strf(" and allocation %llu", c.at2).c_str() : ""); cases()[i].f(c);
    if (!c.fired) e.fail("reached", "[%s] makes another number of allocations each time", c.name);
    e.state(mc::Hash().u(i).u(at).u(second)); e.outcome(mc::Hash().u(i).u(c.done));
}
CASE("Split") { std::string r; c.run([&] { auto x = Split(L + "," + L2 + ",", ','); mc::g_alloc_fault.armed = false; r = tx(x); }); if (c.done) c.is(r, L.substr(0, L.find(',')) + "|" + L.substr(L.find(',') + 1) + "|" + L2 + "|", "the parts"); }
CASE("Repeat") { std::string r; c.run([&] { r = Repeat(L, 20); }); if (c.done) c.is(r, up(L, 20), "the text"); }
struct Flat : std::streambuf { char b[2000]; Flat() { setp(b, b + sizeof b); } std::string s() { return std::string(b, pptr()); } };
CASE("Console output") { Flat f; auto* o = std::cout.rdbuf(&f); String a(L.c_str()); int n = 0; c.run([&] { OutputStream::WriteLine("{} and {}", a, L2.c_str()); ++n; OutputStream::Write(a); ++n; }); std::cout.rdbuf(o); bool good = std::cout.good(); std::cout.clear(); std::string l = L + " and " + L2 + "\n"; c.is(f.s(), n == 2 ? l + L : n == 1 ? l : "", "the output"); c.eq(good, "the stream is left in a bad state"); }
// the application keeps its arguments, also when an earlier attempt to initialise it ran out of memory; in a process of its own
MC_SECTION(application, false) {
    unsigned at = e.choose(7) + 1; bool persist = e.flag(), twice = e.flag(); e.op("Application::Initialize"); MC_LOG(e, "allocation %u of Initialize(4, ..)%s fails%s", at, persist ? " and every later one" : "", twice ? ", twice" : "");
    pid_t k = fork();
    if (!k) {
        const char* av[] = {"program", L.c_str(), "", L2.c_str(), nullptr}; const Application* a = nullptr; long long live = mc::g_alloc.live;
        for (int i = 0; i < (twice ? 2 : 1) && !a; ++i) { mc::g_alloc_fault = {at, persist, 0, 0, true, 0}; try { a = Application::Initialize(4, av); } catch (const std::bad_alloc&) {} mc::g_alloc_fault.armed = false; if (!a && mc::g_alloc.live > live + 1) _exit(4); }
        if (!a) a = Application::Initialize(4, av);
        bool ok = a->GetArgs().size() == 4; for (int i = 0; ok && i < 4; ++i) ok = !strcmp(a->GetArgs()[i], av[i]); if (!ok) _exit(3);
        try { Application::Initialise(); _exit(5); } catch (const std::runtime_error&) {} _exit(0);
    }
    int st = 0; waitpid(k, &st, 0); e.transition(); int x = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
    if (x) e.fail("application", "allocation %u%s fails in Initialize: %s", at, persist ? " and every later one" : "", x == 3 ? "the arguments are wrong after the next attempt" : x == 4 ? "the failed attempt leaks" : x == 5 ? "it can be initialised again" : "the process dies");
    e.state(mc::Hash().u(at).u(persist).u(twice)); e.outcome(mc::Hash().u(x));
}
MC_SECTION(every_allocation, true) { all_cases(e); }
}
