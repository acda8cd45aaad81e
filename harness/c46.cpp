#include "mc.hpp"
#include <array>
#include <list>
#include <unordered_map>
#include <fstream>
#include "Caitlyn/Caitlyn"
#include "Caitlyn/Algorithms"
#include "Caitlyn/Collections"
#include "Caitlyn/Error"
#include "Caitlyn/File"
#include "Caitlyn/IO"
#include "Caitlyn/Memory"
#include "Caitlyn/Numeric"
#include "Caitlyn/Serializing"
#include "Caitlyn/String"
#include "Caitlyn/Testing"
using namespace Caitlyn;
extern "C" unsigned long long mc_edges;
namespace hx {
// work of an operation: edges taken through its code, and bytes it asks memory for
static unsigned long long g_e0, g_b0, g_work; static unsigned long long g_sink;
static void start() { g_b0 = mc::g_alloc.total_bytes; g_e0 = mc_edges; }
static void stop() { g_work = (mc_edges - g_e0) + (mc::g_alloc.total_bytes - g_b0) / 8; }
static std::string rep(const std::string& s, size_t n) { std::string r; r.reserve(s.size() * n); for (size_t i = 0; i < n; ++i) r += s; return r; }
static std::string text(unsigned shape, size_t n) {   // n characters
    static const char* unit[] = {"abcdefgh", "\xC3\xA9\xE2\x82\xAC""a\xF0\x9F\x98\x80Z \"\\", "aaaaaaaa", " a\nb\t,.c"};
    std::string u = unit[shape], r; std::vector<std::string> cs; for (size_t i = 0; i < u.size();) { size_t k = i + 1; while (k < u.size() && ((unsigned char)u[k] & 0xC0) == 0x80) ++k; cs.push_back(u.substr(i, k - i)); i = k; }
    for (size_t i = 0; i < n; ++i) r += cs[i % cs.size()]; return r;
}
static std::string digits(unsigned shape, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += shape == 0 ? (char)('1' + i % 9) : shape == 1 ? '9' : shape == 2 ? (i ? '0' : '1') : (i % 2 ? '0' : '5'); return r; }
static std::string json(unsigned shape, size_t n) {   // n members
    std::string r = shape == 0 ? "{\"a\":[" : "{";
    for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += shape == 0 ? mc::strf("%zu", i) : shape == 1 ? mc::strf("\"k%zu\":%zu", i, i) : shape == 2 ? mc::strf("\"%zu\":[true,null,1.5,\"x\\u00e9\"]", i) : mc::strf("\n \"k%zu\" : { \"v\" : \"\xC3\xA9 \" }", n - i); }
    return r + (shape == 0 ? "]}" : "}");
}
static std::string array(unsigned shape, size_t n) { std::string r = "{\"a\":["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += shape == 0 ? mc::strf("%zu", i) : shape == 1 ? (i % 3 ? i % 3 > 1 ? "null" : " true" : "false") : shape == 2 ? mc::strf("\"t\\n%zu\\u00e9\"", i) : i % 2 ? mc::strf("{ \"k\" : -%zu.5e1 , \"\" : [ ] }", i) : std::string("[1, [] ]"); } return r + "]}"; }
struct Quiet : std::streambuf { std::streambuf *o, *l; int_type overflow(int_type c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } Quiet() : o(std::cout.rdbuf(this)), l(std::clog.rdbuf(this)) {} ~Quiet() { std::cout.rdbuf(o); std::clog.rdbuf(l); } };
struct S3 { std::string str() const { return "str"; } };
typedef void (*Run)(unsigned shape, size_t n);
enum Law { Linear, Square };
struct Op { const char* name; Law law; Run run; };
#define OP(name, law, ...) {name, law, [](unsigned s, size_t n) { (void)s; __VA_ARGS__ }}
static const Op kText[] = {
    OP("String(const char*)", Linear, std::string t = text(s, n); start(); String x(t.c_str()); stop(); g_sink += x.size();),
    OP("String(std::string)", Linear, std::string t = text(s, n); start(); String x(t); stop(); g_sink += x.size();),
    OP("String(count, char)", Linear, start(); String x(n, 'x'); stop(); g_sink += x.size();),
    OP("String(count, Char)", Linear, start(); String x(n, Char("\xC3\xA9")); stop(); g_sink += x.size();),
    OP("copy", Linear, String t(text(s, n)); start(); String x(t); String y; y = t; stop(); g_sink += x.size() + y.size();),
    OP("str", Linear, String t(text(s, n)); start(); std::string x = t.str(); stop(); g_sink += x.size();),
    OP("ByteCount", Linear, String t(text(s, n)); start(); g_sink += t.ByteCount(); stop();),
    OP("PushBack n times", Linear, Char c("\xE2\x82\xAC"); start(); String x; for (size_t i = 0; i < n; ++i) x.PushBack(c); stop(); g_sink += x.size();),
    OP("+= one character n times", Linear, String c("\xC3\xA9"); start(); String x; for (size_t i = 0; i < n; ++i) x += c; stop(); g_sink += x.size();),
    OP("Append(const char*) n times", Linear, start(); String x; for (size_t i = 0; i < n; ++i) x.Append("ab"); stop(); g_sink += x.size();),
    OP("Append(1, Char) n times", Linear, Char c("x"); start(); String x; for (size_t i = 0; i < n; ++i) x.Append(1, c); stop(); g_sink += x.size();),
    OP("Append(n, text)", Linear, start(); String x; x.Append(n, "\xC3\xA9"); stop(); g_sink += x.size();),
    OP("+", Linear, String t(text(s, n)); start(); String x = t + t; stop(); g_sink += x.size();),
    OP("Insert in the middle", Linear, String t(text(s, n)); String u(t); start(); t.Insert(n / 2, u); t.Insert(1, "abc"); t.Insert(n / 3, n, Char("x")); stop(); g_sink += t.size();),
    OP("Clear", Linear, String t(text(s, n)); start(); t.Clear(); stop(); g_sink += t.size();),
    OP("equal and ordered", Linear, String t(text(s, n)); String u(t); start(); g_sink += (t == u) + (t < u) + (t >= u) + (t != u) + (t == u.str().c_str()); stop();),
    OP("StartsWith and EndsWith", Linear, String t(text(s, n)); String u(t); start(); g_sink += t.StartsWith(u) + t.EndsWith(u); stop();),
    OP("Contains and Find three characters", Linear, String t(text(s, n)); String u("aax"); start(); g_sink += t.Contains(u) + t.Find(u) + t.ReverseFind(u); stop();),
    OP("FindIf", Linear, String t(text(s, n)); start(); g_sink += t.FindIf([](const Char& c) { return c == Char("~"); }) + t.FindIfNot([](const Char& c) { return c != Char("~"); }); stop();),
    OP("Substring", Linear, String t(text(s, n)); start(); String x = t.Substring(1); String y = t.Substring(n / 2, n / 4); stop(); g_sink += x.size() + y.size();),
    OP("every Substring of one character", Linear, String t(text(s, n)); start(); for (size_t i = 0; i < n; ++i) g_sink += t.Substring(i, 1).size(); stop();),
    OP("every character by index", Linear, String t(text(s, n)); start(); for (size_t i = 0; i < n; ++i) g_sink += t[i].GetCodePoint() + t.At(i).size(); stop();),
    OP("every character by iterator", Linear, String t(text(s, n)); start(); for (const Char& c : t) g_sink += c.size(); for (auto i = t.crbegin(); i != t.crend(); ++i) g_sink += i->size(); stop();),
    OP("ToUppercase and ToLowercase", Linear, String t(text(s, n)); start(); String x = t.ToUppercase(); String y = t.ToLowercase(); stop(); g_sink += x.size() + y.size();),
    OP("Format a long text", Linear, String t(text(s == 1 ? 0 : s, n)); start(); String x = String::Format(t); stop(); g_sink += x.size();),
    OP("Format a long argument", Linear, String t(text(s, n)); start(); String x = String::Format("{} {:_^9} {0:.3}", t); stop(); g_sink += x.size();),
    OP("Format to a great width", Linear, std::string f = mc::strf("{:*>%zu}", n); start(); String x = String::Format(f, "a"); stop(); g_sink += x.size();),
    OP("Format n placeholders", Linear, std::string f = rep(s % 2 ? "{0:>3}" : "{}-", n); start(); String x = String::Format(f, 7); stop(); g_sink += x.size();),
    OP("StringBuilder", Linear, String t("ab\xC3\xA9"); start(); StringBuilder b; for (size_t i = 0; i < n; ++i) { b.Append(t); b.AppendLine("x"); b.Append("{}", 1); } String x = b.str(); stop(); g_sink += x.size();),
    OP("StringBuilder copy", Linear, StringBuilder a(String(text(s, n))); start(); StringBuilder b(a); String x = b.str(); stop(); g_sink += x.size();),
    OP("Split", Linear, std::string t = text(3, n); start(); g_sink += Split(t, s % 2 ? ',' : 'a').size(); stop();),
    OP("Repeat", Linear, start(); g_sink += Repeat("ab", n).size(); stop();),
    OP("EscapeString", Linear, String t(text(s, n)); start(); String x = EscapeString(t); stop(); g_sink += x.size();),
    OP("IsNumber", Linear, String t(digits(s, n)); start(); g_sink += IsNumber(t); stop();),
    OP("FindFirstNonSpace, FindLastNonSpace", Linear, String t(n, ' '); start(); g_sink += FindFirstNonSpace(t) + FindLastNonSpace(t); stop();),
    OP("kmp", Linear, std::string t = rep("a", n); std::string p = rep("a", n / 2) + (s % 2 ? "b" : "a"); start(); g_sink += kmp(p, t); stop();),
    OP("kmp of a repeated pattern", Linear, std::string t = rep("aab", n); std::string p = rep("aab", n / 3) + "b"; start(); g_sink += kmp(p, t); stop();),
    OP("stream out and in", Linear, String t(rep("a\xC3\xA9", n)); start(); std::stringstream x; x << t; String u; x >> u; stop(); g_sink += u.size();),
};
static const Op kNumber[] = {
    OP("BigInteger(text)", Linear, std::string t = digits(s, n); start(); BigInteger x(t); stop(); g_sink += x.Size();),
    OP("ToString", Linear, BigInteger x(digits(s, n)); start(); g_sink += x.ToString().size(); stop();),
    OP("add", Linear, BigInteger x(digits(s, n)); BigInteger y(digits(1, n)); start(); BigInteger z = x + y; stop(); g_sink += z.Size();),
    OP("subtract", Linear, BigInteger x(digits(s, n)); BigInteger y(digits(1, n - 1)); start(); BigInteger z = x - y; BigInteger w = y - x; stop(); g_sink += z.Size() + w.Size();),
    OP("compare", Linear, BigInteger x(digits(s, n)); BigInteger y(x); start(); g_sink += (x < y) + (x == y) + (x > y) + (x <= y) + (x >= y) + (x != y); stop();),
    OP("copy", Linear, BigInteger x(digits(s, n)); start(); BigInteger y(x); y = x; stop(); g_sink += y.Size();),
    OP("add a small number n times", Linear, start(); BigInteger x("0"); BigInteger y("7"); for (size_t i = 0; i < n; ++i) x = x + y; stop(); g_sink += x.Size();),
    OP("multiply by one digit", Linear, BigInteger x(digits(s, n)); BigInteger y("9"); start(); BigInteger z = x * y; stop(); g_sink += z.Size();),
    OP("multiply", Square, n = n / 8 + 4; BigInteger x(digits(s, n)); BigInteger y(digits(1, n)); start(); BigInteger z = x * y; stop(); g_sink += z.Size();),
    OP("divide by one digit", Square, n = n / 8 + 4; BigInteger x(digits(s, n)); BigInteger y("7"); start(); BigInteger z = x / y; stop(); g_sink += z.Size();),
    OP("divide by half the digits", Square, n = n / 8 + 4; BigInteger x(digits(s, n)); BigInteger y(digits(0, n / 2)); start(); BigInteger z = x / y; BigInteger w = x % y; stop(); g_sink += z.Size() + w.Size();),
    OP("BigFloat(text) and ToString", Linear, std::string t = digits(0, n / 2) + "." + digits(s, n / 2); start(); BigFloat x(t); g_sink += x.ToString().size(); stop();),
    OP("BigFloat add, subtract and compare", Square, n = n / 8 + 4; BigFloat x(digits(0, n / 2) + "." + digits(s, n / 2)); BigFloat y("1." + digits(1, n / 3)); start(); g_sink += (x + y).ToString().size() + (x - y).ToString().size() + (x < y) + (x == y); stop();),
};
static std::string g_path;
static const Op kOther[] = {
    OP("parse JSON, an array", Linear, String t(array(s, n)); start(); JsonDocument d; d.Parse(t); stop(); g_sink += d.HasError() ? 1 / (g_sink & 0) : d.Size();),
    OP("parse JSON, an object", Square, String t(json(s, n)); start(); JsonDocument d; d.Parse(t); stop(); g_sink += d.HasError() ? 1 / (g_sink & 0) : d.Size();),
    OP("write JSON, an array", Linear, JsonDocument d{String(array(s, n))}; start(); g_sink += d.ToString().size() + d.ToString(true, 2).size(); stop();),
    OP("write JSON, an object", Linear, if (n > 8000) s = 0; JsonDocument d{String(json(s, n))}; start(); g_sink += d.ToString().size() + d.ToString(true, 2).size(); stop();),
    OP("copy JSON, an array", Linear, JsonDocument d{String(array(s, n))}; start(); JsonDocument x(d); JsonDocument y; y = d; stop(); g_sink += x.Size() + y.Size();),
    OP("copy JSON, an object", Linear, if (n > 8000) s = 0; JsonDocument d{String(json(s, n))}; start(); JsonDocument x(d); JsonDocument y; y = d; stop(); g_sink += x.Size() + y.Size();),
    OP("JSON with a long text", Linear, String t("{\"a\":\"" + rep("x\\n\\u00e9\xC3\xA9", n) + "\"}"); start(); JsonDocument d; d.Parse(t); g_sink += d.ToString().size(); stop();),
    OP("JSON with much space", Linear, String t("{ " + rep(" \n", n) + "\"a\":" + rep("\t ", n) + "1" + rep(" ", n) + "}" + rep("\r\n", n)); start(); JsonDocument d; d.Parse(t); stop(); g_sink += d.Size();),
    OP("JSON refused at its end, an array", Linear, String t(array(s, n)); String u(t.Substring(0, t.size() - 1) + String("?}")); start(); JsonDocument d; d.Parse(u); stop(); g_sink += d.HasError();),
    OP("JSON refused at its end, an object", Square, String t(json(s, n)); String u(t.Substring(0, t.size() - 1) + String("?}")); start(); JsonDocument d; d.Parse(u); stop(); g_sink += d.HasError();),
    OP("nested JSON", Square, n = n / 8 + 8; String t(s % 2 ? rep("{\"a\":", n) + "1" + rep("}", n) : "{\"a\":" + rep("[", n) + rep("]", n) + "}"); start(); JsonDocument d; d.Parse(t); JsonDocument x(d); g_sink += x.ToString().size() + x.ToString(true, 0).size(); stop();),
    OP("AddMember n times", Square, std::vector<String> k; for (size_t i = 0; i < n; ++i) k.push_back(String(mc::strf("%zu", (i * 7919) % n))); start(); JsonDocument d; for (size_t i = 0; i < n; ++i) d.AddMember(k[i], 1); stop(); g_sink += d.Size();),
    OP("member by key n times", Square, std::vector<String> k; for (size_t i = 0; i < n; ++i) k.push_back(String(mc::strf("%zu", (i * 7919) % n))); start(); JsonDocument d; for (size_t i = 0; i < n; ++i) d[k[i]] = 1; for (size_t i = 0; i < n; ++i) g_sink += d.HasMember(k[i]); stop();),
    OP("Append n times", Linear, start(); JsonDocument d; d["a"] = Json::MakeArray(); for (size_t i = 0; i < n; ++i) d["a"].Append((int)i); stop(); g_sink += d["a"].Size();),
    OP("RemoveMember n times", Square, JsonDocument d{String(json(1, n))}; std::vector<String> k; for (size_t i = 0; i < n; ++i) k.push_back(String(mc::strf("k%zu", i))); start(); for (size_t i = 0; i < n; ++i) d.RemoveMember(k[i]); stop(); g_sink += d.Size();),
    OP("File: n lines written and read", Linear, { ::remove(g_path.c_str()); } { File f{String(g_path)}; start(); for (size_t i = 0; i < n; ++i) f.WriteLine("line"); f.SetPosition(0); for (size_t i = 0; i < n; ++i) g_sink += f.ReadLine().size(); g_sink += f.Read().size(); stop(); }),
    OP("File: one long line", Linear, { ::remove(g_path.c_str()); } std::string t = text(s == 3 ? 0 : s, n); { File f{String(g_path)}; String x(t); start(); f.Write(x); f.SetPosition(0); g_sink += f.ReadLine().size() + f.Read().size(); stop(); }),
    OP("print n times", Linear, Quiet q; String x("ab\xC3\xA9"); start(); for (size_t i = 0; i < n; ++i) { OutputStream::Write(x); OutputStream::WriteLine("{}", 1); LogStream::WriteLine(x); } stop();),
    OP("print a long text", Linear, Quiet q; String x(text(s, n)); start(); OutputStream::Write(x); OutputStream::WriteLine(x); stop();),
    OP("read n lines", Linear, std::string t = rep("line \xC3\xA9\n", n); std::stringbuf b(t); std::streambuf* o = std::cin.rdbuf(&b); std::cin.clear(); start(); for (size_t i = 0; i < n; ++i) g_sink += InputStream::ReadLine().size(); stop(); std::cin.rdbuf(o);),
    OP("read one long line", Linear, std::string t = text(s == 3 ? 0 : s, n); std::stringbuf b(t); std::streambuf* o = std::cin.rdbuf(&b); std::cin.clear(); start(); g_sink += InputStream::ReadLine().size(); stop(); std::cin.rdbuf(o); std::cin.clear();),
    OP("SharedPtr copied n times", Linear, std::vector<SharedPtr<int>> v; v.reserve(n); SharedPtr<int> p(new int(1)); start(); for (size_t i = 0; i < n; ++i) v.push_back(p); while (!v.empty()) v.pop_back(); stop(); g_sink += (unsigned)*p;),
    OP("WeakPtr locked n times", Linear, std::vector<WeakPtr<int>> v; v.reserve(n); SharedPtr<int> p(new int(1)); start(); for (size_t i = 0; i < n; ++i) { v.push_back(WeakPtr<int>(p)); g_sink += (unsigned)*v[i].lock(); } while (!v.empty()) v.pop_back(); stop();),
    OP("map keys and values", Linear, std::map<int, int> m; for (size_t i = 0; i < n; ++i) m[(int)i] = 1; start(); g_sink += GetMapKeys(m).size() + GetMapValues(m).size(); stop();),
    OP("Expected moved through n steps", Linear, String t("abc"); start(); Expected<String, String> x(t); for (size_t i = 0; i < n; ++i) { x = x.AndThen([](const String& v) { return Expected<String, String>(v); }).OrElse([](const String& v) { return Expected<String, String>(v); }); g_sink += x.UnwrapOrDefault().size(); } stop();),
    OP("Expected with a long text", Linear, String t(text(s, n)); start(); Expected<String, int> x(t); Expected<String, int> y(x); y = x; g_sink += y.Map([](const String& v) { return v.size(); }).Get() + y.UnwrapOr(String()).size(); stop();),
};
template <size_t N> static void grow(mc::Exec& e, const Op (&ops)[N]) {
    unsigned o = e.choose((unsigned)N), shape = e.choose(4); static const unsigned base[] = {200, 257, 320, 512, 4096, 700, 1000, 1536, 2000, 3000, 6000, 8192}; size_t n = base[e.choose(ops[o].law == Linear ? mc::tier(5u, 12u) : mc::tier(4u, 7u))];
    const Op& p = ops[o]; e.op(p.name); MC_LOG(e, "%s, shape %u, %zu then %zu", p.name, shape, n, 8 * n);
    p.run(shape, 64); p.run(shape, n); unsigned long long small = g_work + 200; e.beat(); p.run(shape, 8 * n); unsigned long long big = g_work + 200;
    MC_LOG(e, "work %llu then %llu", small, big); double limit = p.law == Linear ? 16 : 160; e.transition(2); e.state(mc::Hash().u(o).u(shape).u(n));
    if (getenv("C46_SHOW")) fprintf(stderr, "%-40s %u %5zu %12llu %12llu %.2f\n", p.name, shape, n, small, big, (double)big / small);
    if ((double)big > limit * (double)small) e.fail(mc::strf("work:%s", p.name).c_str(), "%s: eight times the input (%zu after %zu) takes %.1f times the work (%llu after %llu), more than %g", p.name, 8 * n, n, (double)big / (double)small, big, small, limit);
}
MC_SECTION(text, true, false, 0, true, 120) { grow(e, kText); }
MC_SECTION(numbers, true, false, 0, true, 120) { grow(e, kNumber); }
MC_SECTION(other, true, false, 0, true, 120) { g_path = mc::scratch() + mc::strf("/c46.%d", (int)getpid()); grow(e, kOther); ::remove(g_path.c_str()); }
// the same operation again and again, on one object: what lives in memory does not grow
template <size_t N> static void again(mc::Exec& e, const Op (&ops)[N], unsigned o) {
    const Op& p = ops[o]; unsigned shape = e.choose(4), n = 8 + 3 * e.choose(3); e.op(p.name); MC_LOG(e, "%s again and again, size %u", p.name, n); for (int i = 0; i < 16; ++i) p.run((shape + i) % 4, 8 + 3 * (i % 3)); long long at = mc::g_alloc.live_bytes;
    for (unsigned i = 0; i < mc::tier(60u, 600u); ++i) p.run(shape, n); e.transition(60); e.state(mc::Hash().u(o).u(shape).u(n)); long long now = mc::g_alloc.live_bytes;
    if (now > at + 2048) e.fail(mc::strf("grows:%s", p.name).c_str(), "%s: %lld bytes in use, %lld after 60 more times", p.name, at, now);
}
MC_SECTION(again_text, true) { unsigned o = e.choose(sizeof kText / sizeof *kText); again(e, kText, o); }
MC_SECTION(again_numbers, true) { unsigned o = e.choose(sizeof kNumber / sizeof *kNumber); again(e, kNumber, o); }
MC_SECTION(again_other, true) { g_path = mc::scratch() + mc::strf("/c46.%d", (int)getpid()); unsigned o = e.choose(sizeof kOther / sizeof *kOther); again(e, kOther, o); ::remove(g_path.c_str()); }
}
