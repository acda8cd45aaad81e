// Programs that use every part of the library and write down every result, one line each.
// The including file defines hx::dir() (a scratch directory) and hx::deep() first and uses namespaces Caitlyn and Caitlyn::Test.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <locale>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <stdint.h>
namespace hx {
// ---- probes ----
static std::string& O = *new std::string; static uint64_t ops;
static void put(const std::string& what, const std::string& r) { ++ops; O += what; O += " -> "; for (char c : r) O += c == '\n' ? '\x01' : c; O += '\n'; }
template <class F> static void tr(const std::string& what, F f) { std::string r; try { r = f(); } catch (const std::bad_alloc&) { r = "no memory"; } catch (const std::exception&) { r = "exception"; } put(what, r); }
static std::string num(long long v) { char b[32]; int n = 0; bool neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; do b[n++] = (char)('0' + u % 10); while (u /= 10); if (neg) b[n++] = '-'; std::string r; while (n) r += b[--n]; return r; }
static std::string bits(double d) { unsigned long long u; memcpy(&u, &d, 8); std::string r; for (int i = 60; i >= 0; i -= 4) r += "0123456789abcdef"[(u >> i) & 15]; return r; }
static const double DBL[] = {0.0, -0.0, 0.5, 2.5, -2.5, 1.25, 0.1, 1e-3, 123.456, 1234.5, 1234567.0, -1234567.875, 1e15, 1e16, 1e17, 1e21, 1.5e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-5, 1e-7, 3.141592653589793, 100000.0, 999999.0, 1000000.0};
static const long long INTS[] = {0, 1, -1, 9, 10, 99, 100, 999, 1000, -1000, 9999, 10000, 65536, 123456, 1234567, -1234567, 2147483647ll, -2147483647ll - 1, 4294967296ll, 1234567890123ll, 9223372036854775807ll, -9223372036854775807ll - 1};
static std::string shape(const JsonDocument::DataType& d) {
    if (d.IsNull()) return "null"; if (d.IsBoolean()) return d.GetBoolean() ? "true" : "false"; if (d.IsIntegral()) return "i" + num((long long)d.GetIntegral()); if (d.IsFloating()) return "f" + bits((double)d.GetFloating());
    if (d.IsString()) return "s" + d.GetString().str(); return (d.IsArray() ? "a" : "o") + d.ToString(true, 0).str();
}
static std::string parsed(const std::string& text) { JsonDocument d; d.Parse(String(text)); std::string r = num((long long)d.GetError()); r += ' '; r += d.GetErrorString().str(); if (d.GetError() == Json::JsonError::NoError) { const JsonDocument& k = d; r += ' '; r += shape(k["v"]); r += ' '; r += d.ToString(false, 2).str(); } return r; }
static void p_json_print() {
    for (double v : DBL) { JsonDocument d; d["v"] = v; put("print double " + bits(v), d.ToString().str()); put("mangled " + bits(v), d.ToString(true, 3).str()); }
    for (long long v : INTS) { JsonDocument d; d["v"] = (Int64)v; put("print int " + num(v), d.ToString().str()); put("mangled " + num(v), d.ToString(true, 1).str()); }
    JsonDocument d; for (int i = 0; i < 30; ++i) { d["a"][(size_t)i] = i * 1000.5; d["o"][String(num(i * 1000))] = i % 3 ? JsonDocument::DataType((Int64)(i * 12345)) : JsonDocument::DataType(i % 2 == 0); } d["\xC3\xA9\x01\x1F\x7F\"\\/\b\f\n\r\t"] = "\xF0\x9F\x98\x80\x02i I \xC4\xB0\xC4\xB1"; for (unsigned i = 0; i < 5; ++i) put("document", d.ToString(i & 1, i).str());
    std::ostringstream os; os << d; put("document to a stream", os.str());
}
static void p_json_numbers(unsigned len) {
    static const char S[] = "019-+.eE,"; std::vector<std::string> now{""};
    for (unsigned l = 1; l <= len; ++l) { std::vector<std::string> next; for (auto& s : now) for (const char* c = S; *c; ++c) next.push_back(s + *c); now.swap(next); for (auto& s : now) tr("parse " + s, [&] { return parsed("{\"v\":" + s + "}"); }); }
    for (const char* s : {"1234567.875", "1.234.567", "1,234", "1'234", "1 234", "\xD9\xA1\xD9\xAB\xD9\xA5", "1\xD9\xAB" "5", "1\xC2\xA0" "000", "1\xE2\x80\xAF" "000", "12345678901234567890", "1e308", "1e309", "-1e309", "1e-400", "0x10", "1.0e5", "1,0e5", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1.7976931348623157e308", "4.9e-324", "0.1", "inf", "nan", "ja", "true", "false", "TRUE", "null"}) tr(std::string("parse ") + s, [&] { return parsed(std::string("{\"v\": ") + s + "}"); });
}
static void p_json_documents() {
    for (const char* s : {"{\"v\": [1.5, 2.25, -3e2, 1000000]}", "{\"v\": {\"1000\": 1.5, \"a,b\": \"1,5\"}}", "{\"v\": \"\\u00e9\\u20AC\\ud83d\\ude00\\u0009\"}", "{\"v\": \"\\u00G9\"}", "{\"v\": \"caf\xC3\xA9 \xC2\xA0\xC2\x85\xE2\x80\xA8\"}", "{\xC2\xA0\"v\": 1}", "{\"v\"\xC2\x85: 1}", "{\"v\": 1\xE3\x80\x80}", "{\"v\": 1\v}", "{\"v\": 1;5}", "{\"v\": 1 000}", "{\"v\": 007}", "{\"I\": 1, \"i\": 2, \"\xC4\xB0\": 3, \"\xC4\xB1\": 4, \"\xC3\x9F\": 5, \"ss\": 6, \"SS\": 7, \"\xC3\xA4\": 8, \"ae\": 9, \"A\": 10, \"a\": 11, \"Z\": 12, \"z\": 13, \"-\": 14, \"_\": 15}", "\xEF\xBB\xBF{\"v\": 1}", "{\"v\": tr\xC3\xBC" "e}", "{\"v\" = 1}", "[1,5]"}) {
        tr(std::string("document ") + s, [&] { return parsed(s); });
        tr(std::string("stream ") + s, [&] { std::istringstream is((std::string(s))); JsonDocument d; is >> d; std::ostringstream os; os << d << (int)d.GetError() % 10; return os.str(); });
        tr(std::string("file ") + s, [&] { std::string p = dir() + "/doc.json"; FILE* f = fopen(p.c_str(), "w"); fputs(s, f); fclose(f); std::ifstream in(p); JsonDocument d; d.Parse(in); return d.ToString().str() + num((long long)d.GetError()); });
    }
}
struct WithStr { std::string str() const { return "1.5"; } }; struct WithToString { std::string to_string() const { return "2.5"; } }; struct WithBig { String ToString() const { return "3.5"; } };
static void p_format() {
    std::vector<std::string> t; static const char* const F[] = {"", "*", "0", ".", ",", "'", "\xC3\xA9"}; static const char* const A[] = {"", "<", ">", "^"}; static const char* const W[] = {"", "1", "8", "12", "1000"}; static const char* const P[] = {"", ".0", ".1", ".2", ".5", ".12", ".1000"}; static const char* const T[] = {"", "d", "f", "s", "x"};
    for (auto f : F) for (auto a : A) for (auto w : W) for (auto p : P) for (auto y : T) { if (*f && !*a) continue; if (!deep() && (!strcmp(f, "0") || !strcmp(f, ".") || !strcmp(f, "'") || !strcmp(a, "<") || !strcmp(w, "1") || !strcmp(w, "12") || !strcmp(p, ".1") || !strcmp(p, ".5") || !strcmp(y, "s") || !strcmp(y, "x"))) continue; if ((!strcmp(w, "1000") || !strcmp(p, ".1000")) && (*f || *y)) continue; std::string b = std::string(f) + a + w + p + y; t.push_back(b.empty() ? "{}" : "{:" + b + "}"); }
    for (const char* s : {"{:,}", "{:'}", "{:n}", "{:L}", "{:.2Lf}", "{:8,2f}", "{:,.2f}", "{: >8}", "{0:.1f}/{0:.2f}", "{:\xC2\xA0>8}", "{ }", "{:1 0}", "{:+.1f}", "{:.+1f}", "{: 8}", "{:8 }", "{:\xD9\xA1}", "{\xD9\xA0}", "{1}", "{0,1}", "{+0}", "{-0}", "{:.}", "{:}", "{:1.234}", "{:1,234}"}) t.push_back(s);
    auto all = [&](const std::string& f) {
        String s(f); std::string n = "Format " + f;
        for (double v : {2.55, -1234567.875, 0.0, 1e17}) tr(n + " double " + bits(v), [&] { return String::Format(s, v).str(); });
        tr(n + " float", [&] { return String::Format(s, 1234.5f).str(); }); tr(n + " long double", [&] { return String::Format(s, 1234.5L).str(); }); tr(n + " int", [&] { return String::Format(s, 1234567).str(); }); tr(n + " negative", [&] { return String::Format(s, -1234567ll).str(); }); tr(n + " unsigned", [&] { return String::Format(s, 18446744073709551615ull).str(); });
        tr(n + " bool", [&] { return String::Format(s, true).str() + String::Format(s, false).str(); }); tr(n + " char", [&] { return String::Format(s, '7').str(); }); tr(n + " text", [&] { return String::Format(s, "3,14").str(); }); tr(n + " number text", [&] { return String::Format(s, "1234.5678").str(); }); tr(n + " std::string", [&] { return String::Format(s, std::string("-0.999")).str(); });
        tr(n + " Char", [&] { return String::Format(s, Char(CodePoint(0x131))).str(); }); tr(n + " BigInteger", [&] { return String::Format(s, BigInteger("123456789012345678901")).str(); }); tr(n + " BigFloat", [&] { return String::Format(s, BigFloat("1234567.89")).str(); }); tr(n + " str()", [&] { return String::Format(s, WithStr()).str(); }); tr(n + " to_string()", [&] { return String::Format(s, WithToString()).str(); }); tr(n + " ToString()", [&] { return String::Format(s, WithBig()).str(); });
        tr(n + " builder", [&] { StringBuilder b(s, 1234.5, 1000); b.Append(s, 0.25, 2000); b.AppendLine(s, 9999999, true); return b.str().str() + MakeText(s, 1e6).str().str(); });
    };
    for (auto& f : t) all(f);
}
static void p_big_integer() {
    std::vector<std::string> s; for (const char* x : {"0", "1", "-1", "1000", "-1000", "1234567", "-9876543210", "123456789012345678901234567890", "-100000000000000000000"}) s.push_back(x);
    for (auto& a : s) { BigInteger A(a); put(a, A.ToString().str() + " " + A.Abs().ToString().str()); std::ostringstream os; os << A; put("<< " + a, os.str());
        for (auto& b : s) { BigInteger B(b); tr(a + " ops " + b, [&] { std::string r; r += (A + B).ToString().str() + " " + (A - B).ToString().str() + " " + (A * B).ToString().str(); r += A < B ? "<" : A == B ? "=" : ">"; return r; }); tr(a + " / " + b, [&] { return (A / B).ToString().str() + " " + (A % B).ToString().str(); }); } }
    for (long long v : INTS) { put("from int " + num(v), BigInteger((int64_t)v).ToString().str()); put("from unsigned " + num(v), BigInteger((uint64_t)v).ToString().str()); }
    for (const char* x : {"", "-", "+1", "1,000", "1.000", "1'000", "1 000", " 1", "1 ", "1e3", "0x1", "\xD9\xA1", "-0", "007", "1\xC2\xA0" "000", "1_0", "i7"}) tr(std::string("text ") + x, [&] { return BigInteger(String(x)).ToString().str(); });
}
static void p_big_float() {
    std::vector<std::string> s; for (const char* x : {"0", "0.5", "-0.5", "1.25", "1000", "-1234567.875", "0.000001", "123456789012345678901.234567890123456789", "-99.99"}) s.push_back(x);
    for (auto& a : s) { BigFloat A(a); put(a, A.ToString().str()); std::ostringstream os; os << A; put("<< " + a, os.str());
        for (auto& b : s) { BigFloat B(b); tr(a + " ops " + b, [&] { std::string r; r += (A + B).ToString().str() + " " + (A - B).ToString().str() + " " + (A * B).ToString().str(); r += A < B ? "<" : A == B ? "=" : ">"; return r; }); tr(a + " / " + b, [&] { return (A / B).ToString().str(); }); } }
    for (double v : DBL) tr("from double " + bits(v), [&] { return BigFloat(v).ToString().str(); });
    for (double v : {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}) tr("from " + bits(v), [&] { return BigFloat(v).ToString().str(); });
    for (const char* x : {"", "-", ".", "1.", ".5", "1,5", "1.000,5", "1,000.5", "1'000.5", "1 000.5", " 1.5", "1.5 ", "1e3", "1.5e3", "1.5E-3", "\xD9\xA1\xD9\xAB\xD9\xA5", "1\xD9\xAB" "5", "-0.0", "1.5.5", "x5", "1x5", "1-5"}) tr(std::string("text ") + x, [&] { return BigFloat(String(x)).ToString().str(); });
}
static void p_chars() {
    for (CodePoint c = 0; c < 0x110000; ++c) {
        if (c >= 0xD800 && c < 0xE000) continue; if (c > 0x2FFF && (c & 0xF) && (c < 0xA640 || c > 0xABFF) && (c < 0xFE00 || c > 0x11FFF) && (c < 0x1E000 || c > 0x1EFFF)) continue;
        int k = IsSpace(c) | IsDigit(c) << 1 | IsUppercase(c) << 2 | IsLowercase(c) << 3 | IsLetter(c) << 4; int d = IsDigit(c) ? ToDigit(c) : -1; CodePoint u = ToUppercase(c), l = ToLowercase(c);
        ++ops; if (k || u != c || l != c) { O += num(c) + " " + num(k) + " " + num(d) + " " + num(u) + " " + num(l) + "\n"; }
        if (c < 0x600 || c % 97 == 0) { Char ch(c); put("Char " + num(c), ch.str() + ToUppercase(ch).str() + ToLowercase(ch).str() + num(ch.GetCodePoint()) + num((long long)ch.size())); std::ostringstream os; os << ch; put("<<", os.str()); }
    }
}
static void p_strings() {
    static const char* const W[] = {"", "i", "I", "\xC4\xB0", "\xC4\xB1", "istanbul", "ISTANBUL", "Stra\xC3\x9F" "e", "STRASSE", "\xC3\xA4pfel", "Apfel", "Zebra", "zebra", "\xD0\xAF\xD0\xB1", "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9F\x98\x80", "a-b", "ab", "a b", "1,5", "1.5", "caf\xC3\xA9 \xC2\xA0 \xC2\x85", "\xCE\xA3\xCF\x83\xCF\x82", "ll", "ch", "\xC7\x86"};
    for (auto a : W) { String A(a); put(a, A.str() + "|" + A.ToUppercase().str() + "|" + A.ToLowercase().str() + "|" + num((long long)A.size())); std::ostringstream os; os << A; put("<<", os.str()); tr("data()", [&] { return String(A.data()).str(); });
        std::istringstream is(std::string(a) + "\nrest"); String x, y; is >> x >> y; put(">>", x.str() + "|" + y.str());
        tr("space", [&] { return num(IsNumber(A)) + num((long long)FindFirstNonSpace(A)) + num((long long)FindLastNonSpace(A)); }); tr("escape", [&] { return EscapeString(A).str(); }); tr("repeat", [&] { return Repeat(a, 3); });
        for (char dl : {',', '.', ' ', '\xC3', 'i'}) tr("split", [&] { std::string r; for (auto& q : Split(a, dl)) r += q + "|"; return r; });
        for (auto b : W) { String B(b); tr(std::string(a) + " with " + b, [&] { std::string r; r += A < B ? '<' : A == B ? '=' : '>'; r += A < b ? '<' : '.'; r += A <= B ? '1' : '0'; r += A != B ? '1' : '0'; r += num((long long)A.Find(B)) + " " + num((long long)A.ReverseFind(B)) + num(A.StartsWith(B)) + num(A.EndsWith(B)) + (A + B).str(); return r; }); } }
    for (int a = 0x80; a < 0x100; ++a) for (const char* tail : {"", "\x80", "\xA9", "\x85\xA0", "A", "\x9F\x98\x80", "\xFF"}) { std::string s(1, (char)a); s += tail; tr("bytes", [&] { String d(s.c_str()); return d.str() + num((long long)d.size()); }); tr("append", [&] { String d("x"); d += s.c_str(); return d.str() + num((long long)d.size()); }); tr("Char", [&] { return Char(s.c_str()).str(); }); tr("compare", [&] { return std::string(String("\xC3\xA9") == s.c_str() ? "1" : "0"); }); }
    for (const char* s : {"\\u00e9", "\\u00E9", "\\u0131", "\\ud83d\\ude00", "\\u00i9", "\\\"", "\\n\\t\\r", "\\x41", "\\\xC3\xA9", "\\i", "\\I"}) tr(std::string("escape ") + s, [&] { return EscapeString(String(s)).str(); });
    for (const char* s : {"0", "12", "1,2", "1.2", "-1", "\xD9\xA1", "1\xC2\xA0", "\xC2\xB2", "1'000", "\xEF\xBC\x91"}) tr(std::string("number ") + s, [&] { return num(IsNumber(String(s))); });
    for (const char* s : {" \t x", "\xC2\xA0x", "\xC2\x85x", "\xE2\x80\x83x", "\xE3\x80\x80x", "\xA0x", "\x85x", "7 x", "\v\fx"}) tr(std::string("space ") + s, [&] { return num((long long)FindFirstNonSpace(String(s))) + " " + num((long long)FindLastNonSpace(String(s))); });
}
static std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return "(none)"; std::string r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void p_files() {
    std::string p = dir() + "/caf\xC3\xA9 1,5.txt"; remove(p.c_str());
    static const char* const T[] = {"plain", "1,234.5", "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80", "\xA0\x85\xFF", "i I \xC4\xB0\xC4\xB1", "a\r\nb\nc", ""};
    for (auto t : T) for (auto u : T) {
        tr("write", [&] { File f{String(p)}; f.Open(); f.Write(t); f.AppendLine(String(u)); f.Append("{} {:.2f} {}", 1234567, 1234.5, true); f.AppendLine("{:>12}", -9876543.25); f.Close(); return slurp(p); });
        tr("read", [&] { File f{String(p)}; f.Open(); std::string r = f.Read().str(); f.Close(); return r; });
        tr("lines", [&] { File f{String(p)}; f.Open(); std::string r; for (int i = 0; i < 12 && !f.IsEof(); ++i) r += f.ReadLine().str() + "|"; f.Close(); return r; });
        tr("fields", [&] { File f{String(p)}; f.Open(); std::string r; for (int i = 0; i < 12 && !f.IsEof(); ++i) r += f.ReadLine(',').str() + "|"; f.Close(); return r; });
        tr("seek", [&] { File f{String(p)}; f.Open(); f.SetPosition(3); std::string r = f.Read().str(); f.WriteLine("{}", 1000000); f.Close(); return r + slurp(p); });
        tr("erase", [&] { File f{String(p)}; f.Open(); f.Erase(); f.Close(); return slurp(p); });
    }
    tr("name", [&] { std::string q = dir() + "/x1000-2.50"; remove(q.c_str()); File f(String((dir() + "/x{}-{:.2f}").c_str()), 1000, 2.5); f.Open(); f.Write("here"); f.Close(); std::string r = slurp(q); remove(q.c_str()); return r; }); remove(p.c_str());
}
static void p_streams() {
    auto with = [&](std::ostream& o, std::streambuf* s, const std::function<void()>& f) { std::ostringstream os; std::streambuf* old = o.rdbuf(os.rdbuf()); (void)s; tr("output", [&] { f(); return os.str(); }); o.rdbuf(old); };
    for (int imbued = 0; imbued < 2; ++imbued) {
        if (imbued) { std::cout.imbue(std::locale()); std::cerr.imbue(std::locale()); std::clog.imbue(std::locale()); std::cin.imbue(std::locale()); }
        with(std::cout, nullptr, [] { OutputStream::Write("{} {:.2f}", 1234567, 1234.5); OutputStream::WriteLine("{:>12}", 0.25); OutputStream::Write(String("1,5")); OutputStream::WriteLine(BigInteger("1234567")); OutputStream::WriteLine(BigFloat("1234567.5")); OutputStream::Write(WithStr()); OutputStream::Write(WithToString()); OutputStream::WriteLine(); });
        with(std::cerr, nullptr, [] { ErrorStream::Write("{} {:.2f}", 1234567, 1234.5); ErrorStream::WriteLine("{:>12}", 0.25); ErrorStream::WriteLine(BigInteger("1234567")); });
        with(std::clog, nullptr, [] { LogStream::Write("{} {:.2f}", 1234567, 1234.5); LogStream::WriteLine("{:>12}", 0.25); LogStream::WriteLine(BigFloat("1234567.5")); });
        with(std::cout, nullptr, [] { std::istringstream is("1,5 \xC3\x85\xC2\xA0x\n\xC3\xA9q\n7 7\n"); std::streambuf* old = std::cin.rdbuf(is.rdbuf()); std::string r = InputStream::ReadLine("{:.1f}?", 1000.5).str(); r += "|"; r += InputStream::ReadChar("{}", 10000).str(); r += "|"; r += InputStream::ReadLine().str(); std::cin.rdbuf(old); OutputStream::Write(String(r)); });
    }
    std::ostringstream os; os.imbue(std::locale()); JsonDocument d; d["v"] = 1234.5; d["w"] = (Int64)1234567; os << BigInteger("1234567") << ' ' << BigFloat("1234567.5") << ' ' << String("1234") << ' ' << Char('7') << ' ' << d; put("imbued stream", os.str());
    std::istringstream is("{\"v\": 1234.5, \"w\": 1000000}"); is.imbue(std::locale()); is >> d; put("imbued input", d.ToString().str()); std::istringstream it("\xC3\x85 7 x\nnext"); it.imbue(std::locale()); String s; it >> s; put("imbued text", s.str());
    StringBuilder b; b.Append(String("1,5")); b.Append("{} {}", 1000000, 2.5); b.AppendLine(String("x")); StringBuilder c(b); c.Append("{:.3f}", 1e6); StringBuilder m(std::move(b)); put("builder", c.str().str() + m.str().str());
}
static std::string& g_ran = *new std::string;
static void t_pass() { g_ran += "p"; ASSERT_EQ(1.5, 1.5); ASSERT_LT(1000, 2000); ASSERT_TRUE(String::Format("{:.1f}", 1000.5) == "1000.5"); BigFloat(2.5); g_ran += "P"; }
static void t_fail() { g_ran += "f"; ASSERT_EQ(String("\xC4\xB0"), String("i")); g_ran += "F"; } static void t_throw() { g_ran += "t"; throw std::runtime_error("1,5"); }
static void p_tests() {
    std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); for (int i = 0; i < 12; ++i) TestRegistry::Instance().AddTest(i % 2 ? "Suite" : "suite", String(i % 3 ? "\xC4\xB0x" : "Ix") + String(num(i)), i % 4 == 3 ? t_fail : i % 4 == 2 ? t_throw : t_pass); for (int i = 0; i < 1100; ++i) TestRegistry::Instance().AddTest("Many", String(num(i)), t_pass);
    int rc = TestRegistry::Instance().RunAll(); std::cout.rdbuf(old); put("ran", num(rc) + " " + g_ran); std::istringstream is(os.str()); std::string l; while (std::getline(is, l)) { size_t p = l.rfind(" ("); if (p != std::string::npos && l.find(" ms", p) != std::string::npos) l = l.substr(0, p); put("report", l); }
}
static void p_rest() {
    put("sizes", num((long long)MaxValue<Int64>()) + num((long long)MinValue<Int32>()) + bits(MaxValue<Double>())); std::map<String, int> m; for (const char* k : {"i", "I", "\xC4\xB0", "z", "\xC3\xA4", "A", "a", "_", "-", "1.5", "1,5"}) m[String(k)]++; std::string r; for (auto& x : m) r += x.first.str() + ";"; put("map order", r);
    std::map<Char, int> c; for (CodePoint k = 0x20; k < 0x200; ++k) c[Char(k)]++; r.clear(); for (auto& x : c) r += num(x.first.GetCodePoint()) + ";"; put("char order", r); r.clear(); for (auto& x : GetMapKeys(m)) r += x.str() + ";"; put("keys", r);
}
template <class E> static std::string ex(const E& x) { return x.HasValue() ? "v" + num(x.Get()) : "e" + x.GetError().str(); }
struct Counted { static int& live() { static int n = 0; return n; } int v; explicit Counted(int x = 0) : v(x) { ++live(); } Counted(const Counted& o) : v(o.v) { ++live(); } ~Counted() { --live(); } };
static void p_values() {
    using X = Expected<int, String>; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { auto mk = [](int k) { return k ? X(Unexpected<String>(String("bad i"))) : X(42); }; X a = mk(i), b = mk(j); put("expected", ex(a) + ex(b)); X c(a); X d(std::move(c)); b = a; put("assigned", ex(b) + ex(d)); a = std::move(d); put("moved", ex(a));
        put("map", ex(a.Map([](const int& v) { return v * 2; })) + ex(a.MapError([](const String& q) { return q + String("!"); })) + num(a.UnwrapOr(7)) + ex(a.OrElse([](const String&) { return X(9); })) + ex(a.AndThen([](const int& v) { return X(v + 1); })) + ex(a.Filter([](const int& v) { return v > 100; }))); tr("get", [&] { return num(a.Get()); }); tr("error", [&] { return a.GetError().str(); }); tr("expect", [&] { return num(a.Expect(String("why"))); }); }
    { SharedPtr<Counted> a(new Counted(5)), b(a), c; WeakPtr<Counted> w(a); put("shared", num(a->v) + num(a.Get() == b.Get()) + num(a == b) + num(c == nullptr) + num(w.expired())); c = std::move(a); b = c; put("moved", num(c.Get() == b.Get()) + num(a == nullptr) + num(w.lock()->v)); c = SharedPtr<Counted>(); b = SharedPtr<Counted>(); put("released", num(w.expired()) + num(w.lock() == nullptr) + num(Counted::live())); tr("expired", [&] { return num(w->v); }); }
    { UniquePtr<Counted> a(new Counted(6)), b; b = std::move(a); put("unique", num(b->v) + num(a == nullptr) + num(Counted::live())); tr("null", [&] { return num(a->v); }); } put("left", num(Counted::live()));
    static const long long S[] = {-9223372036854775807ll - 1, -2147483648ll, -32768, -128, -1, 0, 1, 127, 128, 255, 256, 65535, 2147483647, 4294967295ll, 9223372036854775807ll};
    for (long long x : S) for (long long y : S) { std::string r; auto t = [&](bool q) { r += q ? '1' : '0'; }; unsigned long long u = (unsigned long long)y; t(cmp_eq(x, u)); t(cmp_ne(x, u)); t(cmp_less(x, u)); t(cmp_greater(x, u)); t(cmp_le(x, u)); t(cmp_ge(x, u)); t(cmp_less((int)x, (unsigned short)y)); t(cmp_eq((signed char)x, (unsigned char)y)); t(cmp_ge((short)x, (int)y)); t(cmp_greater((unsigned)x, (signed char)y)); put(num(x) + " and " + num(y), r); }
    for (long long x : S) { put("random", num(Random<Int64>(x, x)) + num(Random<Int32>((Int32)x, (Int32)x)) + num(Random<UInt16>((UInt16)x, (UInt16)x)) + bits(Random<Double>((double)x, (double)x))); bool in = true; for (int i = 0; i < 50; ++i) { Int64 v = Random<Int64>(x < 0 ? x : 0, x < 0 ? 0 : x); in = in && (x < 0 ? v >= x && v <= 0 : v >= 0 && v <= x); } put("range", num(in)); } put("certain", num(RandomBoolean(1.0)) + num(RandomBoolean(0.0)));
    put("limits", num(MaxValue<Int8>()) + " " + num(MinValue<Int8>()) + " " + num((long long)MaxValue<UInt32>()) + " " + num(MinValue<Int64>()) + " " + bits(MinValue<Float>()) + bits(MinValue<Double>())); put("sizes", num((long long)SizeOf<Int64>(MemoryFormat::Bit)) + num((long long)SizeOf<Int16>()));
    put("kmp", num(kmp(std::string("aab"), std::string("aaaab"))) + num(kmp(std::string("\xC3\xA9"), std::string("caf\xC3\xA9"))) + num(kmp(std::string("\xFF\x80"), std::string("\x80\xFF"))));
    const char* av[] = {"prog", "--x=1,5", "\xC3\xA9", nullptr}; const Application* ap = Application::Initialize(3, av); std::string r; for (auto q : ap->GetArgs()) { r += q; r += '|'; } put("arguments", r);
}
struct Probe { const char* name; void (*f)(); };
#ifndef PROBES_NUMBERS
#define PROBES_NUMBERS (deep() ? 5u : 4u)
#endif
static void p_numbers() { p_json_numbers(PROBES_NUMBERS); }
static const Probe PROBES[] = {{"json printing", p_json_print}, {"json numbers", p_numbers}, {"json documents", p_json_documents}, {"format", p_format}, {"big integers", p_big_integer}, {"big floats", p_big_float}, {"characters", p_chars}, {"strings", p_strings}, {"files", p_files}, {"streams", p_streams}, {"tests", p_tests}, {"ordering", p_rest}, {"values", p_values}};
static const unsigned NP = sizeof PROBES / sizeof *PROBES;
}
