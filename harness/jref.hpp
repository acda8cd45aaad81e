// Reference model of JSON (RFC 8259): value tree, strict parser with an "open" verdict for texts the
// properties leave unspecified, comparison with the library's documents, enumeration of documents.
#pragma once
#include "mc.hpp"
#include "utf8.hpp"
#include <cfloat>
#include <cmath>
#include <fstream>
#include <sstream>
#include "Caitlyn/__Serializing/Json.h"
namespace jr {
typedef Caitlyn::Json::JsonClass K;
typedef Caitlyn::Json::__Detail::JsonData JD;
typedef Caitlyn::JsonDocument Doc;
struct V {
    K k = K::Null; std::string s; long long i = 0; double f = 0; bool b = false, fuzzy = false; std::vector<std::pair<std::string, V>> o; std::vector<V> a;
    static V str(const std::string& x) { V v; v.k = K::String; v.s = x; return v; } static V num(long long x) { V v; v.k = K::Integral; v.i = x; return v; } static V real(double x) { V v; v.k = K::Floating; v.f = x; return v; }
    static V boolean(bool x) { V v; v.k = K::Boolean; v.b = x; return v; } static V obj() { V v; v.k = K::Object; return v; } static V arr() { V v; v.k = K::Array; return v; }
    V& mem(const std::string& key) { if (k != K::Object) { V n = obj(); *this = n; } for (auto& m : o) if (m.first == key) return m.second; o.emplace_back(key, V()); return o.back().second; }
    V& el(size_t n) { if (k != K::Array) { V t = arr(); *this = t; } while (a.size() <= n) a.push_back(V()); return a[n]; }
    void push(V x) { if (k != K::Array) { V t = arr(); *this = t; } a.push_back(std::move(x)); }
    bool has(const std::string& key) const { if (k != K::Object) return false; for (auto& m : o) if (m.first == key) return true; return false; }
};
static inline uint64_t vh(const V& v) { mc::Hash h; h.u((int)v.k).s(v.s).u(v.i).u(v.b); uint64_t d; memcpy(&d, &v.f, 8); h.u(d); for (auto& m : v.o) h.s(m.first).u(vh(m.second)); h.u(v.a.size()); for (auto& x : v.a) h.u(vh(x)); return h; }
enum Verdict { VALID, INVALID, OPEN };
struct Parser {                       // strict; `open` is set where the outcome is left unspecified
    const std::string& t; size_t p = 0; bool open = false, deep = false; unsigned depth = 0, maxdepth = 0;
    explicit Parser(const std::string& x) : t(x) {}
    void ws() { for (;;) { if (p < t.size() && strchr(" \t\n\r", t[p])) { ++p; continue; } std::vector<std::string> c; if (p < t.size() && (t[p] == '\v' || t[p] == '\f' || t[p] == '\x1c')) { open = true; ++p; continue; } if (t.compare(p, 2, "\xC2\xA0") == 0) { open = true; p += 2; continue; } return; } }
    bool lit(const char* w) { size_t n = strlen(w); if (t.compare(p, n, w)) return false; p += n; return true; }
    static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    long h4(size_t q) { long v = 0; for (int i = 0; i < 4; ++i) { int h = q + i < t.size() ? hex(t[q + i]) : -1; if (h < 0) return -1; v = v * 16 + h; } return v; }
    bool string(std::string& o) {
        o.clear(); ++p;
        while (p < t.size() && t[p] != '"') {
            if ((unsigned char)t[p] < 0x20) { open = true; o += t[p++]; continue; }
            if (t[p] != '\\') { o += t[p++]; continue; }
            if (++p >= t.size()) return false;
            static const char k[] = "\"\\/bfnrt", v[] = "\"\\/\b\f\n\r\t"; const char* q = t[p] ? strchr(k, t[p]) : nullptr; if (q) { o += v[q - k]; ++p; continue; }
            if (t[p] != 'u') return false;
            long x = h4(p + 1); if (x < 0) return false; p += 5;
            if (x >= 0xD800 && x < 0xDC00 && t.compare(p, 2, "\\u") == 0) { long y = h4(p + 2); if (y >= 0xDC00 && y < 0xE000) { x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00); p += 6; } }
            if (x == 0 || (x >= 0xD800 && x < 0xE000)) open = true; o += ref::enc((uint32_t)x);
        }
        if (p >= t.size()) return false; ++p; return true;
    }
    bool number(V& v) {
        size_t b = p; while (p < t.size() && t[p] && strchr("0123456789+-.eE", t[p])) ++p; std::string n = t.substr(b, p - b); size_t i = 0; bool frac = false;
        if (i < n.size() && n[i] == '+') { open = true; ++i; } else if (i < n.size() && n[i] == '-') ++i;
        size_t d = i; while (i < n.size() && isdigit((unsigned char)n[i])) ++i; size_t nd = i - d; if (nd > 1 && n[d] == '0') open = true; size_t fd = 0;
        if (i < n.size() && n[i] == '.') { frac = true; size_t q = ++i; while (i < n.size() && isdigit((unsigned char)n[i])) ++i; fd = i - q; if (!nd || !fd) open = true; }
        if (nd + fd == 0) return false;
        if (i < n.size() && (n[i] == 'e' || n[i] == 'E')) { frac = true; ++i; if (i < n.size() && (n[i] == '+' || n[i] == '-')) ++i; size_t q = i; while (i < n.size() && isdigit((unsigned char)n[i])) ++i; if (i == q) return false; }
        if (i != n.size()) return false;
        errno = 0;
        if (frac) { double x = strtod(n.c_str(), nullptr); v = V::real(x); if (fabs(x) > 3.4e38 || (x != 0 && fabs(x) < 1.2e-38) || errno) open = true; if (x == 0) { for (char c : n) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') open = true; } } }
        else { v = V::num(strtoll(n.c_str(), nullptr, 10)); if (errno) open = true; }
        return true;
    }
    bool value(V& v) {
        ws(); if (p >= t.size()) return false; char c = t[p];
        if (c == '"') { v = V(); v.k = K::String; return string(v.s); }
        if (c == '{' || c == '[') { if (++depth > maxdepth) maxdepth = depth; if (depth > 1500) { deep = true; return false; } bool ok = c == '{' ? object(v) : array(v); --depth; return ok; }
        if (c == 't') { v = V::boolean(true); return lit("true"); } if (c == 'f') { v = V::boolean(false); return lit("false"); } if (c == 'n') { v = V(); return lit("null"); }
        if (c == '-' || c == '+' || isdigit((unsigned char)c)) return number(v);
        return false;
    }
    bool object(V& v) {
        v = V::obj(); ++p; ws(); if (p < t.size() && t[p] == '}') { ++p; return true; }
        for (;;) { ws(); if (p >= t.size() || t[p] != '"') return false; std::string key; if (!string(key)) return false; ws(); if (p >= t.size() || t[p] != ':') return false; ++p; V x; if (!value(x)) return false; v.mem(key) = x; ws(); if (p >= t.size()) return false; if (t[p] == ',') { ++p; continue; } if (t[p] == '}') { ++p; return true; } return false; }
    }
    bool array(V& v) {
        v = V::arr(); ++p; ws(); if (p < t.size() && t[p] == ']') { ++p; return true; }
        for (;;) { V x; if (!value(x)) return false; v.a.push_back(x); ws(); if (p >= t.size()) return false; if (t[p] == ',') { ++p; continue; } if (t[p] == ']') { ++p; return true; } return false; }
    }
};
static inline Verdict parse(const std::string& t, V& v) {     // documents: the root is an object
    Parser q(t); q.ws(); if (q.p >= t.size() || t[q.p] != '{') return INVALID; bool ok = q.value(v); if (ok) { q.ws(); ok = q.p == t.size(); }
    if (q.deep) return OPEN; if (!ok) return INVALID; return q.open || q.maxdepth > 256 ? OPEN : VALID;
}
// ---- comparison --------------------------------------------------------------------------------
static inline bool nearf(double got, double d) { return std::isfinite(got) && fabs(got - d) <= 6.0e-8 * fabs(d); }
static inline std::string show(const V& v) { std::ostringstream o; o.precision(17); switch (v.k) { case K::Null: o << "null"; break; case K::Boolean: o << (v.b ? "true" : "false"); break; case K::Integral: o << v.i; break; case K::Floating: o << v.f << 'f'; break; case K::String: o << mc::quote(v.s); break; case K::Array: { o << '['; for (auto& x : v.a) o << show(x) << ' '; o << ']'; break; } case K::Object: { o << '{'; for (auto& m : v.o) o << mc::quote(m.first) << ':' << show(m.second) << ' '; o << '}'; } } return o.str(); }
static inline std::string diff(const JD& d, const V& v, const std::string& at = "$") {  // "" if equal
    if (d.GetType() != v.k) return at + " has type " + std::to_string((int)d.GetType()) + " instead of " + std::to_string((int)v.k);
    if (d.IsNull() != (v.k == K::Null) || d.IsObject() != (v.k == K::Object) || d.IsArray() != (v.k == K::Array) || d.IsString() != (v.k == K::String) || d.IsFloating() != (v.k == K::Floating) || d.IsIntegral() != (v.k == K::Integral) || d.IsBoolean() != (v.k == K::Boolean)) return at + ": type queries disagree";
    if (d.GetString().str() != (v.k == K::String ? v.s : "")) return at + " is the string " + mc::quote(d.GetString().str());
    if (d.GetIntegral() != (v.k == K::Integral ? v.i : 0)) return at + " is " + std::to_string(d.GetIntegral());
    if (d.GetBoolean() != (v.k == K::Boolean && v.b)) return at + ": boolean value";
    if (v.k == K::Floating ? !nearf((double)d.GetFloating(), v.f) : d.GetFloating() != 0) return at + " is the real " + mc::strf("%.9g", (double)d.GetFloating());
    size_t n = v.k == K::Array ? v.a.size() : v.k == K::Object ? v.o.size() : (size_t)-1;
    if (v.k == K::Array || v.k == K::Object) if (d.Size() != n || d.Length() != n) return at + " has size " + std::to_string(d.Size()) + " instead of " + std::to_string(n);
    if (v.k == K::Array) for (size_t i = 0; i < n; ++i) { std::string r = diff(d.At(i), v.a[i], at + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
    if (v.k == K::Object) {
        size_t i = 0; JD c(d); for (auto& m : c.GetData()) { if (m.first.str() != v.o[i].first) return at + " member " + std::to_string(i) + " is named " + mc::quote(m.first.str()); ++i; }
        for (auto& m : v.o) { Caitlyn::String key(m.first.c_str()); if (!d.HasMember(key)) return at + " lacks member " + mc::quote(m.first); std::string r = diff(d.At(key), m.second, at + "." + m.first); if (!r.empty()) return r; }
    }
    return "";
}
static inline std::string diff(const Doc& d, const V& v) {
    if (d.GetType() != v.k) return "root has type " + std::to_string((int)d.GetType()); if (v.k != K::Object) return "";
    if (d.Size() != v.o.size()) return "root has " + std::to_string(d.Size()) + " members instead of " + std::to_string(v.o.size());
    for (auto& m : v.o) { Caitlyn::String key(m.first.c_str()); if (!d.HasMember(key)) return "root lacks member " + mc::quote(m.first); const Doc& c = d; std::string r = diff(c[key], m.second, "$." + m.first); if (!r.empty()) return r; }
    return "";
}
// ---- documents through the API -------------------------------------------------------------------
static inline JD build(const V& v) {
    switch (v.k) { case K::Null: return Caitlyn::Json::MakeNull(); case K::Boolean: return JD(v.b); case K::Integral: return JD((int64_t)v.i); case K::Floating: return JD((float)v.f); case K::String: return JD(v.s);
    case K::Array: { JD d = Caitlyn::Json::MakeArray(); for (auto& x : v.a) d.Append(build(x)); return d; }
    default: { JD d = Caitlyn::Json::MakeObject(); for (auto& m : v.o) d[Caitlyn::String(m.first.c_str())] = build(m.second); return d; } }
}
static inline Doc document(const V& v) { Doc d; for (auto& m : v.o) d.AddMember(Caitlyn::String(m.first.c_str()), build(m.second)); return d; }
static inline V gen(mc::Exec& e, unsigned& budget, const std::vector<V>& leaves, const std::vector<std::string>& keys, unsigned depth) {   // every tree with at most `budget` further nodes
    unsigned k = e.choose((unsigned)leaves.size() + (depth ? 2 : 0)); if (k < leaves.size()) return leaves[k];
    V v = k == leaves.size() ? V::obj() : V::arr(); unsigned n = 0;
    while (budget && n < keys.size() && e.flag()) { --budget; V x = gen(e, budget, leaves, keys, depth - 1); if (v.k == K::Object) v.o.emplace_back(keys[n], x); else v.a.push_back(x); ++n; }
    return v;
}
static inline V gendoc(mc::Exec& e, unsigned budget, const std::vector<V>& leaves, const std::vector<std::string>& keys, unsigned depth) { V v = V::obj(); unsigned n = 0; while (budget && n < keys.size() && e.flag()) { --budget; V x = gen(e, budget, leaves, keys, depth); v.o.emplace_back(keys[n++], x); } return v; }
static inline std::string squote(const std::string& s, int style = 0) { std::string o = "\""; for (auto& c : s) { unsigned char u = c; if (u == '"' || u == '\\') { o += '\\'; o += c; } else if (u < 0x20) o += mc::strf(style ? "\\u%04X" : "\\u%04x", u); else o += c; } return o + "\""; }
static inline std::string text(const V& v, const char* sp = "") {     // reference printer; `sp` is inserted at every place where whitespace is allowed
    std::string S = sp; switch (v.k) { case K::Null: return "null"; case K::Boolean: return v.b ? "true" : "false"; case K::Integral: return std::to_string(v.i); case K::Floating: { std::string n = mc::strf("%.9g", v.f); return n.find_first_of(".e") == std::string::npos ? n + ".0" : n; } case K::String: return squote(v.s);
    case K::Array: { std::string o = "[" + S; for (size_t i = 0; i < v.a.size(); ++i) o += (i ? "," + S : "") + text(v.a[i], sp) + S; return o + "]"; }
    default: { std::string o = "{" + S; for (size_t i = 0; i < v.o.size(); ++i) o += (i ? "," + S : "") + squote(v.o[i].first) + S + ":" + S + text(v.o[i].second, sp) + S; return o + "}"; } }
}
// ---- the judgement of one parse -------------------------------------------------------------------
static inline void status(mc::Exec& e, const Doc& d, const std::string& t) {
    bool er = d.HasError(); std::string m = d.GetErrorString().str();
    if (er != (d.GetError() != Caitlyn::Json::JsonError::NoError)) e.fail("status", "%s: HasError and GetError disagree", mc::quote(t).c_str());
    if (er && (m == "No error." || m.empty() || m == "Unknown error.")) e.fail("message", "%s: the error message is %s", mc::quote(t).c_str(), mc::quote(m).c_str());
    if (!er && m != "No error.") e.fail("message", "%s: no error but the message is %s", mc::quote(t).c_str(), mc::quote(m).c_str());
    if (er && (d.GetType() != K::Null || d.HasMember("a"))) e.fail("failed-content", "%s: a failed parse leaves content behind", mc::quote(t).c_str());
    if (!er && d.GetType() != K::Object) e.fail("root", "%s: parsed without error but the root is not an object", mc::quote(t).c_str());
}
static inline Verdict judge(mc::Exec& e, const std::string& t, bool values = true) {
    V v; Verdict w = parse(t, v); e.transition(); Doc d(Caitlyn::String(t.c_str())); status(e, d, t);
    if (w == VALID && d.HasError()) e.fail("reject", "valid text %s is rejected: %s", mc::quote(t).c_str(), d.GetErrorString().str().c_str());
    if (w == INVALID && !d.HasError()) e.fail("accept", "invalid text %s is accepted as %s", mc::quote(t).c_str(), mc::quote(d.ToString().str()).c_str());
    if (w == VALID && values) { std::string r = diff(d, v); if (!r.empty()) e.fail("value", "%s: %s", mc::quote(t).c_str(), r.c_str()); }
    e.outcome(mc::Hash().u(w).u((int)d.GetError())); return w;
}
}
