#include "mc.hpp"
#include "sizes.hpp"
#include "utf8.hpp"
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
namespace hx {
typedef std::vector<std::string> C;

enum Kind { EXACT, ERROR, ANY };
struct R { Kind k; std::string s; };
static bool dig(const std::string& c) { return c.size() == 1 && c[0] >= '0' && c[0] <= '9'; }
static bool numeric(const std::string& v) { size_t i = v.size() && v[0] == '-'; size_t d = 0, f = 0; for (; i < v.size() && isdigit((unsigned char)v[i]); ++i) ++d; if (i < v.size() && v[i] == '.') { ++i; for (; i < v.size() && isdigit((unsigned char)v[i]); ++i) ++f; if (!f) return false; } return d && i == v.size(); }

// [fill]align, width, .precision, type; ANY when the text is outside the documented grammar
static R apply(const C& f, const std::string& val) {
    size_t i = 0; auto al = [&](size_t k) { return k < f.size() && (f[k] == "<" || f[k] == ">" || f[k] == "^"); };
    std::string fill = " "; char align = '<';
    if (al(1)) { fill = f[0]; align = f[1][0]; i = 2; } else if (al(0)) { align = f[0][0]; i = 1; }
    if (fill == "{") return {ANY, ""};
    size_t width = 0; long prec = -1; char type = 's';
    if (i < f.size() && f[i] == "0") return {ANY, ""};
    while (i < f.size() && dig(f[i])) { width = width * 10 + (f[i][0] - '0'); ++i; if (width > 1000000) return {ANY, ""}; }
    if (i < f.size() && f[i] == ".") { ++i; if (i >= f.size() || !dig(f[i])) return {ANY, ""}; prec = 0; while (i < f.size() && dig(f[i])) { prec = prec * 10 + (f[i][0] - '0'); ++i; if (prec > 1000000) return {ANY, ""}; } }
    if (i < f.size() && (f[i] == "s" || f[i] == "d" || f[i] == "f")) { type = f[i][0]; ++i; }
    if (i != f.size()) return {ANY, ""};
    if (prec >= 0 && type != 'f') return {ANY, ""};
    std::string v = val;
    if (type == 'f' && prec >= 0) {
        if (!numeric(v)) return {ANY, ""};
        size_t dot = v.find('.'); std::string ip = v.substr(0, dot), fp = dot == std::string::npos ? "" : v.substr(dot + 1);
        fp.resize((size_t)prec, '0'); v = prec ? ip + "." + fp : ip;
    }
    C vc; ref::split(v, vc);
    if (vc.size() < width) {
        size_t pad = width - vc.size(), l = align == '<' ? 0 : align == '>' ? pad : pad / 2; std::string o;
        for (size_t k = 0; k < l; ++k) o += fill; o += v; for (size_t k = l; k < pad; ++k) o += fill; v = o;
    }
    return {EXACT, v};
}
static R model(const C& t, const C& args) {
    std::string out; size_t next = 0; bool any = false;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == "{") {
            if (i + 1 < t.size() && t[i + 1] == "{") { out += "{"; i += 2; continue; }
            size_t e = i + 1; while (e < t.size() && t[e] != "}") ++e;
            if (e == t.size()) return {any ? ANY : ERROR, ""};
            C sp(t.begin() + i + 1, t.begin() + e); i = e + 1;
            size_t idx, p = 0;
            if (!sp.empty() && dig(sp[0])) {
                idx = 0; while (p < sp.size() && dig(sp[p])) { if (idx < 1000000) idx = idx * 10 + (sp[p][0] - '0'); ++p; }
                if (idx >= args.size()) return {any ? ANY : ERROR, ""};
            } else {
                if (!sp.empty() && sp[0] != ":") { any = true; if (args.size() > 1) ++next; continue; }
                idx = args.size() == 1 ? 0 : next++;
                if (idx >= args.size()) return {any ? ANY : ERROR, ""};
            }
            if (p == sp.size()) { out += args[idx]; continue; }
            if (sp[p] != ":") { any = true; continue; }
            R r = apply(C(sp.begin() + p + 1, sp.end()), args[idx]);
            if (r.k != EXACT) { any = true; continue; }
            out += r.s;
        } else if (t[i] == "}") {
            if (i + 1 < t.size() && t[i + 1] == "}") { out += "}"; i += 2; continue; }
            return {any ? ANY : ERROR, ""};
        } else out += t[i++];
    }
    return {any ? ANY : EXACT, out};
}
static std::string call(const std::string& t, const C& a) {
    String f(t.c_str()); 
    switch (a.size()) {
    case 0: return String::Format(f).str();
    case 1: return String::Format(f, String(a[0].c_str())).str();
    case 2: return String::Format(f, String(a[0].c_str()), a[1].c_str()).str();
    case 3: return String::Format(f, String(a[0].c_str()), a[1].c_str(), String(a[2].c_str())).str();
    default: { const char* p[12]; for (size_t i = 0; i < 12; ++i) p[i] = i < a.size() ? a[i].c_str() : ""; return String::Format(f, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11]).str(); }
    }
}
static void one(mc::Exec& e, const C& t, const C& args) {
    std::string T = ref::join(t); R w = model(t, args); bool threw = false; std::string got, what;
    e.op("String::Format"); e.transition(); e.state(mc::Hash().s(T).u(args.size()));
    MC_LOG(e, "Format(%s) with %zu argument(s)", mc::quote(T).c_str(), args.size());
    try { got = call(T, args); } catch (const std::exception& x) { threw = true; what = x.what(); }
    e.outcome(mc::Hash().u(w.k).u(threw).u(got.size()));
    if (w.k == EXACT && threw) e.fail("format-throws", "Format(%s) with %zu arguments threw (%s) instead of giving %s", mc::quote(T).c_str(), args.size(), what.c_str(), mc::quote(w.s).c_str());
    if (w.k == EXACT && got != w.s) e.fail("format-value", "Format(%s) with %zu arguments = %s instead of %s", mc::quote(T).c_str(), args.size(), mc::quote(got).c_str(), mc::quote(w.s).c_str());
    if (w.k == ERROR && !threw) e.fail("format-accepts", "Format(%s) with %zu arguments gave %s instead of raising a format error", mc::quote(T).c_str(), args.size(), mc::quote(got).c_str());
}
static const C kArgs[] = {{}, {"64.932698"}, {"x\xC3\xA9y", "-12"}, {"p", "7.25", "\xE4\xB8\x96"}, {"A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "A9", "A10", "3.5"}};

static const char* al[] = {"{", "}", ":", ".", "f", "0", "1", "2", "5", "a", "<", ">", "^", "*", "s", "d", "\xC3\xA9"};
MC_SECTION(all_templates) {
    unsigned n = e.choose(mc::tier(5u, 6u)); C t;
    for (unsigned i = 0; i < n; ++i) t.push_back(e.pick(al));
    for (unsigned a = 0; a < 4; ++a) one(e, t, kArgs[a]);
}
MC_SECTION(placeholder_bodies) {        // every text between one pair of braces, with context around it
    unsigned n = e.choose(mc::tier(5u, 6u)); C t; t.push_back("{");
    for (unsigned i = 0; i < n; ++i) t.push_back(e.pick(al));
    t.push_back("}"); for (unsigned a = 0; a < 4; ++a) one(e, t, kArgs[a]);
}
MC_SECTION(braces) {
    static const char* al[] = {"{", "}", "0", "1", ":", "a"};
    unsigned n = e.choose(mc::tier(8u, 10u)); C t; for (unsigned i = 0; i < n; ++i) t.push_back(e.pick(al));
    for (unsigned a = 0; a < 4; ++a) one(e, t, kArgs[a]);
}
// one placeholder with every combination of the documented specification
MC_SECTION(specifications) {
    static const char* idx[] = {"", "0", "1", "2", "10", "11", "12"};
    static const char* fill[] = {"", "*", "-", "\xC3\xA9", "<", "5", ":", "."};
    static const char* al[] = {"", "<", ">", "^"};
    static const char* wid[] = {"", "1", "4", "5", "9", "10", "25", "100", "257"};
    static const char* prec[] = {"", ".0", ".1", ".2", ".4", ".6", ".9", ".12"};
    static const char* ty[] = {"", "s", "d", "f"};
    unsigned a = e.choose(5); std::string f = e.pick(fill), g = e.pick(al); if (g.empty()) f = "";
    std::string s = "[{" + std::string(e.pick(idx)) + ":" + f + g + e.pick(wid) + e.pick(prec) + e.pick(ty) + "}]";
    C t; ref::split(s, t); one(e, t, kArgs[a]);
}
// sequences of placeholders: which argument each of them takes
MC_SECTION(sequences) {
    static const char* seg[] = {"{}", "{0}", "{1}", "{2}", "{11}", "{:<4}", "{:>6}", "{1:*^5}", "{0:3}", "{:.1f}", "{11:.3f}", "{:d}", "{{", "}}", "t ", "\xF0\x9F\x99\x82"};
    unsigned a = e.choose(5), n = e.choose(mc::tier(5u, 6u)); std::string s; for (unsigned i = 0; i < n; ++i) s += e.pick(seg);
    C t; ref::split(s, t); one(e, t, kArgs[a]);
}
MC_SECTION(many_placeholders) {
    unsigned n = e.choose(80), kind = e.choose(5), a = e.choose(5); static const char* k[] = {"{}", "{1}", "{:5}", "ab{0}", "{{{}}}"};
    std::string s; for (unsigned i = 0; i < n; ++i) s += k[kind]; C t; ref::split(s, t); one(e, t, kArgs[a]);
}
struct HasStrT { std::string str() const { return "S!"; } };
struct HasToStr { std::string to_string() const { return "T!"; } };
struct HasToString { String ToString() const { return "U!"; } };
template <class T> static void num(mc::Exec& e, T v, const char* ty) {
    e.op(ty); e.transition(); std::string w = std::to_string(v); e.state(mc::Hash().s(w).s(ty));
    MC_LOG(e, "Format({}, %s %s)", ty, w.c_str());
    std::string g = String::Format("<{}>", v).str(); e.check(g == "<" + w + ">", "number", "Format of %s %s gives %s", ty, w.c_str(), g.c_str());
    g = String::Format("{:>12}{1}", v, v).str(); R r = apply({">", "1", "2"}, w); e.check(g == r.s + w, "number", "aligned Format of %s %s gives %s", ty, w.c_str(), g.c_str());
}
template <class T> static void ints(mc::Exec& e, const char* ty) {
    static const int k[] = {0, 1, -1, 9, 10, -10, 99, 100, 127}; unsigned i = e.choose(13);
    T v = i < 9 ? (T)k[i] : i == 9 ? std::numeric_limits<T>::max() : i == 10 ? std::numeric_limits<T>::min() : i == 11 ? (T)(std::numeric_limits<T>::max() - 1) : (T)(std::numeric_limits<T>::max() / 2);
    num<T>(e, v, ty);
}
MC_SECTION(argument_types) {
    switch (e.choose(12)) {
    case 0: ints<int>(e, "int"); break; case 1: ints<unsigned>(e, "unsigned"); break; case 2: ints<long>(e, "long"); break; case 3: ints<unsigned long>(e, "unsigned long"); break;
    case 4: ints<long long>(e, "long long"); break; case 5: ints<unsigned long long>(e, "unsigned long long"); break; case 6: ints<short>(e, "short"); break; case 7: ints<unsigned short>(e, "unsigned short"); break;
    case 8: { static const double d[] = {0, -0.0, 1, -1.5, 64.932698, 1e10, -123456.789, 1e-7, 0.1, 999999.9999999}; unsigned i = e.choose(10); num<double>(e, d[i], "double");
        std::string g = String::Format("{:.2f}", d[i]).str(), w = apply({".", "2", "f"}, std::to_string(d[i])).s; e.check(g == w, "double-prec", "{:.2f} of %f gives %s", d[i], g.c_str()); break; }
    case 9: { static const float d[] = {0, 1, -1.5f, 64.5f, 1e10f}; num<float>(e, d[e.choose(5)], "float"); break; }
    case 10: e.op("bool"); e.check(String::Format("{} {}", true, false).str() == "true false", "bool", "bool formatting gives %s", String::Format("{} {}", true, false).str().c_str()); break;
    case 11: { e.op("string-like"); std::string g = String::Format("{}{}{}{}", "c", std::string("s"), String("S"), Char("\xC3\xA9").str()).str(); e.check(g == "csS\xC3\xA9", "string-like", "string-like arguments give %s", g.c_str());
        g = String::Format("{0}{1}{2}", HasStrT(), HasToStr(), HasToString()).str(); e.check(g == "S!T!U!", "stringable", "stringable classes give %s", g.c_str()); break; }
    }
}
// widths, precisions, argument values and template texts next to the powers of two
MC_SECTION(scale, true, false, 0, true, 60) {
    unsigned n = e.pick(kScale), k = e.choose(9); C t; std::string s; C a = {"7.25"}; unsigned wide = k == 2 ? 1 : 0;
    switch (k) {
    case 0: s = mc::strf("[{:%u}]", n); break;
    case 1: s = mc::strf("[{:*>%u}]", n); break;
    case 2: s = mc::strf("[{0:\xC3\xA9^%u}]", n); a = {"\xE4\xB8\x96", "y"}; break;
    case 3: s = mc::strf("[{:.%uf}]", n); break;
    case 4: s = mc::strf("[{:>%u.%uf}]", n + 5, n); break;
    case 5: s = mc::strf("[{%u}]", n); a = {"a", "b", "c"}; break;                            // no such argument
    case 6: a = {std::string(n, 'v'), "y", std::string("w")}; s = "[{0}{1}{}]"; break;        // a long value
    case 7: s = std::string(n, 't') + "{}" + std::string(n, 'u') + "{0:>3}"; a = {"v"}; break; // long literal text
    case 8: a = {std::string(n - 1, 'v')}; s = mc::strf("[{:->%u}{:^%u}]", n, n + 1); break;    // a long value in a field one wider
    }
    (void)wide; ref::split(s, t); one(e, t, a);
}
MC_SECTION(far_indices) {       // an index that names no argument however it is truncated
    static const char* const ix[] = {"12", "13", "127", "128", "255", "256", "257", "268", "65535", "65536", "65537", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999"};
    std::string i = e.pick(ix); unsigned a = e.choose(5), f = e.choose(3); std::string s = "[{" + i + (f == 1 ? ":5" : f == 2 ? ":>3" : "") + "}]"; C t; ref::split(s, t); one(e, t, kArgs[a]);
}
MC_SECTION(thousands_of_placeholders, true, false, 0, true, 60) { unsigned n = e.pick(kScale), k = e.choose(3), a = 1 + e.choose(2); if (n > 5000 && mc::tier(1, 0)) return; static const char* const p[] = {"{0}", "{:2}", "{{"}; if (k == 1) a = 1; std::string s; for (unsigned i = 0; i < n; ++i) s += p[k]; C t; ref::split(s, t); one(e, t, kArgs[a]); }
} // namespace hx
