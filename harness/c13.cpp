#include "jref.hpp"
#include "sizes.hpp"
using namespace Caitlyn;
namespace hx {
using namespace jr;
static void one(mc::Exec& e, const std::string& t) { MC_LOG(e, "parse %s", mc::quote(t).c_str()); e.state(mc::Hash().s(t)); judge(e, t); }
template <size_t N> static std::string seq(mc::Exec& e, const char* const (&al)[N], unsigned maxlen) { std::string s; unsigned n = e.choose(maxlen + 1); for (unsigned i = 0; i < n; ++i) s += al[e.choose(N)]; return s; }
MC_SECTION(tokens_in_object) { static const char* const al[] = {"\"a\"", ":", ",", "1", "{", "}", "[", "]", "true", "null", "-2.5", " ", "\"\xC3\xA9\""}; e.op("tokens"); one(e, "{" + seq(e, al, mc::tier(5u, 6u)) + "}"); }
MC_SECTION(structure) { static const char* const al[] = {"\"a\":", "\"b\":", ",", "1", "{", "}", "[", "]"}; e.op("structure"); one(e, "{" + seq(e, al, mc::tier(6u, 8u)) + "}"); }
MC_SECTION(tokens_raw) { static const char* const al[] = {"{", "}", "[", "]", "\"a\"", ":", ",", "1", "true", "\n", "x"}; e.op("raw tokens"); one(e, seq(e, al, mc::tier(5u, 6u))); }
MC_SECTION(values) {              // every token sequence as a member value and as an element
    static const char* const al[] = {"[", "]", "{", "}", "\"k\":", ",", "7", "\"s\"", "false", "null", "\t"}; std::string s = seq(e, al, mc::tier(5u, 6u)); e.op("value"); one(e, "{\"m\":" + s + "}"); one(e, "{\"m\": [" + s + "], \"n\" : 2 }");
}
static std::vector<V> leaves() { return {V(), V::boolean(true), V::num(-7), V::real(2.5), V::str("x\"\xC3\xA9"), V::boolean(false)}; }
MC_SECTION(documents) {           // valid documents with whitespace everywhere it is allowed
    static const char* const sp[] = {"", " ", "\n\t", "\r \n"}; V v = gendoc(e, mc::tier(5u, 6u), leaves(), {"a", "b\xF0\x9F\x99\x82", "\\k"}, 3); e.op("document"); std::string w = e.pick(sp), t = w + text(v, w.c_str()) + w; one(e, t);
}
MC_SECTION(mutated_documents) {   // one byte of a valid document deleted, replaced or inserted
    static const char* const docs[] = {"{\"a\":[1,{\"b\":null}],\"c\":\"x\\n\"}", "{ \"a\" : { } , \"b\" : [ true , false ] }", "{\"n\":-1.5e+10,\"u\":\"\\u00e9\\\\\"}", "{\"\xC3\xA9\":[[],[[]]],\"s\":\"\"}", "{\"a\":{\"b\":{\"c\":{}}},\"d\":0}"};
    static const char ins[] = {'{', '}', '[', ']', ',', ':', '"', '\\', '0', '-', '.', 'e', 't', ' ', 'u', '\n'}; std::string t = docs[e.choose(5)]; size_t p = e.choose(t.size()); unsigned k = e.choose(3); e.op("mutate");
    std::vector<size_t> pos; for (size_t i = 0; i < t.size(); ++i) if (((unsigned char)t[i] & 0xC0) != 0x80) pos.push_back(i); if (p >= pos.size()) return; size_t b = pos[p], n = p + 1 < pos.size() ? pos[p + 1] - b : t.size() - b;
    if (k == 0) t.erase(b, n); else if (k == 1) t.replace(b, n, 1, e.pick(ins)); else t.insert(b, 1, e.pick(ins)); one(e, t);
}
MC_SECTION(strings) {             // every body, as a value and as a key
    static const char* const al[] = {"a", "\\", "\"", "/", "n", "u", "0", "b", "\xC3\xA9", "\xF0\x9F\x99\x82", " ", "}"}; std::string s = seq(e, al, mc::tier(4u, 5u)); e.op("string body"); one(e, "{\"k\":\"" + s + "\"}"); one(e, "{\"" + s + "\":1}");
}
MC_SECTION(escapes) { static const char* const esc[] = {"\\n", "\\t", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude42", "x", "\xC3\xA9", "\\x", "\\u12g4"}; std::string s = seq(e, esc, mc::tier(4u, 5u)); e.op("escapes"); one(e, "{\"k\":[\"" + s + "\",1]}"); }
MC_SECTION(unicode_escapes) { unsigned c = e.choose(65536); e.op("\\u"); std::string t = "{\"k\":\"<" + mc::strf(e.flag() ? "\\u%04x" : "\\u%04X", c) + ">\"}"; one(e, t); }
MC_SECTION(surrogates) { unsigned step = mc::tier(29u, 5u); unsigned h = 0xD800 + step * e.choose(1024 / step), l = 0xDC00 + step * e.choose(1024 / step); e.op("surrogate pair"); one(e, "{\"k\":\"" + mc::strf("\\u%04x\\u%04x", h, l) + "\"}"); }
MC_SECTION(numbers) { static const char* const al[] = {"0", "1", "9", "-", "+", ".", "e", "E"}; std::string s = seq(e, al, mc::tier(6u, 7u)); if (s.empty()) return; e.op("number"); one(e, "{\"k\":" + s + "}"); if (s.size() <= 4) one(e, "{\"\xE4\xB8\x96\":[" + s + " ," + s + "]}"); }
MC_SECTION(number_values) {
    static const char* const in[] = {"0", "7", "10", "255", "2147483647", "2147483648", "4294967296", "9007199254740993", "999999999999999999", "9223372036854775807", "9223372036854775808", "92233720368547758070"}; static const char* const fr[] = {"", ".5", ".125", ".0", ".000001", ".999999999", ".1"}; static const char* const ex[] = {"", "e0", "e1", "E+2", "e-3", "e10", "e-10", "e25", "e-25", "e38", "e39", "e400", "e-400"}; static const char* const sg[] = {"", "-"};
    std::string s = e.pick(sg); s += e.pick(in); s += e.pick(fr); s += e.pick(ex); e.op("number value"); one(e, "{\"k\":" + s + ",\"z\":[" + s + "]}");
}
MC_SECTION(literals) { static const char* const al[] = {"t", "r", "u", "e", "f", "a", "l", "s", "n"}; std::string s; unsigned n = e.choose(mc::tier(5u, 6u)); for (unsigned i = 0; i < n; ++i) s += e.pick(al); e.op("literal"); one(e, "{\"k\":" + s + "}"); }
MC_SECTION(literal_context) { static const char* const lit[] = {"true", "false", "null", "True", "nul", "truee", "fals", "nulll", "TRUE", "t", "f", "n"}; static const char* const pre[] = {"\"a\":1,", "\"\xC3\xA9\":\"\xE4\xB8\x96\",", "\"\xF0\x9F\x99\x82\":[],", ""}; static const char* const post[] = {"", " ", ",\"z\":0", "\n"}; std::string t = "{"; t += e.pick(pre); t += "\"k\":"; bool arr = e.flag(); if (arr) t += "["; t += e.pick(lit); if (arr) { t += ","; t += e.pick(lit); t += "]"; } t += e.pick(post); e.op("literal"); one(e, t + "}"); }
MC_SECTION(wide_and_deep) {
    static const unsigned ns[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200}; unsigned n = e.pick(ns), k = e.choose(7); std::string t = "{\"r\":"; e.op("scaled document");
    if (k == 0) { t += "["; for (unsigned i = 0; i < n; ++i) t += (i ? "," : "") + std::to_string(i); t += "]"; }
    else if (k == 1) { t += "{"; for (unsigned i = 0; i < n; ++i) t += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + std::to_string(i * 3); t += "}"; }
    else if (k == 2) { t += std::string(n, '[') + std::string(n, ']'); }
    else if (k == 3) { for (unsigned i = 0; i < n; ++i) t += "{\"d\":"; t += "1" + std::string(n, '}'); }
    else if (k == 4) { t += "\""; for (unsigned i = 0; i < n; ++i) t += i % 3 == 0 ? "a" : i % 3 == 1 ? "\\n" : "\xC3\xA9"; t += "\""; }
    else if (k == 5) { for (unsigned i = 0; i < n; ++i) t += i % 2 ? "[1," : "{\"q\":true,\"p\":"; t += "null"; for (unsigned i = n; i-- > 0;) t += i % 2 ? ",\"x\"]" : "}"; }
    else { t += std::string(n, ' ') + "[" + std::string(n, '\n') + "1" + std::string(n, '\t') + "]"; }
    one(e, t + "}");
}
MC_SECTION(duplicates) { static const char* const ks[] = {"\"a\"", "\"b\"", "\"\\u0061\"", "\"\""}; std::string t = "{"; unsigned n = e.choose(5); for (unsigned i = 0; i < n; ++i) { if (i) t += ","; t += e.pick(ks); t += ":" + std::to_string(i); } e.op("duplicate names"); one(e, t + "}"); }
// the same document through JSON_STRING, every MakeDocument, the constructors, the assignments and the streams
#define L(...) {#__VA_ARGS__, [] { return JSON_STRING(__VA_ARGS__); }}
static const struct { const char* text; Doc (*make)(); } lits[] = {L({}), L({"a": 1}), L({"a": [1, 2, {"b": null}], "c": "x\ny"}), L({"k" : "a,b \"q\" \\ \u00e9", "n": -1.5e3}), L({ "t" : true , "f" : false , "o" : { } , "e" : [ ] }), L({"a": "  two  blanks  ", "b": "(", "c": ")"}), L({"s": "\/\b\f\n\r\t\ud83d\ude42"}), L({"": 0}), L({"a": {"a": {"a": [[[]]]}}}), L({"broken": }), L([1]), L({"a": tru}), L()};
#undef L
MC_SECTION(entry_points) {
    unsigned k = e.choose(sizeof lits / sizeof *lits), how = e.choose(11); std::string t = lits[k].text; static const char* const nm[] = {"JSON_STRING", "MakeDocument(text)", "MakeDocument(const document&)", "MakeDocument(document&&)", "MakeDocument(ifstream)", "JsonDocument(text)", "document = text", "document = ifstream", "document >> ", "Parse(text)", "Parse(ifstream)"};
    e.op(nm[how]); MC_LOG(e, "%s of %s", nm[how], mc::quote(t).c_str()); e.state(mc::Hash().u(k).u(how)); e.transition(); std::string f = mc::scratch() + "/d.json"; { std::ofstream o(f, std::ios::binary); o << t; } std::ifstream in(f, std::ios::binary); std::istringstream is(t); String s(t.c_str());
    Doc old; old["old"] = 1; const Doc src(s); Doc tmp(s);
    switch (how) { case 6: old = s; break; case 7: old = in; break; case 8: is >> old; break; case 9: old.Parse(s); break; case 10: old.Parse(in); break; default: break; }
    Doc d = how == 0 ? lits[k].make() : how == 1 ? Json::MakeDocument(s) : how == 2 ? Json::MakeDocument(src) : how == 3 ? Json::MakeDocument(std::move(tmp)) : how == 4 ? Json::MakeDocument(in) : how == 5 ? Doc(s) : old;
    V v; Verdict w = parse(t, v); status(e, d, t); if (w != OPEN) e.check(d.HasError() == (w == INVALID), "entry-verdict", "%s of %s is %s", nm[how], mc::quote(t).c_str(), d.HasError() ? "rejected" : "accepted"); if (w == VALID) { std::string r = diff(d, v); e.check(r.empty(), "entry-value", "%s of %s: %s", nm[how], mc::quote(t).c_str(), r.c_str()); r = diff(src, v); e.check(r.empty(), "entry-source", "source after %s: %s", nm[how], r.c_str()); }
    e.check(d.GetError() == src.GetError(), "entry-error", "%s of %s reports %s instead of %s", nm[how], mc::quote(t).c_str(), d.GetErrorString().str().c_str(), src.GetErrorString().str().c_str()); e.outcome(mc::Hash().u(w).u(how));
}
MC_SECTION(scale, true, false, 0, true, 60) {            // texts whose parts are as long as each power of two
    unsigned n = e.pick(kScale), k = e.choose(8); if (k == 1 && n > mc::tier(1100u, 5000u)) return; std::string t = "{\"r\":"; e.op("long parts"); MC_LOG(e, "size %u, kind %u", n, k); e.state(mc::Hash().u(n).u(k));
    switch (k) {
    case 0: t += "["; for (unsigned i = 0; i < n; ++i) t += (i ? "," : "") + std::to_string(i % 10); t += "]"; break;
    case 1: t += "{"; for (unsigned i = 0; i < n; ++i) t += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + std::to_string(i * 3); t += "}"; break;
    case 2: t += "\"" + std::string(n, 's') + "\""; break;
    case 3: t += "\""; for (unsigned i = 0; i < n; ++i) t += i % 3 == 0 ? "a" : i % 3 == 1 ? "\\n" : "\\u00e9"; t += "\",\"after\":[1]"; break;
    case 4: t += "0,\"" + std::string(n, 'k') + "\":7"; break;
    case 5: t += std::string(n, ' ') + "7" + std::string(n, '\n') + ",\"q\":8"; break;
    case 6: t += std::string(n, ' ') + "[1,2"; break;                                       // broken far into the text
    case 7: t += "\"" + std::string(n, 's'); break;
    }
    judge(e, t + "}");
}
}
