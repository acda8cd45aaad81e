#include "jref.hpp"
using namespace Caitlyn;
namespace hx {
using namespace jr;
static void safe(mc::Exec& e, const std::string& t) { MC_LOG(e, "parse %s", mc::quote(t.size() > 200 ? t.substr(0, 200) : t).c_str()); e.state(mc::Hash().s(t)); judge(e, t, false); }
static std::string word(mc::Exec& e, unsigned maxlen, unsigned nsym = 14) { static const char* const al[] = {"{", "}", "\"", ":", "[", "]", ",", "\\", "1", "u", "t", " ", "\xC3\xA9", "-", "e", ".", "n", "\n", "\x01", "/"}; std::string s; unsigned n = e.choose(maxlen + 1); for (unsigned i = 0; i < n; ++i) s += al[e.choose(nsym)]; return s; }
MC_SECTION(texts, true) { e.op("text"); safe(e, word(e, mc::tier(4u, 5u), 20)); }
MC_SECTION(open_texts, true) { e.op("text starting with {"); safe(e, "{" + word(e, mc::tier(5u, 6u))); }
MC_SECTION(closed_texts, true) { e.op("text in braces"); safe(e, "{" + word(e, mc::tier(4u, 5u), 20) + "}"); }
MC_SECTION(member_texts, true) { e.op("text after a name"); safe(e, "{\"a\":" + word(e, mc::tier(4u, 5u), 20) + "}"); }
MC_SECTION(string_texts, true) { e.op("text in a string"); std::string w = word(e, mc::tier(4u, 5u), 18); safe(e, "{\"a\":\"" + w + "}"); safe(e, "{\"" + w + "}"); }
static const char* const docs[] = {"{\"a\":[1,{\"b\":null}],\"c\":\"x\\n\"}", "{ \"a\" : { } , \"b\" : [ true , false ] }", "{\"n\":-1.5e+10,\"u\":\"\\u00e9\\ud83d\\ude42\"}", "{\"\xC3\xA9\":[[],[[]]],\"s\":\"\"}", "{\"a\":{\"b\":{\"c\":{}}},\"d\":0}", "{\"k\\\"q\":\"\\/\\\\\"}"};
static std::string cut(mc::Exec& e) {      // a valid document cut at both ends, optionally closed again
    std::string t = docs[e.choose(6)]; std::vector<size_t> pos; for (size_t i = 0; i < t.size(); ++i) if (((unsigned char)t[i] & 0xC0) != 0x80) pos.push_back(i); pos.push_back(t.size());
    size_t a = e.choose(pos.size()); size_t b = a + e.choose(pos.size() - a); static const char* const tail[] = {"", "}", "]", "\"}", " ", "\"", "}}", ":}", ",}", "\\}"}; static const char* const head[] = {"", "{", "{\""}; return e.pick(head) + t.substr(pos[a], pos[b] - pos[a]) + e.pick(tail);
}
MC_SECTION(truncations, true) { e.op("truncated document"); safe(e, cut(e)); }
static const char* const seqs[] = {"{}", "{\"a\":1}", "{\"a\":[1,{\"b\":\"s\"}]}", "", " ", "{", "}", "{\"a\":", "{\"a\":[1,2}", "{\"a\":{}", "{\"a\":tru}", "{\"a\":\"\\x\"}", "{\"a\":1e999}", "{\"a\":1,}", "x{}", "{\"a\" 1}", "{\"a\":\"unterminated}", "[1]", "{\"a\":[1,[2,{\"c\":}]]}", "{\"a\":1}x", "{\"b\":{\"a\":\"\xC3\xA9\"}}"};
MC_SECTION(reuse, true) {             // outcomes do not depend on what was parsed before
    Doc d; std::string log; unsigned n = mc::tier(3u, 4u);
    for (unsigned i = 0; i < n; ++i) {
        std::string t = seqs[e.choose(sizeof seqs / sizeof *seqs)]; unsigned how = e.choose(4); e.op("parse again"); MC_LOG(e, "%s %s", how == 0 ? "Parse" : how == 1 ? "operator=" : how == 2 ? "operator>>" : "ifstream", mc::quote(t).c_str()); V v; Verdict w = parse(t, v); String s(t.c_str());
        if (how == 0) d.Parse(s); else if (how == 1) d = s; else if (how == 2) { std::istringstream in(t); in >> d; } else { Doc c(d); Doc m(std::move(c)); d = m; d.Parse(s); }
        e.transition(); status(e, d, t); Doc f(s); if (f.HasError() != d.HasError() || f.GetError() != d.GetError() || f.ToString() != d.ToString()) e.fail("reuse", "parsing %s gives %s/%s in a used document and %s/%s in a new one", mc::quote(t).c_str(), d.GetErrorString().str().c_str(), d.ToString().str().c_str(), f.GetErrorString().str().c_str(), f.ToString().str().c_str());
        if (w != OPEN && d.HasError() != (w == INVALID)) e.fail("verdict", "%s is %s in a used document", mc::quote(t).c_str(), d.HasError() ? "rejected" : "accepted"); if (w == VALID) { std::string r = diff(d, v); if (!r.empty()) e.fail("value", "%s: %s", mc::quote(t).c_str(), r.c_str()); } e.state(mc::Hash().s(t).u(i)); e.outcome((int)d.GetError());
    }
}
MC_SECTION(failed_then_used, true) {  // a failed document is an empty one and can be filled again
    std::string t = seqs[e.choose(sizeof seqs / sizeof *seqs)]; MC_LOG(e, "parse %s, then edit", mc::quote(t).c_str()); e.op("edit after parse"); Doc d{String(t.c_str())}; bool er = d.HasError(); e.state(mc::Hash().s(t)); e.transition(3);
    d["z"] = 5; e.check(d.HasMember("z") && d["z"].GetIntegral() == 5, "edit", "the document cannot be edited after parsing %s", mc::quote(t).c_str()); if (er) e.check(d.Size() == 1 && d.ToString().str() == "{\"z\":5}", "edit", "after a failed parse the edited document is %s", d.ToString().str().c_str());
    const Doc& c = d; bool threw = false; try { (void)c["nope"]; } catch (const std::exception&) { threw = true; } e.check(threw, "missing", "reading a missing member of a read-only document does not throw"); d.RemoveMember("z"); e.check(!d.HasMember("z"), "edit", "RemoveMember"); e.outcome(er);
}
MC_SECTION(deep, true) {              // nesting far beyond any sensible depth, closed and unclosed
    static const unsigned ns[] = {1, 100, 256, 400, 999, 1000, 1001, 2000, 20000, 200000}; unsigned n = ns[e.choose(mc::tier(9u, 10u))]; unsigned k = e.choose(5); std::string t = "{\"a\":"; e.op("deep nesting"); e.beat();
    if (k == 0) t += std::string(n, '[') + std::string(n, ']') + "}"; else if (k == 1) { for (unsigned i = 0; i < n; ++i) t += "{\"a\":"; t += "1" + std::string(n, '}') + "}"; } else if (k == 2) t += std::string(n, '[') + "}"; else if (k == 3) { for (unsigned i = 0; i < n; ++i) t += "[{\"a\":"; t += "}"; } else t += "1" + std::string(n, '}'); safe(e, t);
}
MC_SECTION(files, true) {             // the stream and file entry points on every status
    std::string t = seqs[e.choose(sizeof seqs / sizeof *seqs)], dir = mc::scratch() + "/j.json"; { std::ofstream o(dir, std::ios::binary); o << t; } e.op("ifstream"); MC_LOG(e, "parse file containing %s", mc::quote(t).c_str()); e.state(mc::Hash().s(t)); e.transition(4); Doc ref{String(t.c_str())};
    { std::ifstream in(dir); Doc d(in); status(e, d, t); e.check(d.GetError() == ref.GetError() && d.ToString() == ref.ToString(), "file", "JsonDocument(ifstream) on %s", mc::quote(t).c_str()); } { std::ifstream in(dir); Doc d; d["x"] = 1; d = in; e.check(d.GetError() == ref.GetError() && d.ToString() == ref.ToString(), "file", "= ifstream on %s", mc::quote(t).c_str()); } { std::ifstream in(dir); Doc d = Json::MakeDocument(in); e.check(d.GetError() == ref.GetError(), "file", "MakeDocument(ifstream)"); } { std::ifstream in(dir); Doc d; in >> d; e.check(d.GetError() == ref.GetError() && d.ToString() == ref.ToString(), "file", ">> on %s", mc::quote(t).c_str()); }
    std::ifstream none(dir + ".missing"); Doc d(none); status(e, d, ""); e.check(d.HasError(), "file", "a missing file parses without error"); e.outcome((int)ref.GetError());
}

typedef Json::JsonError JE;
struct Fault { const char* text; std::initializer_list<JE> code; };
static void coded(mc::Exec& e, const std::string& t, const Fault& f, const char* what) {
    MC_LOG(e, "parse %s", mc::quote(t.size() > 200 ? t.substr(0, 200) : t).c_str()); e.state(mc::Hash().s(t)); e.transition(3); Doc d{String(t.c_str())}; status(e, d, t); bool ok = false; for (JE c : f.code) ok = ok || d.GetError() == c;
    if (!ok) e.fail("code", "%s: %s is reported as error %d: %s", what, mc::quote(t.size() > 200 ? t.substr(0, 200) : t).c_str(), (int)d.GetError(), d.GetErrorString().str().c_str()); e.outcome((int)d.GetError());
}
MC_SECTION(faulty_values, true) {     // one fault in an otherwise valid document: the code names it
    static const Fault fs[] = {{"\"\\q\"", {JE::InvalidEscapeSequence}}, {"\"x\\u12\"", {JE::InvalidEscapeSequence}}, {"\"\\u12G4y\"", {JE::InvalidEscapeSequence}}, {"\"\\u\"", {JE::InvalidEscapeSequence}}, {"\"\\u\xC3\xA9" "00\"", {JE::InvalidEscapeSequence}}, {"\"\\\xC3\xA9\"", {JE::InvalidEscapeSequence}},
        {"[1,]", {JE::TrailingComma}}, {"[ [] , ]", {JE::TrailingComma}}, {"{\"b\":1,}", {JE::TrailingComma}}, {"{\"b\":[1] , }", {JE::TrailingComma}}, {"{\"b\" 1}", {JE::MissingColon}}, {"{\"b\"}", {JE::MissingColon}}, {"{\"\" , 1}", {JE::MissingColon}},
        {"tru", {JE::InvalidValue}}, {"truE", {JE::InvalidValue}}, {"nul", {JE::InvalidValue}}, {"fals", {JE::InvalidValue}}, {"nope", {JE::InvalidValue}}, {"-", {JE::InvalidNumber}}, {"1-2", {JE::InvalidNumber}}, {"1.2.3", {JE::InvalidNumber}}, {"1e", {JE::InvalidNumber}}, {"--1", {JE::InvalidNumber}}, {"2E+", {JE::InvalidNumber}},
        {"1e999", {JE::OutOfRangeError}}, {"-1E999", {JE::OutOfRangeError}}, {"99999999999999999999", {JE::OutOfRangeError}}, {"-99999999999999999999", {JE::OutOfRangeError}}, {"@", {JE::UnexpectedCharacter}}, {"\xC3\xA9", {JE::UnexpectedCharacter}}, {"'x'", {JE::UnexpectedCharacter}}, {"", {JE::UnexpectedCharacter, JE::InvalidValue}},
        {"{b:1}", {JE::UnexpectedCharacter, JE::ExpectedStringKey}}, {"{1:2}", {JE::UnexpectedCharacter, JE::ExpectedStringKey}}, {"[1 2]", {JE::UnexpectedCharacter}}, {"{\"b\":1 \"c\":2}", {JE::UnexpectedCharacter}}, {"1 2", {JE::UnexpectedCharacter}}, {"[1}", {JE::UnexpectedCharacter}}, {"{\"b\":1]", {JE::UnexpectedCharacter}}};
    static const char* const ctx[][2] = {{"{\"a\":", "}"}, {"{\"k\":\"\xC3\xA9\",\"a\":", ",\"z\":[1]}"}, {" {\n\"a\" :\t", " } "}, {"{\"a\":[0, ", " ,2]}"}, {"{\"o\":{\"p\":[{\"q\":", "}]}}"}, {"{\"t\":true,\"n\":null,\"a\":[[", "],\"s\"]}"}};
    const Fault& f = fs[e.choose(sizeof fs / sizeof *fs)]; unsigned c = e.choose(6), tail = e.choose(2); e.op("faulty value"); if (!*f.text && c >= 3) return;
    coded(e, std::string(ctx[c][0]) + f.text + ctx[c][1], f, "one fault"); if (tail) coded(e, std::string("{\"b\":[1.5,{}],\"a\":") + f.text + ",\"c\":" + f.text + "}", f, "first of two faults");
}
MC_SECTION(faulty_texts, true) {
    static const Fault fs[] = {{"", {JE::InvalidJson}}, {" \n", {JE::InvalidJson}}, {"[1]", {JE::InvalidJson}}, {"1", {JE::InvalidJson}}, {"\"x\"", {JE::InvalidJson}}, {"{", {JE::InvalidJson}}, {"}", {JE::InvalidJson}}, {"{\"a\":1", {JE::InvalidJson}}, {"{\"a\":[1]", {JE::InvalidJson}}, {"x{}", {JE::InvalidJson}}, {"{}x", {JE::InvalidJson}},
        {"{}{}", {JE::UnexpectedCharacter}}, {"{} x}", {JE::UnexpectedCharacter}}, {"{\"a\":1}}", {JE::UnexpectedCharacter}}, {"{\"a\":\"x}", {JE::UnterminatedString}}, {"{\"a\":\"x\\\"}", {JE::UnterminatedString}}, {"{\"a}", {JE::UnterminatedString}}, {"{\"a\":{}", {JE::UnterminatedObject, JE::UnexpectedCharacter}}, {"{\"a\":[{}", {JE::UnterminatedArray, JE::UnexpectedCharacter}}, {"{\"a\":[1,{\"b\":2}", {JE::UnterminatedArray, JE::UnexpectedCharacter}}};
    const Fault& f = fs[e.choose(sizeof fs / sizeof *fs)]; unsigned k = e.choose(3); e.op("faulty text"); std::string t = f.text; if (k) t = (k == 1 ? " " : "\n\t") + t + (k == 1 ? "\n" : " "); coded(e, t, f, "faulty text");
    for (unsigned n : {1001u, 1500u, 5000u}) { Fault d{"", {JE::NestingTooDeep}}; if (k == 0) coded(e, "{\"a\":" + std::string(n, '[') + std::string(n, ']') + "}", d, "deep nesting"); }
}
static std::string look(const Doc& d) { return mc::strf("%d %d ", (int)d.HasError(), (int)d.GetError()) + d.GetErrorString().str() + " " + d.ToString().str(); }
MC_SECTION(copies, true) {            // a document takes its status along
    const unsigned n = sizeof seqs / sizeof *seqs; std::string t = seqs[e.choose(n)], u = seqs[e.choose(n)]; unsigned how = e.choose(5); e.op("copy or move of a document"); MC_LOG(e, "%s then %s (%u)", mc::quote(t).c_str(), mc::quote(u).c_str(), how); e.state(mc::Hash().s(t).s(u).u(how)); e.transition(3);
    Doc a{String(t.c_str())}, b{String(u.c_str())}; const std::string la = look(a), lb = look(b); e.outcome(mc::Hash().s(la).u(how));
    if (how == 0) { Doc c(a); e.check(look(c) == la && look(a) == la, "copy", "copy of %s is %s, source %s", la.c_str(), look(c).c_str(), look(a).c_str()); c.Parse(String(u.c_str())); e.check(look(c) == lb && look(a) == la, "copy", "after parsing again"); }
        if (how == 1) { Doc c(std::move(a)); e.check(!a.HasError() && (int)a.GetError() == 0, "move", "the document moved from is %s", look(a).c_str()); e.check(look(c) == la, "move", "moved %s is %s", la.c_str(), look(c).c_str()); a.Parse(String(u.c_str())); e.check(look(a) == lb && look(c) == la, "move", "the source after parsing again is %s", look(a).c_str()); }
    if (how == 2) { b = a; e.check(look(b) == la && look(a) == la, "copy", "assigned %s is %s, source %s", la.c_str(), look(b).c_str(), look(a).c_str()); a.Parse(String(u.c_str())); e.check(look(b) == la && look(a) == lb, "copy", "after parsing again"); }
    if (how == 3) { b = std::move(a); e.check(!a.HasError() && (int)a.GetError() == 0, "move", "the document moved from by assignment is %s", look(a).c_str()); e.check(look(b) == la, "move", "move-assigned %s is %s", la.c_str(), look(b).c_str()); a = b; e.check(look(a) == la && look(b) == la, "move", "the source assigned again is %s", look(a).c_str()); }
    if (how == 4) { std::swap(a, b); e.check(look(a) == lb && look(b) == la, "swap", "swapped documents are %s and %s", look(a).c_str(), look(b).c_str()); Doc& r = a; a = r; e.check(look(a) == lb, "copy", "after self-assignment %s", look(a).c_str()); }
}
}
