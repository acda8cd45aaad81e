#include "jref.hpp"
#include "sizes.hpp"
using namespace Caitlyn;
namespace hx {
using namespace jr;
static void eq(mc::Exec& e, const Doc& d, const V& v, const char* who) { std::string r = diff(d, v); if (!r.empty()) e.fail("value", "%s: %s (model %s)", who, r.c_str(), show(v).c_str()); std::string t = d.ToString().str(); if (t != text(v)) e.fail("text", "%s prints %s instead of %s", who, mc::quote(t).c_str(), mc::quote(text(v)).c_str()); if (d.HasError()) e.fail("error", "%s reports an error", who); }
static void eq(mc::Exec& e, const JD& d, const V& v, const char* who) { std::string r = diff(d, v); if (!r.empty()) e.fail("value", "%s: %s (model %s)", who, r.c_str(), show(v).c_str()); std::string t = d.ToString().str(); if (t != text(v)) e.fail("text", "%s prints %s instead of %s", who, mc::quote(t).c_str(), mc::quote(text(v)).c_str()); }
static V nested() { V v = V::obj(); v.o.emplace_back("b", V::str("deep")); v.o.emplace_back("c", V::arr()); v.o.back().second.a = {V::num(1), V::str("two")}; return v; }
static unsigned assign_kind(mc::Exec& e, JD& d, V& m) {   // every kind of value through every assignment operator
    unsigned k = e.choose(7);
    switch (k) { case 0: d = 7; m = V::num(7); break; case 1: d = "str"; m = V::str("str"); break; case 2: d = true; m = V::boolean(true); break; case 3: d = 2.5; m = V::real(2.5); break; case 4: d = nullptr; m = V(); break; case 5: d = Json::MakeObject(); m = V::obj(); break; case 6: d = Json::MakeArray(1, "x"); m = V::arr(); m.a = {V::num(1), V::str("x")}; break; } return k;
}
// histories over one document and one free value; every reference is taken afresh for each operation
static void history(mc::Exec& e, unsigned depth, unsigned nops) {
    Doc d, c; V D = V::obj(), C = V::obj(); JD x; V X; d["a"] = build(nested()); D.mem("a") = nested(); MC_LOG(e, "d = {a: %s}", show(nested()).c_str());
    for (unsigned i = 0; i < depth; ++i) {
        unsigned op = e.choose(nops); const char* nm = "";
#define OP(s) nm = s; e.op(nm); MC_LOG(e, "%s", nm)
        switch (op) {
        case 0: { OP("d[a] = value"); JD& r = d["a"]; assign_kind(e, r, D.mem("a")); break; }
        case 1: { OP("d[a][b] = value"); JD& r = d["a"]["b"]; assign_kind(e, r, D.mem("a").mem("b")); break; }
        case 2: { OP("d[b] = d[a]"); JD& src = d["a"]; JD& dst = d["b"]; dst = src; V t = D.mem("a"); D.mem("b") = t; break; }
        case 3: { OP("d[a] = d[a][b]"); JD& dst = d["a"]; JD& src = dst["b"]; dst = src; V t = D.mem("a").mem("b"); D.mem("a") = t; break; }
        case 4: { OP("d[a] = move(d[a][b])"); JD& dst = d["a"]; JD& src = dst["b"]; dst = std::move(src); V t = D.mem("a").mem("b"); D.mem("a") = t; break; }
        case 5: { OP("d[a][c] = d[a]"); JD& src = d["a"]; JD& dst = src["c"]; dst = src; D.mem("a").mem("c"); V t = D.mem("a"); D.mem("a").mem("c") = t; break; }
        case 6: { OP("d[a] = d[a] (self)"); JD& r = d["a"]; r = r; D.mem("a"); break; }
        case 7: { OP("d[l][2] = 5"); d["l"][2] = 5; D.mem("l").el(2) = V::num(5); break; }
        case 8: { OP("d[l].Append(s, false)"); d["l"].Append("s", false); D.mem("l").push(V::str("s")); D.mem("l").push(V::boolean(false)); break; }
        case 9: { OP("d[l].Append(d[l])"); JD& l = d["l"]; V t = D.mem("l"); l.Append(l); D.mem("l").push(t); break; }
        case 10: { OP("RemoveMember(a)"); d.RemoveMember("a"); auto& o = D.o; if (D.k == K::Object) for (size_t j = 0; j < o.size(); ++j) if (o[j].first == "a") { o.erase(o.begin() + j); break; } break; }
        case 11: { OP("x = move(d[a]); d[a] = 1"); JD& r = d["a"]; x = std::move(r); X = D.mem("a"); d["a"] = 1; D.mem("a") = V::num(1); break; }
        case 12: { OP("d.AddMember(b, x)"); d.AddMember("b", x); D.mem("b") = X; break; }
        case 13: { OP("c = d"); c = d; C = D; break; }
        case 14: { OP("d = c"); d = c; D = C; break; }
        case 15: { OP("c = move(d); d = Doc()"); c = std::move(d); C = D; d = Doc(); D = V::obj(); break; }
        case 16: { OP("x = d[l][0]"); JD& r = d["l"][0]; x = r; X = D.mem("l").el(0); break; }
        case 17: { OP("d[l] = move(d[l][1])"); JD& l = d["l"]; JD& s = l[1]; l = std::move(s); V t = D.mem("l").el(1); D.mem("l") = t; break; }
        case 18: { OP("x = x copy; JD y(move(x)); x = y"); JD z(x); JD y(std::move(z)); x = y; break; }
        case 19: { OP("x.Append(x)"); V t = X; x.Append(x); X.push(t); break; }
        case 20: { OP("Doc t(d); c = move(t)"); Doc t(d); c = std::move(t); C = D; break; }
        case 21: { OP("d = d (self)"); Doc& r = d; d = r; break; }
        case 22: { OP("c[a] = d[a]; d[a][k] = 9"); JD& src = d["a"]; c["a"] = src; C.mem("a") = D.mem("a"); d["a"]["k"] = 9; D.mem("a").mem("k") = V::num(9); break; }
        case 23: { OP("d.AddMember(a, d[a])"); JD& r = d["a"]; d.AddMember("a", r); D.mem("a"); break; }
        case 24: { OP("Doc t(move(d)); d = t"); Doc t(std::move(d)); d = t; break; }
        case 25: { OP("GetData of d[a]"); JD& r = d["a"]; D.mem("a"); bool threw = false; try { auto& o = r.GetData(); e.check(o.size() == D.mem("a").o.size(), "getdata", "GetData has %zu members", o.size()); } catch (const std::logic_error&) { threw = true; } e.check(threw == (D.mem("a").k != K::Object), "getdata", "GetData on a value of kind %d", (int)D.mem("a").k); break; }
        }
        e.transition(); eq(e, d, D, "d"); eq(e, c, C, "c"); eq(e, x, X, "x"); e.state(mc::Hash().u(vh(D)).u(vh(C)).u(vh(X)));
    }
    e.outcome(mc::Hash().u(vh(D)));
}
MC_SECTION(histories, true) { history(e, mc::tier(3u, 4u), 26); }
MC_SECTION(mixed_types, true) {   // a slot takes every sequence of kinds through assignment, access and append
    Doc d; V D = V::obj(); unsigned n = mc::tier(4u, 5u);
    for (unsigned i = 0; i < n; ++i) {
        unsigned op = e.choose(11); JD& r = d["s"]; V& m = D.mem("s"); e.op("retype"); MC_LOG(e, "operation %u on d[s]", op);
        if (op < 6) { switch (op) { case 0: r = (int64_t)-5; m = V::num(-5); break; case 1: r = std::string("\xC3\xA9\"\\"); m = V::str("\xC3\xA9\"\\"); break; case 2: r = false; m = V::boolean(false); break; case 3: r = 0.5f; m = V::real(0.5); break; case 4: r = nullptr; m = V(); break; case 5: r = build(nested()); m = nested(); break; } }
        else if (op == 6) { r["k"] = 1; m.mem("k") = V::num(1); } else if (op == 7) { r[1] = "e"; m.el(1) = V::str("e"); } else if (op == 8) { r.Append(3); m.push(V::num(3)); } else if (op == 9) { r.At(String("k")) = true; m.mem("k") = V::boolean(true); } else { r.At((SizeType)0) = 8; m.el(0) = V::num(8); }
        e.transition(); eq(e, d, D, "d"); e.state(vh(D));
    }
    e.outcome(vh(D));
}
static V kinds(unsigned k) { switch (k) { case 0: return V(); case 1: return V::num(-3); case 2: return V::real(1.5); case 3: return V::str("s\xC3\xA9"); case 4: return V::boolean(true); case 5: { V v = V::arr(); v.a = {V::num(1), V::str("t"), V::arr()}; return v; } case 6: return nested(); case 7: return V::obj(); case 8: return V::arr(); default: return V::str(std::string(40, 'L')); } }
MC_SECTION(assign_pairs, true) {  // every kind over every kind, by copy, move, construction and swap; sources stay or become reusable
    V a = kinds(e.choose(10)), b = kinds(e.choose(10)); unsigned how = e.choose(6); JD x(build(a)), y(build(b)); e.op("assign"); MC_LOG(e, "x = %s; y = %s; way %u", show(a).c_str(), show(b).c_str(), how); e.state(mc::Hash().u(vh(a)).u(vh(b)).u(how)); e.transition(); eq(e, x, a, "x"); eq(e, y, b, "y");
    switch (how) { case 0: x = y; eq(e, x, b, "x"); eq(e, y, b, "y"); break; case 1: x = std::move(y); eq(e, x, b, "x"); break; case 2: { JD z(std::move(x)); eq(e, z, a, "moved to"); break; } case 3: { std::swap(x, y); eq(e, x, b, "x"); eq(e, y, a, "y"); break; } case 4: { JD& r = x; x = std::move(r); break; } case 5: { JD z(x); z["new"] = 1; eq(e, x, a, "the copied value"); z = y; z.Append(2); eq(e, y, b, "the copied value"); break; } }
    x = y; x = "reused"; y = 5; eq(e, x, V::str("reused"), "x"); eq(e, y, V::num(5), "y"); e.outcome(how);
}
MC_SECTION(read_only, true) {     // const access: present parts are found, everything else throws
    V m = V::obj(); unsigned k = e.choose(10); m.mem("v") = kinds(k); m.mem("n") = nested(); Doc d = document(m); const Doc& c = d; const JD& v = c["v"]; const V& M = m.mem("v"); e.op("const access"); MC_LOG(e, "value %s", show(M).c_str()); e.state(k); std::string keys[] = {"b", "c", "", "v", "zz"};
    for (auto& q : keys) { bool t = false; e.transition(); try { const JD& r = v.At(String(q.c_str())); V& mm = const_cast<V&>(M); eq(e, r, mm.mem(q), "member"); } catch (const std::exception&) { t = true; } e.check(t == !M.has(q), "const-at", "At(%s) of %s %s", q.c_str(), show(M).c_str(), t ? "throws" : "does not throw"); e.check(v.HasMember(String(q.c_str())) == M.has(q), "has-member", "HasMember(%s) of %s", q.c_str(), show(M).c_str()); bool t2 = false; try { (void)c[String(q.c_str())]; } catch (const std::exception&) { t2 = true; } e.check(t2 == !m.has(q), "const-index", "reading member %s of the document", q.c_str()); e.check(d.HasMember(String(q.c_str())) == m.has(q), "has-member", "HasMember(%s)", q.c_str()); }
    for (size_t i = 0; i < 5; ++i) { bool t = false; e.transition(); try { const JD& r = v.At(i); eq(e, r, M.a[i], "element"); } catch (const std::exception&) { t = true; } e.check(t == !(M.k == K::Array && i < M.a.size()), "const-at", "At(%zu) of %s %s", i, show(M).c_str(), t ? "throws" : "does not throw"); }
    eq(e, d, m, "the document afterwards"); e.outcome(k);
}
MC_SECTION(makers) {              // the Make* functions give values of the named type
    e.op("make"); unsigned k = e.choose(13); MC_LOG(e, "maker %u", k); e.state(k); e.transition(); JD d; V v;
    switch (k) { case 0: d = Json::MakeNull(); break; case 1: d = Json::MakeString("t\"x"); v = V::str("t\"x"); break; case 2: d = Json::MakeIntegral(-41); v = V::num(-41); break; case 3: d = Json::MakeFloating(2.25f); v = V::real(2.25); break; case 4: d = Json::MakeBoolean(true); v = V::boolean(true); break; case 5: d = Json::MakeBoolean(false); v = V::boolean(false); break; case 6: d = Json::MakeObject(); v = V::obj(); break; case 7: d = Json::MakeArray(); v = V::arr(); break; case 8: d = Json::MakeArray("a", 1, true, 1.5); v = V::arr(); v.a = {V::str("a"), V::num(1), V::boolean(true), V::real(1.5)}; break; case 9: d = Json::Make(Json::JsonClass::Array); v = V::arr(); break; case 10: d = Json::MakeArray(Json::MakeObject(), Json::MakeArray(2)); v = V::arr(); v.a = {V::obj(), V::arr()}; v.a[1].a = {V::num(2)}; break; case 11: d = JD((int64_t)INT64_MIN); v = V::num(INT64_MIN); break; case 12: d = JD((unsigned char)200); v = V::num(200); break; }
    eq(e, d, v, "made value"); Doc a = Json::MakeDocument(); a["k"] = d; Doc b = Json::MakeDocument(a); a["k"] = 0; V m = V::obj(); m.mem("k") = v; eq(e, b, m, "copied document"); Doc c = Json::MakeDocument(std::move(b)); eq(e, c, m, "moved document"); Doc t = Json::MakeDocument(c.ToString()); eq(e, t, m, "parsed document"); e.outcome(k);
}
MC_SECTION(sizes, true) {         // growth of arrays and objects through index, append and member creation
    static const unsigned ns[] = {0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 129, 300}; unsigned n = e.pick(ns), k = e.choose(5); Doc d; V m = V::obj(); e.op("growth"); MC_LOG(e, "grow to %u, way %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(n);
    if (k == 0) { d["l"][n] = 1; m.mem("l").el(n) = V::num(1); } else if (k == 1) { d["l"] = Json::MakeArray(); m.mem("l") = V::arr(); for (unsigned i = 0; i < n; ++i) { d["l"].Append(i); m.mem("l").push(V::num(i)); } } else if (k == 2) { for (unsigned i = 0; i < n; ++i) { std::string q = "k" + std::to_string(i); d[q] = i; m.mem(q) = V::num(i); } for (unsigned i = 0; i < n; i += 2) { std::string q = "k" + std::to_string(i); d.RemoveMember(q); for (size_t j = 0; j < m.o.size(); ++j) if (m.o[j].first == q) { m.o.erase(m.o.begin() + j); break; } } } else if (k == 3) { for (unsigned i = n; i-- > 0;) d["l"][i] = i; for (unsigned i = n; i-- > 0;) m.mem("l").el(i) = V::num(i); } else { JD& first = d["f"]; m.mem("f"); for (unsigned i = 0; i < n; ++i) { std::string q = "k" + std::to_string(i); d[q] = "v"; m.mem(q) = V::str("v"); } first = "kept reference"; m.mem("f") = V::str("kept reference"); }
    eq(e, d, m, "d"); Doc c(d); eq(e, c, m, "copy"); d = Doc(); eq(e, c, m, "copy after the original is gone"); e.outcome(k);
}
MC_SECTION(scale, true, false, 0, true, 60) {            // sizes and indices next to the powers of two
    unsigned n = e.pick(kScale), k = e.choose(5); if ((k == 2 && n > mc::tier(1100u, 5000u)) || n > mc::tier(70000u, 200000u)) return; Doc d; V m = V::obj(); e.op("long growth"); MC_LOG(e, "grow to %u, way %u", n, k); e.state(mc::Hash().u(n).u(k)); e.transition(n);
    switch (k) {
    case 0: d["l"][n] = 1; m.mem("l").el(n) = V::num(1); break;
    case 1: d["l"] = Json::MakeArray(); m.mem("l") = V::arr(); for (unsigned i = 0; i < n; ++i) { d["l"].Append((int)i); m.o[0].second.push(V::num(i)); } d["l"][n / 2] = "half"; m.o[0].second.el(n / 2) = V::str("half"); break;
    case 2: for (unsigned i = 0; i < n; ++i) { std::string q = "k" + std::to_string(i); d["o"][q] = (int)i; m.mem("o").mem(q) = V::num(i); } break;
    case 3: { std::string s(n, 's'); d["s"] = s; d[s] = 2; m.mem("s") = V::str(s); m.mem(s) = V::num(2); break; }
    case 4: d["l"][n - 1] = 0; d["l"].Append(5); d["l"][n] = d["l"][n - 1]; m.mem("l").el(n - 1) = V::num(0); m.mem("l").el(n) = V::num(0); break;
    }
    if (k != 2 && k != 3) { const Doc& c = d; const V& L = m.o[0].second; e.check(diff(c["l"].At((SizeType)(L.a.size() - 1)), L.a.back()).empty(), "at", "the last of %zu elements is wrong", L.a.size()); bool t = false; try { (void)c["l"].At((SizeType)L.a.size()); } catch (const std::exception&) { t = true; } e.check(t, "const-at", "At(%zu) of %zu elements does not throw", L.a.size(), L.a.size()); }
    std::string r = diff(d, m); e.check(r.empty(), "value", "grown to %u: %s", n, r.substr(0, 300).c_str()); e.check(d.ToString().str() == text(m), "text", "the document grown to %u prints something else", n);
    Doc c(d); Doc x; x = std::move(d); d["new"] = 1; r = diff(c, m); e.check(r.empty() && diff(x, m).empty(), "value", "copy or move of a document grown to %u: %s", n, r.substr(0, 300).c_str()); e.outcome(k);
}
}
