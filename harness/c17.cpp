#include "jref.hpp"
#include "sizes.hpp"
using namespace Caitlyn;
namespace hx {
using namespace jr;
static std::string squeeze(const std::string& t) { std::string o; bool in = false; for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; if (in) { o += c; if (c == '\\' && i + 1 < t.size()) o += t[++i]; else if (c == '"') in = false; } else if (c == '"') { in = true; o += c; } else if (!strchr(" \t\r\n", c)) o += c; } return o; }
static void layout(mc::Exec& e, const V& v, unsigned indent) {
    MC_LOG(e, "ToString(true, %u) of %s", indent, show(v).c_str()); e.state(mc::Hash().u(vh(v)).u(indent)); e.transition(4); Doc d = document(v); std::string c = d.ToString().str(), p = d.ToString(true, indent).str();
    if (squeeze(c) != c) e.fail("compact", "the compact text %s contains layout", mc::quote(c).c_str());
    if (squeeze(p) != c) e.fail("content", "indented text %s without layout differs from %s", mc::quote(p).c_str(), mc::quote(c).c_str());
    if (d.ToString(false, indent).str() != c || d.ToString(false, 9).str() != c) e.fail("compact", "the compact text depends on the indent");
    if (indent == 2 && d.ToString(true).str() != p) e.fail("default-indent", "the default indent is not 2");
    // each line starts with depth * indent blanks; each member or element is on its own line
    size_t depth = 0, line = 0, items = 0, starts = 0; bool in = false; std::istringstream is(p); std::string l;
    while (std::getline(is, l)) {
        size_t b = l.find_first_not_of(' '); if (b == std::string::npos) { if (v.o.empty()) { b = 0; } else e.fail("blank-line", "line %zu of %s is blank", line, mc::quote(p).c_str()); } if (l.find('\t') != std::string::npos && !in) e.fail("tab", "tab in the layout");
        size_t lead = depth; if (b < l.size() && (l[b] == '}' || l[b] == ']')) --lead; else if (line) ++starts; if (b != lead * indent) e.fail("indent", "line %zu of %s is indented by %zu instead of %zu", line, mc::quote(p).c_str(), b, lead * indent);
        for (size_t i = b; i < l.size(); ++i) { char x = l[i]; if (in) { if (x == '\\') ++i; else if (x == '"') in = false; } else if (x == '"') in = true; else if (x == '{' || x == '[') ++depth; else if (x == '}' || x == ']') --depth; } ++line;
    }
    std::function<void(const V&)> cnt = [&](const V& x) { items += x.o.size() + x.a.size(); for (auto& m : x.o) cnt(m.second); for (auto& y : x.a) cnt(y); }; cnt(v); if (starts != items) e.fail("lines", "%s has %zu item lines for %zu members and elements", mc::quote(p).c_str(), starts, items);
    Doc q{String(p.c_str())}; if (q.HasError()) e.fail("reparse", "%s is rejected: %s", mc::quote(p).c_str(), q.GetErrorString().str().c_str()); std::string r = diff(q, v); if (!r.empty()) e.fail("reparse", "%s: %s", mc::quote(p).c_str(), r.c_str()); if (q.ToString(true, indent).str() != p) e.fail("stable", "printing %s again changes it", mc::quote(p).c_str()); e.outcome(mc::Hash().u(line).u(p.size()));
}
static const unsigned ind[] = {2, 0, 1, 3, 4, 8};
MC_SECTION(trees) { std::vector<V> lv = {V::num(1), V::str("a b\n{\""), V()}; e.op("pretty"); V v = gendoc(e, mc::tier(5u, 6u), lv, {"a", "b ,", "c"}, 3); layout(e, v, ind[e.choose(mc::tier(3u, 6u))]); }
MC_SECTION(leaves) { std::vector<V> lv = {V(), V::boolean(true), V::boolean(false), V::num(-70), V::real(0.25), V::str("q\"\\ "), V::str(""), V::obj(), V::arr()}; e.op("pretty"); V v = gendoc(e, 3, lv, {"a", "\"", "  "}, 1); layout(e, v, e.pick(ind)); }
MC_SECTION(scaled) { static const unsigned ns[] = {1, 2, 3, 5, 8, 16, 17, 33, 64}; unsigned n = e.pick(ns), k = e.choose(4), w = e.pick(ind); V v = V::obj(); e.op("scaled document"); if (k == 0) for (unsigned i = 0; i < n; ++i) v.mem("k" + std::to_string(i)) = V::num(i); else if (k == 1) for (unsigned i = 0; i < n; ++i) v.mem("r").push(i % 2 ? V::str(std::string(i, ' ')) : V::arr()); else { V x = V::num(1); for (unsigned i = 0; i < n; ++i) { V y = (k == 2 || i % 2) ? V::arr() : V::obj(); if (y.k == K::Array) { y.a.push_back(x); y.a.push_back(V()); } else y.o.emplace_back("d", x); x = y; } v.mem("r") = x; } layout(e, v, w); }
MC_SECTION(wide_indents) { static const unsigned w[] = {9, 15, 16, 17, 32, 63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000}; unsigned i = e.pick(w), k = e.choose(4); V v = V::obj(); e.op("wide indent"); V* at = &v; for (unsigned d = 0; d <= k; ++d) { at->mem("a") = V::num(d); at->mem("o") = V::obj(); at = &at->mem("o"); } at->mem("l") = V::arr(); at->mem("l").push(V::str("x")); layout(e, v, i); }
MC_SECTION(scale, true, false, 0, true, 60) { unsigned n = e.pick(kScale), k = e.choose(3); if (k == 1 ? n > mc::tier(1100u, 5000u) : k == 2 ? n > mc::tier(130u, 300u) : n > mc::tier(5000u, 70000u)) return; V v = V::obj(); e.op("long document");
    if (k == 0) { v.mem("l") = V::arr(); for (unsigned i = 0; i < n; ++i) v.o[0].second.push(i % 2 ? V::num(i) : V::str("[{")); } else if (k == 1) for (unsigned i = 0; i < n; ++i) v.mem("k" + std::to_string(i)) = V::num(i); else { V* at = &v; for (unsigned i = 0; i < n; ++i) at = i % 2 ? &at->mem("d") : &at->mem("e").el(0); *at = V::num(1); }
    layout(e, v, 2); }
}
