#include <map>
#include <unordered_map>
#include "mc.hpp"
#include "sizes.hpp"
#include "tracked.hpp"
#include <Caitlyn/Collections>
#include <Caitlyn/String>
using namespace Caitlyn;
namespace hx {
template <class M> struct Ref { std::vector<typename M::key_type> k; std::vector<typename M::mapped_type> v; };
template <class M> static Ref<M> entries(const M& m) { Ref<M> r; for (typename M::const_iterator i = m.begin(); i != m.end(); ++i) { r.k.push_back(i->first); r.v.push_back(i->second); } return r; }
template <class M, class F> static void same(mc::Exec& e, const char* what, const M& m, const Ref<M>& r, const F& show) {
    // lvalue, const lvalue and rvalue
    M copy(m); M copy2(m); const M& c = m; M& l = copy; e.transition(6);
    auto ck = [&](const char* how, const std::vector<typename M::key_type>& k, const std::vector<typename M::mapped_type>& v) { if (!(k == r.k)) e.fail("keys", "%s, %s: GetMapKeys of %s returns %zu keys, different from the map's %zu", what, how, show(m).c_str(), k.size(), r.k.size()); if (!(v == r.v)) e.fail("values", "%s, %s: GetMapValues of %s returns %zu values, different from the map's %zu", what, how, show(m).c_str(), v.size(), r.v.size()); };
    ck("const map", GetMapKeys(c), GetMapValues(c)); ck("map", GetMapKeys(l), GetMapValues(l)); { Ref<M> q = entries(copy); e.check(q.k == r.k && q.v == r.v, "changed", "%s: the map is different after the extraction", what); }
    { Ref<M> q = entries(copy2); M copy3(copy2); Ref<M> q3 = entries(copy3); auto k = GetMapKeys(std::move(copy2)); auto v = GetMapValues(std::move(copy3)); if (!(k == q.k) || !(v == q3.v)) e.fail("rvalue", "%s: extraction from an rvalue differs", what); }
}
template <class M> static std::string show(const M& m) { std::ostringstream o; o << "{"; for (auto& p : m) o << p.first << ":" << p.second << " "; o << "}"; return o.str(); }
// every insertion sequence up to a length over small keys and values
template <class M, class MakeK, class MakeV> static void build(mc::Exec& e, const char* what, MakeK mk, MakeV mv, std::string (*sh)(const M&)) {
    M m; unsigned n = e.choose(mc::tier(7, 9)); for (unsigned i = 0; i < n; ++i) { unsigned k = e.choose(3), v = e.choose(2); m.insert(typename M::value_type(mk(k), mv(v))); } e.op("GetMapKeys / GetMapValues"); e.state(mc::Hash().s(what).s(sh(m))); MC_LOG(e, "%s %s", what, sh(m).c_str()); same(e, what, m, entries(m), sh);
}
static int ik(unsigned k) { return (int)k * 7 - 7; } static std::string sk(unsigned k) { return std::string(k, 'k'); } static int iv(unsigned v) { return (int)v; } static bool bv(unsigned v) { return v; } static std::string sv(unsigned v) { return v ? "a value that does not fit into the object" : ""; }
MC_SECTION(ordered, true, false, true) { switch (e.choose(3)) { case 0: build<std::map<int, int>>(e, "map<int,int>", ik, iv, show); break; case 1: build<std::map<std::string, std::string>>(e, "map<string,string>", sk, sv, show); break; case 2: build<std::map<int, bool>>(e, "map<int,bool>", ik, bv, show); break; } }
MC_SECTION(multi, true, false, true) { switch (e.choose(2)) { case 0: build<std::multimap<int, int>>(e, "multimap<int,int>", ik, iv, show); break; case 1: build<std::multimap<std::string, std::string, std::greater<std::string>>>(e, "multimap<string,string,greater>", sk, sv, show); break; } }
MC_SECTION(unordered, true, false, true) { switch (e.choose(3)) { case 0: build<std::unordered_map<int, int>>(e, "unordered_map<int,int>", ik, iv, show); break; case 1: build<std::unordered_multimap<std::string, int>>(e, "unordered_multimap<string,int>", sk, iv, show); break; case 2: build<std::unordered_map<std::string, std::string>>(e, "unordered_map<string,string>", sk, sv, show); break; } }
// sizes around growth boundaries, in both orders, and a custom comparator type
MC_SECTION(sizes, true) {
    unsigned n = e.choose(mc::tier(300u, 2000u)); e.op("GetMapKeys / GetMapValues"); MC_LOG(e, "%u entries", n); std::map<int, String> m; std::unordered_map<int, int> u; std::map<int, int, std::greater<int>> g; for (unsigned i = 0; i < n; ++i) { int k = (int)(i * 7919 % 10007); m[k] = String(std::to_string(i).c_str()); u[k] = (int)i; g[k] = (int)i; }
    same(e, "map<int,String>", m, entries(m), [](const std::map<int, String>& x) { return mc::strf("%zu entries", x.size()); }); same(e, "unordered_map", u, entries(u), [](const std::unordered_map<int, int>& x) { return mc::strf("%zu entries", x.size()); }); same(e, "map with greater", g, entries(g), [](const std::map<int, int, std::greater<int>>& x) { return mc::strf("%zu entries", x.size()); });
}
// copies that throw, at every copy: nothing leaks and the map keeps its entries
typedef tk::Tr<1> K; typedef tk::Tr<2> V; struct Less { bool operator()(const K& a, const K& b) const { return a.v < b.v; } };
MC_SECTION(faults, true) {
    using namespace tk; reg().reset(&e); reg().faults = 1; e.op("extraction with throwing copies"); {
    std::map<K, V, Less> m; unsigned n = e.choose(5); for (unsigned i = 0; i < n; ++i) m.emplace(std::piecewise_construct, std::forward_as_tuple((int)i), std::forward_as_tuple((int)i * 3)); bool keys = e.flag(), cst = e.flag(); size_t live = reg().live.size(); MC_LOG(e, "%s of %u entries%s", keys ? "keys" : "values", n, cst ? ", const" : ""); reg().armed = true; bool threw = false; const auto& c = m;
    try { if (keys) { auto k = cst ? GetMapKeys(c) : GetMapKeys(m); reg().armed = false; e.check(k.size() == n, "keys", "%zu keys of %u", k.size(), n); for (unsigned i = 0; i < n; ++i) e.check(k[i].v == (int)i, "keys", "key %u is %d", i, k[i].v); } else { auto v = cst ? GetMapValues(c) : GetMapValues(m); reg().armed = false; e.check(v.size() == n, "values", "%zu values of %u", v.size(), n); for (unsigned i = 0; i < n; ++i) e.check(v[i].v == (int)i * 3, "values", "value %u is %d", i, v[i].v); } }
    catch (const Fault&) { threw = true; } reg().armed = false; e.transition(); e.check(threw == (reg().fired > 0), "swallowed", "the exception of a copy is %s", threw ? "invented" : "swallowed"); e.check(reg().live.size() == live, "leak", "%zu objects live, %zu before", reg().live.size(), live); unsigned i = 0; e.check(m.size() == n, "changed", "the map lost entries"); for (auto& p : m) { e.check(p.first.v == (int)i && p.second.v == (int)i * 3, "changed", "entry %u is %d:%d", i, p.first.v, p.second.v); i++; }
    } e.check(reg().bad.empty(), "lifetime", "%s", reg().bad.c_str()); e.check(reg().live.empty(), "leak", "%zu objects survive", reg().live.size());
}
MC_SECTION(scale, true, false, 0, true, 60) {
    unsigned n = e.pick(kScale), k = e.choose(2); e.op("GetMapKeys / GetMapValues"); MC_LOG(e, "%u entries", n); e.state(mc::Hash().u(n).u(k));
    if (k == 0) { std::map<int, unsigned> m; for (unsigned i = 0; i < n; ++i) m[(int)(i * 7919u % 1000003u)] = i; same(e, "map", m, entries(m), [](const std::map<int, unsigned>& x) { return mc::strf("%zu entries", x.size()); }); }
    else { std::unordered_map<unsigned, int> m; for (unsigned i = 0; i < n; ++i) m[i * 31u] = (int)i; same(e, "unordered_map", m, entries(m), [](const std::unordered_map<unsigned, int>& x) { return mc::strf("%zu entries", x.size()); }); }
}
}
