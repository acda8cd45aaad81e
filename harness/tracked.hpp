// Payload types that register every construction and destruction, and can throw at any copy.
#pragma once
#include "mc.hpp"
#include <unordered_map>
namespace tk {
struct Fault { int where; };
struct Reg {
    std::unordered_map<const void*, int> live; std::string bad; mc::Exec* e = nullptr; unsigned faults = 0; bool armed = false; int points = 0; int fired = 0;
    void err(const char* s) { if (bad.empty()) bad = s; }
    void reset(mc::Exec* x) { live.clear(); bad.clear(); e = x; faults = 0; armed = false; points = fired = 0; }
    void point(const char* what) {   // a place where user code may throw
        if (!armed || !faults) return;
        points++;
        if (e->flag()) { faults--; fired++; MC_LOG(*e, "    fault: %s throws", what); throw Fault{points}; }
    }
};
inline Reg& reg() { static Reg r; return r; }
enum { kMoved = -77 };
template <int Kind> struct Tr {
    int v; int* h;
    void born() { if (!reg().live.emplace(this, Kind).second) reg().err("an object is constructed on top of a living one"); }
    void use() const { auto i = reg().live.find(this); if (i == reg().live.end()) reg().err("an object is used outside its lifetime"); else if (i->second != Kind) reg().err("an object of another type is used"); }
    Tr() : v(0), h(nullptr) { h = new int(0); born(); }
    explicit Tr(int x) : v(x), h(nullptr) { h = new int(x); born(); }
    Tr(const Tr& o) : v(0), h(nullptr) { o.use(); reg().point("payload copy constructor"); v = o.v; h = o.h ? new int(*o.h) : nullptr; born(); }
    Tr(Tr&& o) noexcept : v(o.v), h(o.h) { o.use(); o.h = nullptr; o.v = kMoved; born(); }
    Tr& operator=(const Tr& o) { use(); o.use(); reg().point("payload copy assignment"); if (this != &o) { int* n = o.h ? new int(*o.h) : nullptr; delete h; h = n; v = o.v; } return *this; }
    Tr& operator=(Tr&& o) noexcept { use(); o.use(); if (this != &o) { delete h; h = o.h; v = o.v; o.h = nullptr; o.v = kMoved; } return *this; }
    ~Tr() { auto i = reg().live.find(this); if (i == reg().live.end()) reg().err("an object is destroyed that does not live"); else { if (i->second != Kind) reg().err("an object is destroyed as another type"); else { if (h && *h != v) reg().err("an object's content is torn"); delete h; } reg().live.erase(i); } }
    bool operator==(const Tr& o) const { use(); o.use(); return v == o.v; }
};
// the same without a move of its own: moving it copies, which may throw
template <int K> struct Co : Tr<K> { Co() {} explicit Co(int x) : Tr<K>(x) {} Co(const Co& o) : Tr<K>(o) {} Co& operator=(const Co& o) { Tr<K>::operator=(o); return *this; } ~Co() {} };
template <class T> struct P;
template <int K> struct P<Co<K>> { static Co<K> make(int i) { return Co<K>(i); } static int get(const Co<K>& t) { t.use(); return t.v; } };
template <int K> struct P<Tr<K>> { static Tr<K> make(int i) { return Tr<K>(i); } static int get(const Tr<K>& t) { t.use(); return t.v; } };
template <> struct P<int> { static int make(int i) { return i; } static int get(const int& t) { return t; } };
template <> struct P<std::string> {
    static std::string make(int i) { return "a payload too long for the small buffer #" + std::to_string(i); }
    static int get(const std::string& t) { size_t p = t.find('#'); return p == std::string::npos ? 0 : atoi(t.c_str() + p + 1); } };
template <> struct P<std::shared_ptr<int>> { static std::shared_ptr<int> make(int i) { return std::make_shared<int>(i); } static int get(const std::shared_ptr<int>& t) { return t ? *t : 0; } };
}
