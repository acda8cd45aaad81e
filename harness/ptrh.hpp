#pragma once
#include "mc.hpp"
#include "Caitlyn/__Core/Memory/Types.h"
using namespace Caitlyn;
namespace hx {
struct Live { std::set<int> ids; std::string bad; };
inline Live& live(int side) { static Live l[2]; return l[side]; }
// side 0: the library's pointers, side 1: the standard's
template <int Side, template <class> class S, template <class> class W> struct Node {
    int id; int* heap; S<Node> next; W<Node> back; std::function<void()> last;
    explicit Node(int i) : id(i), heap(new int(i)) { if (!live(Side).ids.insert(i).second) live(Side).bad = "constructed twice"; }
    ~Node() { if (!live(Side).ids.erase(id)) live(Side).bad = mc::strf("object %d is destroyed twice", id); if (*heap != id) live(Side).bad = "destroyed object is torn"; delete heap; if (last) last(); }
    Node(const Node&) = delete;
};
inline std::string ids() { std::string r; for (int s = 0; s < 2; ++s) { r += s ? " expected {" : "{"; for (int i : live(s).ids) r += mc::strf(" %d", i); r += " }"; } return r; }
}
