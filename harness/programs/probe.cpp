// Prints the results of one probe; compiled by C41 in every build configuration.
#include <Caitlyn/Caitlyn>
#include <Caitlyn/Char>
#include <Caitlyn/Collections>
#include <Caitlyn/Error>
#include <Caitlyn/File>
#include <Caitlyn/IO>
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Testing>
#include <Caitlyn/Utility>
#include <stdint.h>
using namespace Caitlyn; using namespace Caitlyn::Test;
namespace hx { static std::string g_dir; static bool g_deep; static std::string dir() { return g_dir; } static bool deep() { return g_deep; } }
#include "../probes.hpp"
int main(int c, char** v) {
    if (c < 4) { for (auto& p : hx::PROBES) puts(p.name); return 0; }
    hx::g_dir = v[2]; hx::g_deep = v[3][0] == '1'; unsigned p = (unsigned)atoi(v[1]); if (p >= hx::NP) return 3;
    try { hx::PROBES[p].f(); } catch (const std::exception& x) { hx::O += std::string("escaped: ") + x.what() + "\n"; }
    hx::O += "operations " + hx::num((long long)hx::ops) + "\n"; fwrite(hx::O.data(), 1, hx::O.size(), stdout); return 0;
}
