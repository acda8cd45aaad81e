// Runs one probe in chosen phases of a program's life; compiled by C43 once for every part of the program (-DPART=...).
#include <Caitlyn/Caitlyn>
#include <Caitlyn/Char>
#include <Caitlyn/Collections>
#include <Caitlyn/Error>
#include <Caitlyn/File>
#include <Caitlyn/IO>
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Testing>
#include <Caitlyn/Utility>
#include <stdint.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <thread>
#include <unistd.h>
using namespace Caitlyn; using namespace Caitlyn::Test;
namespace hx { static std::string dir() { return getenv("LIFE_DIR"); } static bool deep() { return false; } }
#define PROBES_NUMBERS 3u
#include "../probes.hpp"
// LIFE_PHASES: the phases to run it in, LIFE_PROBE: its number, or "app"
static void application() {
    static const char* argv[] = {"prog", "", "\xC3\xA9", nullptr}; std::string r;
    try { const Application* a = getenv("LIFE_NOARGS") ? Application::Initialise() : Application::Initialize(3, argv); r = "initialised\n"; if (!a) r += "null\n"; else { char b[64]; snprintf(b, sizeof b, "%p", (const void*)a); setenv("LIFE_APP", b, 1); } }
    catch (const std::runtime_error& x) { r = std::string("refused: ") + x.what() + "\n"; }
    void* p = nullptr; if (getenv("LIFE_APP")) sscanf(getenv("LIFE_APP"), "%p", &p); const Application* a = (const Application*)p;
    if (a) { for (const char* s : a->GetArgs()) { r += "arg "; r += s; r += "\n"; } r += a->GetSystemName(); r += "\n"; r += a->GetCompilerInfo(); r += "\n"; r += a->GetCaitlynInfo(); r += "\n"; }
    hx::O += r;
}
static void phase(int n) {
    const char* ph = getenv("LIFE_PHASES"); if (!ph || !strchr(ph, 'a' + n)) return; const char* pr = getenv("LIFE_PROBE"); if (!pr) return; hx::O.clear(); hx::ops = 0; hx::g_ran.clear();
    try { if (!strcmp(pr, "app")) application(); else hx::PROBES[(unsigned)atoi(pr)].f(); } catch (const std::exception& x) { hx::O += std::string("escaped: ") + x.what() + "\n"; }
    std::string f = hx::dir() + "/phase_" + char('a' + n); int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t at = 0; while (at < hx::O.size()) { ssize_t w = write(fd, hx::O.data() + at, hx::O.size() - at); if (w <= 0) break; at += (size_t)w; } close(fd);
}
template <int B, int D> struct At { At() { if (B >= 0) phase(B); } ~At() { if (D >= 0) phase(D); } };
#if PART == 1
static At<0, 11> part_object;   // a: static constructor in the first file, l: its destructor
#elif PART == 2
static At<1, 10> part_object;   // b, k: the same in the second file
#elif PART == 3
static At<6, 7> part_object;    // g: while a library is being loaded, h: while it is unloaded
#else
static void keep_main() { static thread_local At<-1, 8> t; (void)t; } static void keep_other() { static thread_local At<-1, 4> t; (void)t; }
int main(int c, char**) {
    if (c > 1) { for (auto& p : hx::PROBES) puts(p.name); return 0; }
    atexit([] { phase(9); });                                                     // j: registered before anything was used in main
    keep_main();                                           // i: thread_local of the main thread
    phase(2);                                              // c: main
    std::thread([] { keep_other(); phase(3); }).join();    // d: another thread, e: its thread_local destructor
    static At<-1, 5> late;                                 // f: function-local static, destroyed first
    if (const char* so = getenv("LIFE_SO")) { void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) { puts(dlerror()); _exit(9); } dlclose(h); }
    return 0;
}
#endif
