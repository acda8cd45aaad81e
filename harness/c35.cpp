// The application object is process-wide state: every execution runs in a process of its own.
#include "mc.hpp"
#include <sys/wait.h>
#include "Caitlyn/__Caitlyn.h"
using namespace Caitlyn;
extern const Application* other_unit_initialise(int how, int argc, const char** argv);   // c35_other.cpp
namespace hx {
// runs f in a child process; f returns "" or what is wrong
template <class F> static void isolated(mc::Exec& e, F&& f) {
    int p[2]; if (pipe(p)) abort();
    pid_t k = fork();
    if (!k) { std::string r; try { r = f(); } catch (const std::exception& x) { r = std::string("escaped exception: ") + x.what(); } ssize_t z = write(p[1], r.data(), r.size()); (void)z; _exit(r.empty() ? 0 : 3); }
    close(p[1]); std::string r; char b[512]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)n); close(p[0]); int st; waitpid(k, &st, 0);
    if (!r.empty()) e.fail(r.substr(0, r.find(' ')).c_str(), "%s", r.c_str());
    if (!WIFEXITED(st) || WEXITSTATUS(st)) e.fail("died", "the process ends with status 0x%x", st);
}
static const char* WORD[] = {"prog", "", "--flag=\xC3\xA9", "a b\n", "0123456789012345678901234567890123456789"};
enum { NOTHING, INITIALISE, INIT0, INIT1, INIT2, INIT3, INIT40, OTHER0, OTHER2, NOPS };
static const char* NM[] = {"nothing", "Initialise()", "Initialize(0, {})", "Initialize(1, ..)", "Initialize(2, ..)", "Initialize(3, ..)", "Initialize(40, ..)", "Initialise() in another unit", "Initialize(2, ..) in another unit"};
MC_SECTION(histories, false) {
    unsigned depth = mc::tier(3u, 4u); std::vector<unsigned> ops; unsigned w = e.choose(5), stride = e.choose(3); bool scribble = e.flag();
    for (unsigned i = 0; i < depth; ++i) { ops.push_back(e.choose(NOPS)); MC_LOG(e, "%s", NM[ops.back()]); } e.op("application history");
    MC_LOG(e, "words start at %u in steps of %u%s", w, stride, scribble ? ", the caller overwrites its arguments after each call" : "");
    isolated(e, [&]() -> std::string {
        const Application* app = nullptr; std::vector<std::string> want; unsigned k = 0;
        for (unsigned op : ops) {
            int n = op == INIT1 ? 1 : op == INIT2 || op == OTHER2 ? 2 : op == INIT3 ? 3 : op == INIT40 ? 40 : 0; std::vector<std::string> text; for (int i = 0; i < n; ++i) text.push_back(WORD[(w + k++ * (stride + 1)) % 5]);
            std::vector<std::vector<char>> mem; std::vector<const char*> av; for (auto& t : text) { mem.emplace_back(t.begin(), t.end()); mem.back().push_back(0); } for (auto& m : mem) av.push_back(m.data()); av.push_back(nullptr);
            const Application* got = nullptr; bool t = false; std::string what;
            try {
                switch (op) { case NOTHING: break; case INITIALISE: got = Application::Initialise(); break; case OTHER0: got = other_unit_initialise(0, 0, av.data()); break; case OTHER2: got = other_unit_initialise(1, n, av.data()); break; default: got = Application::Initialize(n, av.data()); }
            } catch (const std::runtime_error&) { t = true; }
            if (scribble) { for (auto& m : mem) for (size_t i = 0; i + 1 < m.size(); ++i) m[i] = '#'; for (auto& p : av) p = nullptr; } mem.clear(); av.clear();
            if (op != NOTHING) {
                if (t != (app != nullptr)) return mc::strf("once %s %s", NM[op], t ? "throws although it is the first call" : "is accepted although the application is initialised");
                if (!t) { if (!got) return mc::strf("null %s returns null", NM[op]); app = got; want = text; }
            }
            if (app) {
                auto& a = app->GetArgs(); if (a.size() != want.size()) return mc::strf("args %zu arguments are kept instead of %zu", a.size(), want.size());
                for (size_t i = 0; i < want.size(); ++i) if (want[i] != a[i]) return mc::strf("args argument %zu is %s instead of %s", i, mc::quote(a[i]).c_str(), mc::quote(want[i]).c_str());
                if (!app->GetSystemName() || std::string(app->GetSystemName()).find("inux") == std::string::npos) return "info the system name is not Linux";
                if (!app->GetCompilerInfo() || !*app->GetCompilerInfo()) return "info there is no compiler name"; if (!app->GetCaitlynInfo() || !*app->GetCaitlynInfo()) return "info there is no library version";
            }
        }
        return "";
    });
    e.transition(depth); mc::Hash h; for (unsigned o : ops) h.u(o); e.state(h.u(w).u(stride)); unsigned first = 0; for (unsigned o : ops) if (o) { first = o; break; } e.outcome(mc::Hash().u(first).u(w).u(stride));
}
// every number of arguments
MC_SECTION(counts, false) {
    int n = (int)e.choose(mc::tier(130u, 600u)); unsigned len = e.choose(4); e.op("Initialize(n, ..)"); MC_LOG(e, "%d arguments of length %u", n, len * len * len);
    isolated(e, [&]() -> std::string {
        std::vector<std::string> t; std::vector<const char*> av; for (int i = 0; i < n; ++i) t.push_back(std::string(len * len * len, (char)('a' + i % 26)) + std::to_string(i)); for (auto& s : t) av.push_back(s.c_str()); const Application* a = Application::Initialize(n, av.data());
        if (a->GetArgs().size() != (size_t)n) return mc::strf("args %zu arguments are kept instead of %d", a->GetArgs().size(), n); for (int i = 0; i < n; ++i) { if (t[(size_t)i] != a->GetArgs()[(size_t)i]) return mc::strf("args argument %d of %d", i, n); if (a->GetArgs()[(size_t)i] == av[(size_t)i]) return mc::strf("copy argument %d of %d is not a copy", i, n); }
        try { Application::Initialise(); return "once Initialise is accepted a second time"; } catch (const std::runtime_error&) { } return ""; });
    e.transition((uint64_t)n + 1); e.outcome(mc::Hash().u((uint64_t)n).u(len));
}
}
