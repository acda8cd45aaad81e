#include "mc.hpp"
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include "Caitlyn/__Core/File.h"
using namespace Caitlyn;
// ---------------------------------------------------------------- the operating system, as the library sees it
namespace os {
enum Kind { NONE, FAIL, INTR, SHORT1, SHORTALL };
struct Plan { int at; Kind k; };
static bool armed = false; static std::string target; static std::set<int> fds; static std::set<FILE*> files;
static int count = 0; static std::vector<Plan> plan; static int hard = 0, soft = 0; static std::vector<std::string>* names = nullptr;
static void (*before)(const char* data, size_t n) = nullptr;   // every system call is a crash point
static Kind next(const char* name, const char* data = nullptr, size_t n = 0) {
    if (before) before(data, n);
    int i = count++; if (names) names->push_back(name);
    for (auto& p : plan) if (p.at == i) { if (p.k == FAIL) hard++; else soft++; return p.k; }
    return NONE;
}
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    if (!os::armed || !os::fds.count(fd)) return syscall(SYS_write, fd, b, n);
    switch (os::next("write", (const char*)b, n)) { case os::FAIL: errno = ENOSPC; return -1; case os::INTR: errno = EINTR; return -1; case os::SHORT1: n = n > 1 ? 1 : n; break; case os::SHORTALL: n = n > 1 ? n - 1 : n; break; default: break; }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!os::armed || !os::fds.count(fd)) return syscall(SYS_writev, fd, v, c);
    std::string all; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); size_t n = all.size();
    switch (os::next("writev", all.data(), n)) { case os::FAIL: errno = ENOSPC; return -1; case os::INTR: errno = EINTR; return -1; case os::SHORT1: n = n > 1 ? 1 : n; break; case os::SHORTALL: n = n > 1 ? n - 1 : n; break; default: break; }
    return syscall(SYS_write, fd, all.data(), n);
}
ssize_t read(int fd, void* b, size_t n) {
    if (!os::armed || !os::fds.count(fd)) return syscall(SYS_read, fd, b, n);
    switch (os::next("read")) { case os::FAIL: errno = EIO; return -1; case os::INTR: errno = EINTR; return -1; case os::SHORT1: n = n > 1 ? 1 : n; break; default: break; }
    return syscall(SYS_read, fd, b, n);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
    if (os::armed && os::fds.count(fd) && os::next("lseek") == os::FAIL) { errno = EIO; return -1; }
    return syscall(SYS_lseek, fd, o, w);
}
FILE* fopen64(const char* n, const char* m) {
    static auto r = os::real<FILE* (*)(const char*, const char*)>("fopen64");
    if (!os::armed || os::target != n) return r(n, m);
    if (os::next("open") == os::FAIL) { errno = EMFILE; return nullptr; }
    FILE* f = r(n, m); if (f) { os::files.insert(f); os::fds.insert(fileno(f)); } return f;
}
FILE* fopen(const char* n, const char* m) { return fopen64(n, m); }
int fclose(FILE* f) {
    static auto r = os::real<int (*)(FILE*)>("fclose");
    if (!os::files.count(f)) return r(f);
    bool fail = os::armed && os::next("close") == os::FAIL; os::files.erase(f); os::fds.erase(fileno(f)); int x = r(f); if (fail) { errno = EIO; return -1; } return x;
}
}
namespace hx {
static std::string path() { return mc::scratch() + "/f"; }
static std::string disk() { int fd = open(path().c_str(), O_RDONLY); std::string r; if (fd < 0) return r; char b[32768]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, (size_t)n); close(fd); return r; }
static void put(const std::string& s) { int fd = open(path().c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || syscall(SYS_write, fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); close(fd); }
enum { WRITE, APPEND, LINE, FMT, BIG, READ, READLINE, SEEK, ERASE, CLOSE, OPEN, COPY, NOPS };
static const char* NM[] = {"Write(3 bytes)", "Append(5 bytes)", "WriteLine", "AppendLine({})", "Write(9000 bytes)", "Read", "ReadLine", "SetPosition(1)", "Erase", "Close", "Open", "h = copy"};
// what may be on disk while an operation runs: the crash oracle
struct World { std::string base, data, junk; bool erasing = false; std::string bad; uint64_t points = 0, torn = 0; };
static World W;
static bool fromjunk(const std::string& s) { for (char c : s) if (W.junk.find(c) == std::string::npos) return false; return true; }
static bool legal(const std::string& d) {       // base, what earlier failed writes left pending, then a prefix of the running write
    if (W.erasing && (d.empty())) return true;
    if (d.compare(0, W.base.size(), W.base) != 0) return false;
    size_t a = W.base.size(), n = d.size() - a, k = n < W.data.size() ? n : W.data.size();
    for (size_t j = k + 1; j-- > 0;) if (d.compare(d.size() - j, j, W.data, 0, j) == 0 && fromjunk(d.substr(a, n - j))) return true;
    return false;
}
static void crash_point(const char* p, size_t n) {
    W.points++; std::string d = disk();
    if (!legal(d) && W.bad.empty()) W.bad = mc::strf("dying before system call %d would leave %s", os::count, mc::quote(d.substr(0, 80)).c_str());
    for (size_t k = 1; p && k <= n; k += (n > 64 && k > 2 && k + 2 < n ? n / 5 : 1)) { W.torn++; std::string t = d + std::string(p, k); if (!legal(t) && W.bad.empty()) W.bad = mc::strf("dying after %zu of %zu bytes of system call %d would leave %s", k, n, os::count, mc::quote(t.substr(0, 80)).c_str()); }
}
struct Fail { std::string sig, msg; };
// every overload that writes: 6 kinds of argument x Write, WriteLine, Append, AppendLine
enum { OVER = 100, NOVER = 24 };
struct Ts { std::string s; std::string to_string() const { return s; } }; struct St { std::string s; std::string str() const { return s; } }; struct TS { String s; String ToString() const { return s; } };
static const char* opname(int op) {
    static const char* N[NOVER] = {"Write(const char*)", "Write(String)", "Write(to_string)", "Write(str)", "Write(ToString)", "Write(format)", "WriteLine(const char*)", "WriteLine(String)", "WriteLine(to_string)", "WriteLine(str)", "WriteLine(ToString)", "WriteLine(format)",
        "Append(const char*)", "Append(String)", "Append(to_string)", "Append(str)", "Append(ToString)", "Append(format)", "AppendLine(const char*)", "AppendLine(String)", "AppendLine(to_string)", "AppendLine(str)", "AppendLine(ToString)", "AppendLine(format)"};
    return op >= OVER ? N[op - OVER] : NM[op];
}
static bool isline(int op) { return op == LINE || op == FMT || (op >= OVER && (op - OVER) / 6 % 2); }
static void over(File& f, int o, const std::string& w) {
#define K(M) switch (o % 6) { case 0: f.M(w.c_str()); break; case 1: f.M(String(w)); break; case 2: f.M(Ts{w}); break; case 3: f.M(St{w}); break; case 4: f.M(TS{String(w)}); break; case 5: f.M("{}", w); break; }
    switch (o / 6) { case 0: K(Write) break; case 1: K(WriteLine) break; case 2: K(Append) break; case 3: K(AppendLine) break; }
#undef K
}
static std::string piece(int op, int k) {       // every operation writes letters of its own
    std::string s; size_t n = op == WRITE ? 3 : op == APPEND ? 5 : op == BIG ? 9000 : 4; for (size_t i = 0; i < n; ++i) s += (char)((k % 2 ? 'a' : 'A') + (k / 2) * 6 + (int)(i % 6)); return s;
}
// one run of a history under a fault plan; returns the number of system calls
static int run(const std::vector<int>& ops, const std::vector<os::Plan>& plan, mc::Exec& e, bool log, std::vector<std::string>* names) {
    put("0123\n56"); W = World(); W.base = disk(); os::target = path(); os::count = 0; os::plan = plan; os::hard = os::soft = 0; os::names = names; os::fds.clear(); os::files.clear(); os::before = crash_point;
    auto fail = [&](const char* sig, const std::string& m) { os::armed = false; os::before = nullptr; throw Fail{sig, m}; };
    std::unique_ptr<File> f; bool sick = false, closed = false;
    for (size_t k = 0; k <= ops.size(); ++k) {
        int op = k ? ops[k - 1] : -1, h0 = os::hard; bool threw = false; std::string got, what; W.base = disk(); W.data.clear(); W.erasing = op == ERASE; bool wr = false; std::string w;
        const char* nm = k ? opname(op) : "File(name)"; if (log) MC_LOG(e, "%s", nm);
        if ((op >= 0 && op <= BIG) || op >= OVER) { w = piece(op, (int)k); wr = true; W.data = w + (isline(op) ? "\n" : ""); }
        os::armed = true;
        try {
            if (!f) { f.reset(new File(String(path().c_str()))); if (op < 0) op = -2; }
            if (op >= OVER) over(*f, op - OVER, w);
            switch (op) { case WRITE: f->Write(w.c_str()); break; case APPEND: f->Append(String(w)); break; case LINE: f->WriteLine(String(w)); break; case FMT: f->AppendLine("{}", w); break; case BIG: f->Write(w.c_str()); break;
                case READ: got = f->Read().str(); break; case READLINE: got = f->ReadLine().str(); break; case SEEK: f->SetPosition(1); break; case ERASE: f->Erase(); break; case CLOSE: f->Close(); break; case OPEN: f->Open(); break;
                case COPY: { std::unique_ptr<File> g(new File(static_cast<const File&>(*f))); f = std::move(g); break; } }
        } catch (const std::ios_base::failure& x) { threw = true; what = x.what(); }
        catch (const std::exception& x) { fail("other-exception", mc::strf("%s throws something else: %s", nm, x.what())); }
        os::armed = false; e.transition();
        std::string d = disk(); bool faulted = os::hard != h0; if (log) MC_LOG(e, "   %s, %d faults so far, %zu bytes on disk", threw ? "throws" : "succeeds", os::hard + os::soft, d.size());
        if (!W.bad.empty()) fail("crash", mc::strf("%s: %s", nm, W.bad.c_str()));
        if (threw && op == SEEK && closed) { if (!legal(d)) fail("after-error", "SetPosition on a closed file changed it"); continue; }
        if (!threw) closed = op == CLOSE; if (!threw && (op == OPEN || op == ERASE || op == COPY)) sick = false;
        if (threw && !faulted && !sick) fail("false-error", mc::strf("%s reports an error (%s) although every system call %s", nm, what.c_str(), os::soft ? "was only cut short or interrupted" : "succeeded"));
        if (threw) {
            sick = true; if (!legal(d)) fail("after-error", mc::strf("after a failed %s the file holds %s", nm, mc::quote(d.substr(0, 80)).c_str()));
            if (wr) for (char c : W.data) if (W.junk.find(c) == std::string::npos) W.junk += c;
        } else {
            std::string rest; bool ok = true;
            if (op == ERASE) ok = d.empty();
            else { size_t a = W.base.size(), n = W.data.size(); ok = d.size() >= a + n && d.compare(0, a, W.base) == 0 && d.compare(d.size() - n, n, W.data) == 0 && fromjunk(d.substr(a, d.size() - a - n)); }
            if (!ok) fail("lost", mc::strf("%s reports success but the file holds %s", nm, mc::quote(d.substr(0, 80)).c_str()));
            if (op == READ && got != d) fail("read", mc::strf("Read reports success but gives %s of %zu bytes", mc::quote(got.substr(0, 60)).c_str(), d.size()));
            if (op == READLINE && got.find('\n') != std::string::npos) fail("line", "ReadLine gives more than a line");
            if (op == READLINE && d.find(got) == std::string::npos) fail("line", mc::strf("ReadLine gives %s", mc::quote(got.substr(0, 60)).c_str()));
            if (op == READLINE && !got.empty()) { size_t at = d.find(got) + got.size(); if (got.size() > 1 && at < d.size() && d[at] != '\n') fail("line", mc::strf("ReadLine gives the torn line %s", mc::quote(got.substr(0, 60)).c_str())); }
        }
    }
    // closing and opening makes any handle work again
    int n = os::count; os::plan.clear(); os::armed = true; W.base = disk(); W.data = ""; W.erasing = false;
    try {
        if (!f) f.reset(new File(String(path().c_str())));
        f->Close(); f->Open(); std::string b = disk(); W.base = b; W.data = "~~"; f->Write("~~"); if (disk() != b + "~~") fail("recover", "after closing and opening, a write does not reach the file");
        W.base = disk(); W.data = ""; if (f->Read().str() != disk()) fail("recover", "after closing and opening, a read gives something else"); f->SetPosition(0); std::string l = f->ReadLine().str(), c = disk(); if (l != c.substr(0, c.find('\n'))) fail("recover", "after closing and opening, the first line is wrong");
        f.reset();
    } catch (const std::exception& x) { fail("recover", mc::strf("after closing and opening, the file is unusable: %s", x.what())); }
    os::armed = false; os::before = nullptr; if (!W.bad.empty()) fail("crash", W.bad);
    if (!os::files.empty()) fail("leak", "a file descriptor is left open");
    return n;
}
static void fault_history(mc::Exec& e, unsigned depth, unsigned faults, int overload = -1) {
    std::vector<int> ops; for (unsigned i = 0; i < depth; ++i) ops.push_back((int)e.choose(NOPS));
    if (overload >= 0) ops.push_back(overload);
    std::vector<os::Plan> plan; std::vector<std::string> names; e.op("file history");
    try {
        int n = run(ops, plan, e, true, &names); uint64_t points = W.points + W.torn;
        for (unsigned i = 0; i < faults; ++i) {
            int first = plan.empty() ? 0 : plan.back().at + 1; if (n <= first) break;
            int at = first + (int)e.choose((unsigned)(n - first)); std::string s = names[(size_t)at]; unsigned kinds = s == "write" || s == "writev" ? 4 : s == "read" ? 3 : 1;
            plan.push_back({at, (os::Kind)(1 + e.choose(kinds))}); static const char* K[] = {"", "fails", "is interrupted", "is cut to one byte", "is cut by one byte"};
            MC_LOG(e, "system call %d (%s) %s", at, s.c_str(), K[plan.back().k]); names.clear(); n = run(ops, plan, e, true, &names); points += W.points + W.torn;
        }
        e.transition(points); mc::Hash h; for (int o : ops) h.u((unsigned)o); for (auto& p : plan) h.u((unsigned)p.at).u(p.k); e.state(h); e.outcome(mc::Hash().s(disk()).u((uint64_t)os::hard));
    } catch (const Fail& f) { os::armed = false; e.fail(f.sig.c_str(), "%s", f.msg.c_str()); }
}
MC_SECTION(single, true) { fault_history(e, mc::tier(3u, 4u), 1); }
MC_SECTION(twice, true) { fault_history(e, mc::tier(2u, 3u), 2); }
MC_SECTION(crash_only, true) { fault_history(e, 4, 0); }
// every writing overload after every operation (and, on the thorough tier, after every two)
MC_SECTION(overloads, true) { int o = OVER + (int)e.choose(NOVER); fault_history(e, mc::tier(1u, 2u), mc::tier(1u, 2u), o); }
}
