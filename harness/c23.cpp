#include "mc.hpp"
#include "Caitlyn/__Core/File.h"
#include "Caitlyn/__Numeric/Types/BigInteger.h"
using namespace Caitlyn;
namespace hx {
static std::string path() { return mc::scratch() + "/f"; }
static std::string disk(const std::string& p, bool* there = nullptr) { int fd = open(p.c_str(), O_RDONLY); if (there) *there = fd >= 0; std::string r; if (fd < 0) return r; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n); close(fd); return r; }
static void put(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); close(fd); }
struct H { std::unique_ptr<File> f; long long cur = 0; int eof = 0; bool open = false; };   // eof -1: not claimed
static std::string txt(const String& s) { return s.str(); }
// what the library's own decoder makes of these bytes ("!" when it refuses them); C01/C02 decide the decoder
static std::string dec(const std::string& s) { try { return txt(String(s.c_str())); } catch (const std::exception&) { return "!"; } }
struct Op { const char* n; int kind; const char* a; long long p; };
enum { WRITE, READ, LINE, SEEK, SEEKEND, ERASE, CLOSE, OPEN, COPY, FRESH };
static const Op OPS[] = {
    {"Write(ab)", WRITE, "ab", 0}, {"Write(empty)", WRITE, "", 1}, {"WriteLine(\xC3\xA9)", WRITE, "\xC3\xA9\n", 2}, {"Append(x,LF,y)", WRITE, "x\ny", 3}, {"AppendLine(z)", WRITE, "z\n", 4}, {"Write({}-{}, 1, s)", WRITE, "1-s", 5}, {"WriteLine(empty)", WRITE, "\n", 6},
    {"Read()", READ, "", 0}, {"ReadLine()", LINE, "\n", 0}, {"ReadLine(',')", LINE, ",", 0},
    {"SetPosition(0)", SEEK, "", 0}, {"SetPosition(3)", SEEK, "", 3}, {"SetPosition(-1)", SEEK, "", -1}, {"SetPosition(size)", SEEKEND, "", 0}, {"SetPosition(size+2)", SEEKEND, "", 2},
    {"Erase()", ERASE, "", 0}, {"Close()", CLOSE, "", 0}, {"Open()", OPEN, "", 0}, {"h = copy of the other", COPY, "", 0}, {"h = File(name)", FRESH, "", 0}};
static void dowrite(File& f, const Op& o) {
    switch (o.p) { case 0: f.Write("ab"); break; case 1: f.Write(""); break; case 2: f.WriteLine(String("\xC3\xA9")); break; case 3: f.Append("x\ny"); break; case 4: f.AppendLine("z"); break; case 5: f.Write("{}-{}", 1, "s"); break; case 6: f.WriteLine(""); break; }
}
static void readline(mc::Exec& e, H& h, const std::string& m, char d, const char* who) {
    long long sz = (long long)m.size(); std::string want; bool eof = true; long long c = h.cur;
    if (c < sz) { size_t q = m.find(d, (size_t)c); if (q == std::string::npos) { want = m.substr((size_t)c); c = sz; } else { want = m.substr((size_t)c, q - (size_t)c); c = (long long)q + 1; eof = false; } }
    std::string w = dec(want), g; try { g = txt(d == '\n' ? h.f->ReadLine() : h.f->ReadLine(d)); } catch (const std::ios_base::failure&) { e.fail("read-failed", "%s: ReadLine at %lld of %lld bytes throws", who, h.cur, sz); } catch (const std::exception&) { g = "!"; }
    if (g != w) e.fail("line", "%s: ReadLine at %lld gives %s instead of %s", who, h.cur, mc::quote(g).c_str(), mc::quote(w).c_str());
    h.cur = c; h.eof = eof; h.open = true;
}
static void after(mc::Exec& e, const H* h, unsigned n, const std::string& m, const char* op) {
    std::string d = disk(path()); if (d != m) e.fail("bytes", "after %s the file holds %s instead of %s", op, mc::quote(d).c_str(), mc::quote(m).c_str());
    mc::Hash s; s.s(m);
    for (unsigned i = 0; i < n; ++i) { long long g = (long long)h[i].f->GetPosition(); if (g != h[i].cur) e.fail("position", "after %s GetPosition of handle %u is %lld instead of %lld", op, i, g, h[i].cur); if (h[i].eof >= 0 && (h[i].f->IsEof() != (h[i].eof == 1) || static_cast<bool>(*h[i].f) == (h[i].eof == 1))) e.fail("eof", "after %s handle %u IsEof is %d", op, i, h[i].f->IsEof()); s.u((uint64_t)h[i].cur).u((uint64_t)(h[i].eof + 1)).u(h[i].open); }
    e.state(s);
}
static void history(mc::Exec& e, unsigned depth, unsigned nh, const std::string& start) {
    put(path(), start); std::string m = start; H h[2]; for (unsigned i = 0; i < nh; ++i) { h[i].f.reset(new File(String(path().c_str()))); h[i].open = true; } MC_LOG(e, "file %s, %u handles", mc::quote(start).c_str(), nh);
    for (unsigned d = 0; d < depth; ++d) {
        const Op& o = OPS[e.choose(sizeof OPS / sizeof *OPS)]; unsigned i = nh > 1 ? e.choose(nh) : 0; H& x = h[i]; e.op(o.n); MC_LOG(e, "h%u: %s", i, o.n);
        switch (o.kind) {
        case WRITE: dowrite(*x.f, o); m += o.a; x.open = true; if (x.eof == 1) x.eof = -1; break;
        case READ: { std::string w = dec(m), g; try { g = txt(x.f->Read()); } catch (const std::ios_base::failure& q) { e.fail("read-failed", "Read throws: %s", q.what()); } catch (const std::exception&) { g = "!"; } if (g != w) e.fail("read", "Read gives %s instead of %s", mc::quote(g).c_str(), mc::quote(w).c_str()); x.open = true; if (x.eof == 1) x.eof = -1; break; }
        case LINE: readline(e, x, m, o.a[0], "h"); break;
        case SEEK: case SEEKEND: {
            long long p = o.p + (o.kind == SEEKEND ? (long long)m.size() : 0); bool t = false; try { x.f->SetPosition(p); } catch (const std::ios_base::failure&) { t = true; }
            if (x.open && t != (p < 0)) e.fail("seek", "SetPosition(%lld) %s", p, t ? "throws" : "does not throw");
            if (!x.open && !t) x.open = true;   // a closed handle refuses or reopens
            if (!t) { x.cur = p; x.eof = 0; } break; }
        case ERASE: x.f->Erase(); m.clear(); x.cur = 0; x.eof = 0; x.open = true; break;
        case CLOSE: x.f->Close(); x.open = false; if (x.eof == 1) x.eof = -1; break;
        case OPEN: x.f->Open(); x.open = true; if (x.eof == 1) x.eof = -1; break;
        case COPY: { H t; t.f.reset(new File(static_cast<const File&>(*h[nh - 1 - i].f))); t.open = true; x = std::move(t); break; }
        case FRESH: { H t; t.f.reset(new File("{}", path())); t.open = true; x = std::move(t); break; }
        }
        e.transition(); after(e, h, nh, m, o.n);
    }
    // every handle still works
    for (unsigned i = 0; i < nh; ++i) { e.op("final use"); h[i].f->Write("E"); m += "E"; h[i].open = true; h[i].f->SetPosition((long long)m.size() - 1); h[i].cur = (long long)m.size() - 1; readline(e, h[i], m, '\n', "final"); }
    after(e, h, nh, m, "the final use"); e.outcome(mc::Hash().s(m));
    for (auto& x : h) x.f.reset(); std::string dd = disk(path()); e.check(dd == m, "bytes", "after destruction the file holds %s instead of %s", mc::quote(dd).c_str(), mc::quote(m).c_str());
}
MC_SECTION(one_handle, true) { static const char* S[] = {"", "p,q\r\nr"}; std::string s = S[e.choose(2)]; history(e, mc::tier(4u, 5u), 1, s); }
MC_SECTION(two_handles, true) { history(e, mc::tier(3u, 4u), 2, "k\n"); }
// every line of every small file, and every line of files around buffer boundaries
static void lines(mc::Exec& e, const std::string& c) {
    put(path(), c); File f(String(path().c_str())); H h; h.f.reset(new File(String(path().c_str()))); h.open = true; e.op("read all lines"); size_t n = 0;
    std::string w = dec(c), g; try { g = txt(f.Read()); } catch (const std::invalid_argument&) { g = "!"; } if (g != w) e.fail("read", "Read of %zu bytes", c.size());
    while (n < c.size() + 3 && !h.f->IsEof()) { readline(e, h, c, '\n', "lines"); ++n; } size_t want = 1 + (size_t)std::count(c.begin(), c.end(), '\n'); e.transition(n); if (n != want) e.fail("count", "%zu lines read instead of %zu", n, want);
    readline(e, h, c, '\n', "past the end"); if (!h.f->IsEof()) e.fail("eof", "no end of file past the end"); if (!txt(h.f->ReadLine()).empty()) e.fail("line", "text past the end");
}
MC_SECTION(small_files, true) { unsigned n = e.choose(mc::tier(7u, 9u)); static const char* L[] = {"a", "\n", "\xC3\xA9", ",", "\r"}; std::string c; for (unsigned i = 0; i < n; ++i) c += L[e.choose(5)]; MC_LOG(e, "content %s", mc::quote(c).c_str()); lines(e, c); }
static const unsigned SZ[] = {0, 1, 2, 15, 16, 17, 255, 256, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 100000};
MC_SECTION(large_files, true) {
    unsigned z = SZ[e.choose(sizeof SZ / sizeof *SZ)], k = e.choose(5); std::string c; for (unsigned i = 0; i < z; ++i) c += (char)('a' + i % 26);
    if (k == 1 && z) c[z - 1] = '\n'; if (k == 2 && z) c[0] = '\n'; if (k == 3) for (unsigned i = 0; i < z; i += 97) c[i] = '\n'; if (k == 4) for (unsigned i = 0; i + 1 < z; i += 89) { c[i] = '\xC3'; c[i + 1] = '\xA9'; } MC_LOG(e, "%u bytes, pattern %u", z, k); lines(e, c);
}
MC_SECTION(large_writes, true) {
    unsigned a = SZ[e.choose(sizeof SZ / sizeof *SZ)], b = SZ[e.choose(sizeof SZ / sizeof *SZ)]; unsigned way = e.choose(4); put(path(), "start\n"); File f(String(path().c_str())); std::string x(a, 'x'), y(b, 'y'), m = "start\n"; MC_LOG(e, "write %u then %u bytes, way %u", a, b, way); e.op("large write");
    if (way & 2) { f.ReadLine(); }
    f.Write(x.c_str()); m += x; if (disk(path()) != m) e.fail("bytes", "after writing %u bytes", a);
    if (way & 1) { f.SetPosition(3); e.check(txt(f.ReadLine()) == "rt", "line", "line at 3"); }
    f.AppendLine(String(y)); m += y + "\n"; if (disk(path()) != m) e.fail("bytes", "after writing %u and %u bytes", a, b); if (txt(f.Read()) != m) e.fail("read", "after writing %u and %u bytes", a, b); e.transition(3);
}
// every overload writes the text of its argument
struct Ts { std::string to_string() const { return "to_string"; } }; struct St { std::string str() const { return "str"; } }; struct TS { String ToString() const { return "ToString"; } };
template <class F> static void over(mc::Exec& e, File& f, std::string& m, const char* n, const char* add, F&& go) { e.op(n); go(); m += add; std::string d = disk(path()); if (d != m) e.fail("bytes", "%s wrote %s", n, mc::quote(d).c_str()); e.transition(); (void)f; }
MC_SECTION(overloads, true) {
    unsigned pre = e.choose(4); put(path(), "0\n"); std::string m = "0\n"; File f(String(path().c_str()));
    auto prep = [&] { switch (pre) { case 1: f.Close(); break; case 2: f.SetPosition(0); f.ReadLine(); break; case 3: f.SetPosition(0); while (!f.IsEof()) f.ReadLine(); break; } };
#define O(add, ...) prep(); over(e, f, m, #__VA_ARGS__, add, [&] { f.__VA_ARGS__; })
    O("c", Write("c")); O("s", Write(String("s"))); O("to_string", Write(Ts())); O("str", Write(St())); O("ToString", Write(TS())); O("1 b", Write("{} {}", 1, "b")); O("-12", Write(BigInteger("-12"))); O("std", Write(std::string("std")));
    O("c\n", WriteLine("c")); O("s\n", WriteLine(String("s"))); O("to_string\n", WriteLine(Ts())); O("str\n", WriteLine(St())); O("ToString\n", WriteLine(TS())); O("1 b\n", WriteLine("{} {}", 1, "b")); O("99\n", WriteLine(BigInteger("99")));
    O("c", Append("c")); O("s", Append(String("s"))); O("to_string", Append(Ts())); O("str", Append(St())); O("ToString", Append(TS())); O("1 b", Append("{} {}", 1, "b")); O("7", Append(BigInteger("7")));
    O("c\n", AppendLine("c")); O("s\n", AppendLine(String("s"))); O("to_string\n", AppendLine(Ts())); O("str\n", AppendLine(St())); O("ToString\n", AppendLine(TS())); O("1 b\n", AppendLine("{} {}", 1, "b")); O("8\n", AppendLine(BigInteger("8")));
    { File g = MakeFile(String(path().c_str())); g.Write("m"); m += "m"; e.check(disk(path()) == m, "bytes", "MakeFile"); }
}
// names that cannot be opened
MC_SECTION(unopenable, true) {
    std::string d = mc::scratch(); unlink(path().c_str()); static const char* N[] = {"", "/missing/f", "", "/f/under-a-file"}; unsigned k = e.choose(4); std::string n = k == 0 ? "" : d + N[k]; if (k == 3) put(path(), "x"); unsigned way = e.choose(6); e.op("unopenable name"); MC_LOG(e, "name kind %u, way %u", k, way);
    bool t = false; try { if (k == 0 && way) { File f; switch (way) { case 1: f.Open(); break; case 2: f.Read(); break; case 3: f.ReadLine(); break; case 4: f.Write("x"); break; case 5: f.AppendLine("x"); break; } } else if (way < 2) File f{String(n.c_str())}; else if (way < 4) File g("{}", n); else MakeFile(String(n.c_str())); } catch (const std::ios_base::failure&) { t = true; }
    e.check(t, "no-error", "a file of name kind %u is accepted", k); struct stat sb; e.check(k != 1 || stat(n.c_str(), &sb) != 0, "created", "a missing directory was created"); if (k == 3) { e.check(disk(path()) == "x", "bytes", "another file changed"); } e.transition();
    File dead; dead.Close(); dead.Close(); e.check(!dead.IsEof(), "eof", "a file without name is at its end"); unlink(path().c_str());
    { File f(String(path().c_str())); bool there; e.check(disk(path(), &there).empty() && there, "create", "opening a missing file does not create it"); }
    { put(path(), "abc"); File f(String(path().c_str())); f.Close(); rename(path().c_str(), (d + "/g").c_str()); f.Write("new"); e.check(disk(path()) == "new" && disk(d + "/g") == "abc", "reopen", "a closed file is not opened by its name"); unlink((d + "/g").c_str()); }
}
// every delimiter, next to every other byte: ReadLine takes the delimiter away and nothing else
MC_SECTION(delimiters, true) {
    unsigned d = 1 + e.choose(127), lo = 1 + 16 * e.choose(8); MC_LOG(e, "delimiter 0x%02x, neighbours 0x%02x..", d, lo); e.op("ReadLine(delimiter)");
    for (unsigned x = lo; x < lo + 16 && x < 128; ++x) {
        const char X = (char)x, D = (char)d; std::string m = std::string() + X + D + "q" + X + X + D + D + X; put(path(), m); H h; h.f.reset(new File(String(path().c_str()))); h.open = true;
        for (unsigned i = 0; i < 12 && !h.f->IsEof(); ++i) { long long c = h.cur; readline(e, h, m, D, "h"); long long g = (long long)h.f->GetPosition(); if (g != h.cur) e.fail("position", "GetPosition after ReadLine at %lld is %lld instead of %lld", c, g, h.cur); e.transition(); }
        e.check(h.f->IsEof(), "eof", "the end of %s is never reached", mc::quote(m).c_str());
    }
}
// files larger than narrow offsets: nearly all of them is a hole
MC_SECTION(huge_files, true, false, 0, true, 60) {
    static const long long S[] = {(1ll << 16) - 1, 1ll << 16, (1ll << 24) - 2, (1ll << 31) - 3, (1ll << 31) - 1, 1ll << 31, (1ll << 32) - 2, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 5, 3000000000ll, 5000000000ll};
    long long n = S[e.choose(sizeof S / sizeof *S)]; unsigned first = e.choose(2), how = e.choose(3); e.op("positions far into a file"); MC_LOG(e, "%lld bytes, way %u", n, how); e.state(mc::Hash().u((uint64_t)n).u(first).u(how)); put(path(), "start\n");
    if (truncate(path().c_str(), (off_t)n)) { unlink(path().c_str()); return; }
    { File f(String(path().c_str())); if (first) e.check(f.ReadLine() == "start" && (long long)f.GetPosition() == 6, "line", "the first line is lost");
      if (how == 0) f.Write("one\ntwo\nlast"); else if (how == 1) { f.Append("one\n"); f.WriteLine("two"); f.Append("{}", "last"); } else { File g(String(path().c_str())); g.AppendLine("one"); g.Write(String("two\nlast")); }
      struct stat sb; e.check(stat(path().c_str(), &sb) == 0 && (long long)sb.st_size == n + 12, "bytes", "the file has %lld bytes instead of %lld", (long long)sb.st_size, n + 12); e.transition(6);
      f.SetPosition((std::streamoff)n); e.check((long long)f.GetPosition() == n, "position", "SetPosition(%lld) gives %lld", n, (long long)f.GetPosition()); std::string a = f.ReadLine().str(); long long pa = (long long)f.GetPosition(); std::string b = f.ReadLine().str(); long long pb = (long long)f.GetPosition(); bool eb = f.IsEof(); std::string c = f.ReadLine().str();
      if (a != "one" || b != "two" || c != "last" || pa != n + 4 || pb != n + 8 || eb || !f.IsEof()) e.fail("line", "lines at %lld are %s (then %lld) %s (then %lld) %s", n, mc::quote(a.substr(0, 40)).c_str(), pa, mc::quote(b.substr(0, 40)).c_str(), pb, mc::quote(c.substr(0, 40)).c_str());
      f.SetPosition(0); e.check(f.ReadLine() == "start" && !f.IsEof(), "line", "the first line is lost afterwards"); f.Erase(); e.check(stat(path().c_str(), &sb) == 0 && sb.st_size == 0, "bytes", "Erase leaves %lld bytes", (long long)sb.st_size); f.Write("new\n"); e.check(f.ReadLine() == "new", "line", "the line written after Erase is lost"); }
    unlink(path().c_str());
}
}
