// Each public header provides what it is named for: programs that include one header and use the facilities of its area.
#include "inc.hpp"
#include <algorithm>
#include <vector>
namespace hx {
static const char* const STD[] = {"c++11", "c++14", "c++17", "c++20"}; static const char* const CXX[] = {"g++", "clang++"};
struct F { const char* areas; int since; const char* std_header; const char* use; };     // area letters; standard index; header that declares it (0: this library); statements
// A algorithms C collections D date E error F file I io M memory N numeric G serializing S string Y system T testing H threading R traits U utility c char
static const F FS[] = {
    {"A", 0, "algorithm", "int a[] = {2, 1}; std::sort(a, a + 2); (void)std::count(a, a + 2, 1); (void)std::min(1, 2); (void)std::lower_bound(a, a + 2, 1);"}, {"A", 2, "execution", "(void)std::execution::seq; (void)std::execution::par;"}, {"A", 3, "ranges", "int a[] = {2, 1}; (void)std::ranges::begin(a); for (int x : std::views::iota(0, 2)) (void)x;"},
    {"cS", 0, "cctype", "(void)std::isalpha('a'); (void)std::toupper('a');"}, {"cS", 0, "cstring", "(void)std::strlen(\"a\"); (void)std::memcmp(\"a\", \"b\", 1);"}, {"cS", 0, "cwchar", "std::wint_t w = 0; (void)w; (void)std::wcslen(L\"a\");"}, {"cS", 0, "cwctype", "(void)std::iswalpha(L'a');"}, {"cS", 0, "cuchar", "std::mbstate_t s; char32_t c; (void)std::mbrtoc32(&c, \"a\", 1, &s);"}, {"cS", 2, "charconv", "int v; char b[4]; (void)std::from_chars(b, b + 4, v); (void)std::to_chars(b, b + 4, 1);"},
    {"C", 0, "array", "std::array<int, 2> v{{1, 2}}; (void)v.size();"}, {"C", 0, "deque", "std::deque<int> v; v.push_front(1);"}, {"C", 0, "forward_list", "std::forward_list<int> v; v.push_front(1);"}, {"C", 0, "list", "std::list<int> v; v.push_front(1);"}, {"C", 0, "map", "std::map<int, int> v; std::multimap<int, int> w; v[1] = 2;"}, {"C", 0, "queue", "std::queue<int> v; std::priority_queue<int> w; v.push(1);"},
    {"C", 0, "set", "std::set<int> v; std::multiset<int> w; v.insert(1);"}, {"C", 0, "stack", "std::stack<int> v; v.push(1);"}, {"C", 0, "unordered_map", "std::unordered_map<int, int> v; std::unordered_multimap<int, int> w; v[1] = 2;"}, {"C", 0, "unordered_set", "std::unordered_set<int> v; std::unordered_multiset<int> w; v.insert(1);"}, {"C", 0, "vector", "std::vector<int> v; v.push_back(1);"},
    {"D", 0, "chrono", "(void)std::chrono::system_clock::now(); (void)std::chrono::steady_clock::now(); (void)std::chrono::duration_cast<std::chrono::seconds>(std::chrono::milliseconds(1));"}, {"D", 0, "ctime", "std::time_t t = 0; std::tm* m = std::gmtime(&t); (void)m; (void)std::mktime(m);"}, {"D", 0, "clocale", "(void)std::setlocale(LC_ALL, 0);"}, {"D", 0, "locale", "std::locale l; (void)std::use_facet<std::ctype<char>>(l);"}, {"D", 1, 0, "(void)(10ms + 2s == 1h);"},
    {"E", 0, "cassert", "assert(true);"}, {"E", 0, "cerrno", "errno = EINVAL; (void)errno;"}, {"E", 0, "exception", "std::exception_ptr p = std::current_exception(); (void)p;"}, {"E", 0, "stdexcept", "std::runtime_error r(\"a\"); std::out_of_range o(\"b\"); (void)r; (void)o;"}, {"E", 0, "system_error", "std::error_code c = std::make_error_code(std::errc::invalid_argument); (void)c;"},
    {"E", 0, 0, "Caitlyn::Expected<int, char> e{1}; Caitlyn::Expected<int, char> f{Caitlyn::Unexpected<char>{'x'}}; (void)e; (void)f;"},
    {"FI", 0, "fstream", "std::ifstream i; std::ofstream o; std::fstream f;"}, {"FI", 0, 0, "Caitlyn::File f = Caitlyn::MakeFile(\"x\"); (void)f;"},
    {"I", 0, "cstdio", "(void)std::fopen; (void)std::printf;"}, {"I", 0, "iomanip", "(void)std::setw(3); (void)std::setprecision(2);"}, {"I", 0, "ios", "std::streamsize n = 0; (void)n; (void)std::ios_base::in; (void)std::hex;"}, {"I", 0, "iostream", "std::cout << 1 << std::endl; int x; std::cin >> x; std::cerr << 2; std::clog << 3;"}, {"I", 0, "streambuf", "std::streambuf* b = 0; (void)b;"}, {"I", 3, "syncstream", "std::osyncstream o(std::cout); o << 1;"}, {"I", 0, 0, "Caitlyn::OutputStream::Write(\"x\"); (void)Caitlyn::InputStream::ReadLine(); Caitlyn::ErrorStream::WriteLine(\"y\"); Caitlyn::LogStream::WriteLine(\"z\");"},
    {"M", 0, "memory", "std::unique_ptr<int> u(new int(1)); std::shared_ptr<int> s = std::make_shared<int>(2); std::weak_ptr<int> w(s); std::allocator<int> a; (void)a;"}, {"M", 0, "new", "try { throw std::bad_alloc(); } catch (const std::bad_alloc&) {} char b[4]; new (b) char(1); (void)std::nothrow;"}, {"M", 0, "scoped_allocator", "std::scoped_allocator_adaptor<std::allocator<int>> a; (void)a;"}, {"M", 2, "memory_resource", "std::pmr::memory_resource* r = std::pmr::new_delete_resource(); (void)r; std::pmr::monotonic_buffer_resource m;"},
    {"M", 0, 0, "Caitlyn::UniquePtr<int> u{new int(1)}; Caitlyn::SharedPtr<int> s{new int(2)}; Caitlyn::WeakPtr<int> w{s}; (void)Caitlyn::SizeOf<int>();"},
    {"N", 0, "cfenv", "(void)std::fegetround();"}, {"N", 0, "cfloat", "(void)DBL_EPSILON;"}, {"N", 0, "cinttypes", "const char* f = PRId64; (void)f; (void)std::imaxabs(1);"}, {"N", 0, "climits", "(void)INT_MAX;"}, {"N", 0, "cmath", "(void)std::sqrt(2.0); (void)std::isnan(1.0); (void)std::lround(1.5);"}, {"N", 0, "complex", "std::complex<double> z(1, 2); (void)std::norm(z);"}, {"N", 0, "cstdint", "std::int64_t v = 1; std::uint8_t w = 2; (void)v; (void)w;"}, {"N", 0, "limits", "(void)std::numeric_limits<int>::max();"}, {"N", 0, "numeric", "int a[] = {1, 2}; (void)std::accumulate(a, a + 2, 0); std::iota(a, a + 2, 0);"},
    {"N", 0, "random", "std::mt19937 g(1); std::uniform_int_distribution<int> d(0, 1); (void)d(g);"}, {"N", 0, "ratio", "(void)std::ratio<1, 2>::num; (void)std::milli::den;"}, {"N", 0, "valarray", "std::valarray<int> v(3); (void)v.sum();"}, {"N", 3, "bit", "(void)std::popcount(1u); (void)(std::endian::native == std::endian::little);"}, {"N", 3, "numbers", "(void)std::numbers::pi;"},
    {"N", 0, 0, "Caitlyn::BigInteger i{\"12\"}; Caitlyn::BigFloat f{\"1.5\"}; (void)(\"12\"_bigint == i); (void)(\"1.5\"_bigfloat == f); (void)Caitlyn::MaxValue<int>(); (void)Caitlyn::MinValue<int>();"},
    {"G", 0, 0, "Caitlyn::JsonDocument d; d[\"a\"] = 1; (void)d.ToString(); (void)Caitlyn::Json::MakeArray(); (void)Caitlyn::Json::MakeDocument(); Caitlyn::JsonDocument j = JSON_STRING({\"a\": [1, 2]});"},
    {"S", 0, "sstream", "std::ostringstream o; o << 1; std::istringstream i(\"1\"); std::stringstream s;"}, {"S", 0, "string", "std::string s(\"a\"); (void)std::to_string(1); (void)std::stoi(\"1\"); std::wstring w; std::u32string u;"}, {"S", 1, 0, "std::string s = \"a\"s; (void)s;"}, {"S", 2, 0, "std::string_view v = \"a\"sv; (void)v;"},
    {"S", 0, 0, "Caitlyn::String s{\"a\"}; (void)(s + \"b\"); (void)Caitlyn::String::Format(\"{}\", 1); Caitlyn::StringBuilder b; b.Append(\"x\"); (void)Caitlyn::MakeText(\"y\"); Caitlyn::Char c{'a'}; (void)c;"}, {"c", 0, 0, "Caitlyn::Char c{'a'}; (void)(c == 'a'); (void)Caitlyn::ToUppercase(0x61); (void)Caitlyn::IsSpace(0x20);"},
    {"Y", 2, "filesystem", "std::filesystem::path p(\"/tmp\"); (void)std::filesystem::exists(p);"},
    {"H", 0, "condition_variable", "std::condition_variable v; v.notify_all();"}, {"H", 0, "future", "std::promise<int> p; std::future<int> f = p.get_future(); (void)std::launch::async;"}, {"H", 0, "mutex", "std::mutex m; std::lock_guard<std::mutex> l(m); std::once_flag o; std::call_once(o, [] {});"}, {"H", 0, "thread", "std::thread t; (void)std::this_thread::get_id();"}, {"H", 1, "shared_mutex", "std::shared_timed_mutex m; std::shared_lock<std::shared_timed_mutex> l(m);"},
    {"H", 3, "barrier", "std::barrier<> b(1);"}, {"H", 3, "coroutine", "std::coroutine_handle<> h; (void)h; std::suspend_always a; (void)a;"}, {"H", 3, "latch", "std::latch l(1); l.count_down();"}, {"H", 3, "semaphore", "std::counting_semaphore<2> s(1); s.acquire();"}, {"H", 3, "stop_token", "std::stop_source s; (void)s.get_token();"},
    {"R", 0, 0, "static_assert(Caitlyn::Same<int, int>(), \"\"); static_assert(Caitlyn::IsInteger<int>(), \"\"); Caitlyn::RemoveConstType<const int> v = 1; int&& r = Caitlyn::MakeMovable(v); (void)r; (void)Caitlyn::Forward<int&>(v);"},
    {"U", 0, "bitset", "std::bitset<4> b(5); (void)b.count();"}, {"U", 0, "csetjmp", "std::jmp_buf b; (void)b;"}, {"U", 0, "csignal", "(void)SIGINT; std::sig_atomic_t s = 0; (void)s;"}, {"U", 0, "cstdarg", "std::va_list l; (void)l;"}, {"U", 0, "cstddef", "std::size_t n = 0; std::nullptr_t z = nullptr; (void)n; (void)z; struct Z { int a; }; (void)offsetof(Z, a);"}, {"U", 0, "cstdlib", "(void)std::abs(1); (void)EXIT_SUCCESS; (void)std::getenv(\"a\");"}, {"U", 0, "functional", "std::function<int()> f = [] { return 1; }; (void)std::hash<int>()(1); (void)std::bind(f); int x; (void)std::ref(x);"}, {"U", 0, "initializer_list", "std::initializer_list<int> l = {1}; (void)l;"},
    {"U", 0, "regex", "std::regex r(\"a\"); (void)std::regex_match(\"a\", r);"}, {"U", 0, "tuple", "std::tuple<int, char> t(1, 'a'); (void)std::get<0>(t); (void)std::make_tuple(1);"}, {"U", 0, "type_traits", "static_assert(std::is_same<int, int>::value, \"\");"}, {"U", 0, "typeindex", "std::type_index i(typeid(int)); (void)i;"}, {"U", 0, "typeinfo", "const std::type_info& i = typeid(int); (void)i;"}, {"U", 0, "utility", "std::pair<int, int> p = std::make_pair(1, 2); std::swap(p.first, p.second); (void)std::move(p);"},
    {"U", 2, "any", "std::any a = 1; (void)std::any_cast<int>(a);"}, {"U", 2, "optional", "std::optional<int> o = 1; (void)*o; (void)std::nullopt;"}, {"U", 2, "variant", "std::variant<int, char> v = 1; (void)std::get<int>(v);"}, {"U", 3, "source_location", "(void)std::source_location::current().line();"}, {"U", 3, "version", "(void)__cpp_lib_optional;"},
    {"U", 0, 0, "(void)Caitlyn::cmp_less(-1, 1u); (void)Caitlyn::Random(1, 2);"},
    {"*", 0, 0, "(void)&Caitlyn::Application::Initialise; Caitlyn::Int32 i = 1; Caitlyn::SizeType n = 2; Caitlyn::CodePoint p = 3; (void)i; (void)n; (void)p;"},
};
static const unsigned NF = sizeof FS / sizeof *FS;
struct H { const char* name; const char* areas; };
static const H HS[] = {{"Algorithms", "A"}, {"Caitlyn", "ACDEFIMNGScYHRU"}, {"Char", "c"}, {"Collections", "C"}, {"DateTime", "D"}, {"Error", "E"}, {"File", "F"}, {"IO", "FI"}, {"Memory", "M"}, {"Numeric", "N"}, {"Serializing", "G"}, {"String", "S"}, {"System", "Y"}, {"Testing", "T"}, {"Threading", "H"}, {"Traits", "R"}, {"Utility", "U"}};
static const char* const TESTING = "struct Fx { int x = 1; };\nTEST(S, plain) { ASSERT_TRUE(true); ASSERT_FALSE(false); ASSERT_EQ(1, 1); ASSERT_NE(1, 2); ASSERT_LT(1, 2); ASSERT_LE(1, 1); ASSERT_GT(2, 1); ASSERT_GE(1, 1); ASSERT_EQ_PRINTABLE(1, 1); ASSERT_STREQ(\"a\", \"a\"); PASS(); }\nTEST_F(Fx, other) { ASSERT_EQ(x, 1); }\nint run() { return (int)sizeof Caitlyn::Test::TestRegistry::Instance(); }\n";
static bool wanted(const H& h, const F& f) { if (*f.areas == '*') return true; for (const char* a = f.areas; *a; ++a) if (strchr(h.areas, *a)) return true; return false; }
static std::string body(const std::vector<unsigned>& u) { std::string s; for (unsigned i : u) s += mc::strf("void f%u() { %s }\n", i, FS[i].use); return s; }
MC_SECTION(facilities, false, false, true, false, 300) {
    unsigned h = e.choose(sizeof HS / sizeof *HS), s = e.choose(4), c = e.choose(2); e.op("use of one header"); e.state(mc::Hash().u(h).u(s).u(c)); std::vector<unsigned> u; for (unsigned i = 0; i < NF; ++i) if (FS[i].since <= (int)s && wanted(HS[h], FS[i])) u.push_back(i);
    std::string o, std_only = "int main() {}\n", first = mc::strf("#include <Caitlyn/%s>\n", HS[h].name); MC_LOG(e, "%s -std=%s, <Caitlyn/%s>, %u facilities", CXX[c], STD[s], HS[h].name, (unsigned)u.size()); e.transition(u.size());
    auto compiles = [&](const std::vector<unsigned>& v) { return inc::run(e, mc::strf("%s -std=%s -w -I%s -fsyntax-only %s", CXX[c], STD[s], inc::dir(), inc::file("a.cpp", first + (HS[h].areas[0] == 'T' ? TESTING : "") + body(v) + "int main() {}\n").c_str()), o) == 0; };
    while (!compiles(u)) {               // bisect to one facility; leave it out only if the compiler itself lacks it
        std::string all = o; std::vector<unsigned> v = u;
        while (v.size() > 1) { std::vector<unsigned> a(v.begin(), v.begin() + v.size() / 2), b(v.begin() + v.size() / 2, v.end()); if (!compiles(a)) v = a; else if (!compiles(b)) v = b; else break; }
        if (v.size() != 1 || compiles(v)) e.fail("together", "%s -std=%s <Caitlyn/%s>: does not compile with these facilities together:\n%s", CXX[c], STD[s], HS[h].name, all.c_str());
        unsigned i = v[0]; std::string why = o, direct = FS[i].std_header ? mc::strf("#include <%s>\nvoid f() { %s }\nint main() {}\n", FS[i].std_header, FS[i].use) : "#include <string>\nint main() {}\n";
        if (inc::usable(e, CXX[c], STD[s], direct)) e.fail("missing", "with %s -std=%s <Caitlyn/%s> does not provide what %s is for: %s\n%s", CXX[c], STD[s], HS[h].name, FS[i].std_header ? FS[i].std_header : "the library", FS[i].use, why.c_str());
        u.erase(std::find(u.begin(), u.end(), i)); MC_LOG(e, "without %s", FS[i].use); if (u.empty()) break;
    }
    e.outcome(mc::Hash().u(h).u(u.size()));
}
}
