# Registry of checks: harness binaries, bounds and evidence texts.  tools/gen_manifest.py turns it into MANIFEST.json.
SEM = "real code, compiled with ASan+UBSan+libstdc++ assertions, in every execution; "
CHECKS = {}
import os

REUSE = dict(flags=["-DREUSE"], env=dict(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=0:symbolize=0:quarantine_size_mb=0:thread_local_quarantine_size_kb=0:detect_stack_use_after_return=0"))

def check(pid, bins, technique, bounds_q, bounds_t, note, level="model_checking", rule=None, assumptions=(), budget=None):
    CHECKS[pid] = dict(bins=bins, technique=technique, level=level, note=note, rule=rule, bounds={"quick": bounds_q, "thorough": bounds_t},
                       assumptions=list(assumptions), budget=budget or {"quick": 150, "thorough": 2400})

check("C01", [dict(src="harness/c01.cpp")],
      "exhaustive enumeration of the implementation's input space against a reference codec",
      "all code points; all byte strings of length 0..2; all length-3..5 strings over 24 byte classes",
      "all code points; all byte strings of length 0..3; all length-3..5 strings over 24 byte classes",
      "Exhaustive over the whole code space. Trusts the 20-line reference codec. Overlong forms and surrogates are structurally well formed and therefore accepted by design; single-byte construction from a byte >= 0x80 is outside the claim.")

check("C02", [dict(src="harness/c02.cpp")],
      "exhaustive enumeration of byte strings through every decoding entry point against a reference decoder",
      "all byte strings <=6 over 9 byte classes; all 2-byte strings; every third 3-byte string; 18 lengths x 5 texts x 11 malformed tails x 3 places; 255 bytes and 17 patterns repeated 0..300 times",
      "all byte strings <=7 over 9 byte classes; all 3-byte strings; same long-text family",
      "Every construction path compared with a reference decoder; the input lives in an exact-size heap block so that one byte of over-read aborts. NUL terminates text (C strings) and is outside the claim.")
check("C03", [dict(src="harness/c03.cpp")],
      "exhaustive enumeration of bounded operation histories on the implementation against a list-of-characters model",
      "all histories of 3 operations from 3 start states; of 2 operations from 11 sizes around growth boundaries (26 operations with positions/characters); 20 standard algorithms through iterators on all texts of <=4 characters",
      "all histories of 4 operations from 3 start states; of 3 from 11 sizes; algorithms on texts of <=6 characters",
      "Complete within the bound, with ASan deciding aliasing and iterator errors. Only valid UTF-8 arguments here (C02 covers malformed ones).")
check("C04", [dict(src="harness/c04.cpp")],
      "exhaustive enumeration of haystack/needle/position triples against the naive definition",
      "haystacks <=10 x needles <=5 over 2 letters and <=6 x <=3 over 3, every position incl. past the end; periodic families up to 40/20; KMP patterns <=7 x texts <=9",
      "haystacks <=12 / <=8, periodic up to 70/34, KMP patterns <=9 x texts <=12",
      "Small-scope exhaustive plus periodic families for the failure function. ReverseFind with an explicit position means: the match lies entirely at or before it.")
check("C05", [dict(src="harness/c05.cpp")],
      "exhaustive enumeration of operand pairs against code-point order",
      "all pairs of words <=2 over 11 boundary characters and <=4 over 3; all code points against neighbours and boundaries; all insertion orders of 2..3 keys",
      "all pairs of words <=3 over 11 characters and <=6 over 3; 2..4 keys",
      "Agreement with a total order on all pairs implies totality, transitivity and consistency on the explored words.")
check("C06", [dict(src="harness/c06.cpp")],
      "exhaustive enumeration of all code points against Unicode tables",
      "all 1,112,064 scalar values through every mapping and query; all strings <=4 over 10 characters",
      "as quick with strings <=5",
      "Complete for single characters. Oracle: simple case mappings and general categories generated from Python's unicodedata 15.0, plus the two special mappings the library documents (U+00DF -> U+1E9E, U+0149 -> U+02BC).")
check("C07", [dict(src="harness/c07.cpp")],
      "exhaustive enumeration of format templates and argument lists against a reference formatter",
      "all templates <=4 over 17 symbols, all placeholder bodies <=4 over 17 symbols, all templates <=7 over 6 brace symbols, each with 0..3 arguments; the full specification grid (7 indices x 8 fills x 4 alignments x 9 widths x 8 precisions x 4 types x 5 argument lists); all sequences of <=4 of 16 segments",
      "templates and bodies <=5, <=9 over 6 symbols, sequences <=5",
      "Inside the documented grammar the output is compared exactly; unbalanced braces and missing arguments must raise an exception; undocumented specification text is only required to be memory safe.")
check("C08", [dict(src="harness/c08.cpp")],
      "exhaustive enumeration of bounded operation histories against a string model",
      "all histories of 4 operations (16 kinds) over two builders; of 2 from large builders", "5 operations; 3 from large builders",
      "Complete within the bound; a moved-from builder is only destroyed.")
check("C09", [dict(src="harness/c09.cpp")],
      "exhaustive enumeration of inputs against definitional models",
      "Split: all texts <=7 over 5 symbols; EscapeString: all texts <=6 over 11 symbols, all 65536 \\u escapes, surrogate grid; IsNumber <=5 over 10; non-space <=7 over 6; Repeat 20 counts",
      "one symbol longer each, all surrogate pairs",
      "Outcome of \\u0000 and lone surrogates is left open (only memory safety is required).")

check("C10", [dict(src="harness/c10.cpp")],
      "exhaustive enumeration of operands and bounded operation histories against boost::multiprecision integers",
      "all pairs in [-105,105]; power-of-ten boundaries to 10^30 (+-2, all signs); 6 digit patterns x 7 lengths <=40, all sign pairs; all 4-digit numbers over {0,5,9}; all texts <=4 over 13 symbols; histories of 4 of 16 operations",
      "[-350,350]; 12 exponents; 10 patterns x 15 lengths <=64; 5 digits; texts <=5; histories of 5",
      "Digit-serial code: carries and borrows are covered by all boundary/pattern combinations, not by all long numbers. Oracle: boost cpp_int.")
check("C11", [dict(src="harness/c11.cpp")],
      "exhaustive enumeration of operands against boost::multiprecision integers",
      "all pairs in [-60,60]; 0..2099 by -11..11; power-of-ten boundaries to 10^20; 5 digit patterns x 6 lengths <=33; q*y+-1 for q<45; powers of [-32,32] to 12; roots to 1204 and near squares",
      "[-250,250]; 0..29999; 10^30; 10 patterns x 14 lengths <=60; q<220; [-130,130] to 25; roots to 11979",
      "Powers below the int limit only; hang detection decides termination.")
check("C12", [dict(src="harness/c12.cpp")],
      "exhaustive enumeration of decimal operands and histories against exact rational arithmetic",
      "all pairs of hundredths in [-1.25,1.25]; 126 number shapes squared (up to 19 integer/21 fraction digits); texts <=5 over 8 symbols; histories of 4 of 13 operations; division, power and root grids",
      "[-3.30,3.30]; 240 shapes squared; texts <=6; histories of 5",
      "Division and root are claimed only as truncations with at least integer precision (exact when the root is a decimal of the operand's scale); construction from double only for multiples of 1/64. Texts with an empty integer part are left open.")

JSONNOTE = "Oracle: a strict RFC 8259 reference parser. Left open: leading '+', leading zeros, digits missing beside the point, non-JSON blanks, raw control characters, \\u0000, lone surrogates, integers beyond 64 bits, reals outside the normal range of the 32-bit floating type, nesting beyond 256. "
check("C13", [dict(src="harness/c13.cpp")],
      "exhaustive enumeration of texts against a reference parser",
      "all sequences of <=5 of 13 tokens in braces, <=6 structural tokens, <=5 raw tokens, <=5 value tokens; all documents of <=5 nodes with 4 whitespace styles; every one-byte edit of 5 documents; all string bodies <=4 over 12 symbols; all 65536 \\u escapes; all number texts <=6 over 8 symbols; literals <=5 letters; wide/deep families to 200",
      "one token/symbol more in every family",
      JSONNOTE + "Real values within half a unit of the 32-bit type.")
check("C14", [dict(src="harness/c14.cpp")],
      "exhaustive enumeration of arbitrary texts and parse histories under memory, leak and hang checking",
      "all texts <=4 over 20 symbols raw, in braces, as member value and inside strings; {+<=5 over 14; all cuts of 6 documents x 3 heads x 10 tails; all histories of 3 parses (21 texts x 4 entry points); nesting to 20000; 39 faults x 6 contexts, 20 faulty texts x 3 paddings and deep nesting, each with the code that names the fault; every copy, move, assignment and swap of documents of 21 x 21 outcomes",
      "one symbol/parse more; nesting to 200000",
      JSONNOTE + "Which error code is right is decided where the text has one fault (or the first of two) whose name is beyond doubt; elsewhere error state, code, message and content must agree.")
check("C15", [dict(src="harness/c15.cpp")],
      "exhaustive enumeration of documents, each printed by every printer and parsed by the implementation and a reference parser",
      "all documents of <=5 nodes over 7 leaves and 3 keys; all strings <=4 over 12 characters as value and key; code points <=U+3000; integer boundaries; 254 exponents x 16 mantissas x 2 signs; 5 decimal scales of [-10000,10000]",
      "6 nodes; strings <=5; all code points; 254 x 512 mantissas; [-200000,200000]",
      JSONNOTE + "Non-finite reals only have to print valid JSON.")
check("C16", [dict(src="harness/c16.cpp")],
      "exhaustive enumeration of bounded edit histories against a plain tree, with leak and memory checking",
      "all histories of 3 of 26 operations (x7 value kinds) on two documents and a free value; 4 of 11 retyping operations on one slot; all ordered pairs of 10 kinds x 6 ways of assignment; const access grid; growth families",
      "histories of 4; 5 retypings",
      "Moved-from values are only reassigned or destroyed. Values are built through std::string because JsonData has no conversion from Caitlyn::String.")
check("C17", [dict(src="harness/c17.cpp")],
      "exhaustive enumeration of documents and indents against a layout-checking oracle",
      "all documents of <=5 nodes over 3 leaves, indents 0..2; <=3 nodes over 9 leaves, 6 indents; scaled families to 64",
      "<=6 nodes, 6 indents",
      "Layout oracle: one line per member or element, indented by depth * indent; spaces inside an empty container are layout.")

check("C18", [dict(src="harness/c18.cpp")],
      "exhaustive enumeration of bounded operation histories against a plain sum type, with every payload object's lifetime registered",
      "all histories of 4 of 26 operations over two Expected with lifetime-registering payloads, of 3 for 7 other payload pairs (int, string, shared_ptr, same type), 5 of 6 for move-only payloads; every observer and combinator at the end of each",
      "one operation more in every family",
      "Moved-from Expected are only reassigned or destroyed. There is no swap member; std::swap is used.")
check("C19", [dict(src="harness/c19.cpp")],
      "exhaustive fault enumeration: every payload copy and callback of every bounded history throws",
      "all histories of 3 of 26 operations with up to 2 faults (1 for three other payload pairs) at every choice of fault points; the same with one payload that can only be copied, in either place; every observer with one fault",
      "histories of 4", "Payload destructors do not throw, and two payloads that both throw when moved are not combined (nothing can then be promised when the side changes); a failed assignment may leave either the old or the new content, never anything else.", level="fault_enumeration")
check("C20", [dict(src="harness/c20.cpp"), dict(src="harness/c20.cpp", name="c20_reused", **REUSE)],
      "exhaustive enumeration of bounded ownership histories against std::shared_ptr/std::unique_ptr, with every object's lifetime registered",
      "SharedPtr: all histories of 3 of 18 operations over 2 and 3 variables, with objects that own further pointers; UniquePtr: 4 of 14 over 2, 3 over 3, those over 2 also with freed memory handed out again at once; Ptr: 4 of 7; destructors that use owners; 1..40 owners",
      "one operation more each (SharedPtr over 3 variables as quick); 1..300 owners",
      "Owner cycles are not built. Ptr is used without destroying an object twice on purpose.")
SCHEDN = "Controlled scheduler mc/sched.cpp: real threads, one running at a time; every atomic, static-initialisation guard, mutex and once operation is a switch point; plain accesses are checked against vector clocks that follow the memory orders in the source, so that data-race freedom makes switching at synchronisation operations enough; use after free, double free, out-of-bounds accesses and leaks are judged on every access. Code inside libstdc++.so is not instrumented. Sequentially consistent fences are over-approximated. "
check("C21", [dict(src="harness/c21.cpp", sched=True)],
      "stateless model checking of the implementation: all schedules up to a preemption bound under a controlled scheduler with vector-clock race detection, C++11 stale reads and spurious CAS failures",
      "every pair of 14 owner/observer operations in 2 threads with <=4 preemptions, 1 stale read, 1 spurious failure; every pair of 2-operation scripts with <=2 preemptions; every triple of operations in 3 threads with <=2; x 3 ways of holding owner/observer outside",
      "<=20 preemptions (all schedules) and 2 stale reads for one operation, 3 preemptions + stale + spurious for two, 4 for three threads; three threads x two operations with 2",
      SCHEDN + "Each thread works on its own SharedPtr/WeakPtr variables; const ones may be read by all.")
check("C22", [dict(src="harness/c22.cpp"), dict(src="harness/c22.cpp", name="c22_reused", **REUSE)],
      "exhaustive enumeration of bounded histories against std::weak_ptr",
      "all histories of 3 of 20 operations over 2 owners and 2 observers with objects that hold observers of their own, also with freed memory handed out again at once, and then all histories of 5 of 12 create, drop, observe and lock operations; lists of <=6 nodes with back pointers",
      "histories of 4",
      "Equality of two observers is claimed only while both objects live.")
check("C23", [dict(src="harness/c23.cpp")],
      "exhaustive enumeration of bounded operation histories on a scratch file against a byte-vector model",
      "one handle: all histories of 4 of 20 operations on two start files; two handles on one file: 3; all files of <=6 symbols over 4; 23 sizes around buffer boundaries to 100000 bytes x 5 layouts, 23x23 pairs of writes; every overload in 4 handle states; positions around 2^16, 2^24, 2^31, 2^32 and beyond in sparse files",
      "histories of 5 and 4, files of <=8 symbols",
      "Every handle writes at the end of the file (it is opened for appending); IsEof is claimed right after ReadLine, SetPosition, Open of a fresh handle and Erase, not after writing at the end. The scratch file lives in a private temporary directory.")
check("C24", [dict(src="harness/c24.cpp", link=["-rdynamic", "-ldl"])],
      "exhaustive crash-point and system-call fault enumeration over bounded file histories (interposed open/read/write/lseek/close)",
      "all histories of 3 of 12 operations with every one of their system calls failing, interrupted or cut short; of 2 with every pair of such faults; before every system call, and after every prefix of every write, the disk content is checked as a crash state; crash points of all histories of 4",
      "histories of 4 with one and 3 with two faults",
      "Death of the process, not of the machine: what was handed to the kernel survives. A write that reported an error may leave pieces of its data behind; everything acknowledged must be intact.", level="fault_enumeration")
check("C25", [dict(src="harness/c25.cpp")],
      "exhaustive enumeration of bounded output and input histories on redirected streams against a string model",
      "all histories of 3 of 18 outputs over the three output streams; all inputs of <=5 symbols over 4 x 3 of 7 reads; 6 inputs x 4 reads; lines to 10023 characters",
      "outputs 4; inputs <=6 symbols; 6 reads",
      "Output counts once it is flushed. ReadChar on an empty line or at the end of input gives the default character.")
check("C26", [dict(src="harness/c26.cpp", name="static"), dict(src="harness/c26.cpp", name="dynamic", flags=["-DDYNAMIC_ONLY"])],
      "exhaustive enumeration of registries and run histories against a reference reporter, each in its own process",
      "4 macro-defined tests (2 with fixtures) x every pass/fail assignment x one added test (3 suites, 6 behaviours), run once and twice; 0..3 added tests x 3 suites x 6 behaviours run once, 0..2 x 4 behaviours twice, with tests added between runs",
      "0..4 added tests; 6 behaviours twice; 2 tests three times",
      "Suites run in alphabetical order, tests of a suite in registration order (as implemented). Times are ignored.")
check("C27", [dict(src="harness/c27.cpp")],
      "exhaustive enumeration of operand pairs from boundary sets for every assertion macro",
      "all ordered pairs of 8 boundary values of 8 integer types, 9 reals incl. NaN and infinities, 6 texts, 5 BigIntegers through 7 relations; conditions, pointers, low-precedence operands, loops and if/else; 8x8 C strings; all 256 failing masks of a 4-test registry",
      "as quick", "Operands may be evaluated again to print a failure message; exactly-once evaluation is claimed for passing assertions.")
check("C28", [dict(src="harness/c28.cpp")],
      "exhaustive enumeration of bounds with an enumerated environment (the clock is replaced and answers from a stated set)",
      "6 integer types: all ranges of <=9 values at 45 positions x 600 clock answers (every value must come up), all pairs of >=10 boundary values x 300; 3 real types: all pairs of 32 boundary values x 300; default bounds; 18 percentages x 2024; the answers include the 16 seeds below 2^28 with the most extreme first draw",
      "20000 clock answers each",
      "Lower bound above upper bound is outside the contract. Nothing is claimed about the distribution beyond reachability and gross bias of booleans.")
check("C29", [dict(src="harness/c29.cpp", san=[], opt="-O2")],
      "exhaustive enumeration of operand pairs against exact arithmetic",
      "all pairs of 8-bit values of 3 types; all 8-bit x 16-bit pairs of either signedness; for all 121 ordered pairs of 11 integer types every pair of values within 2 of a power of two or 3 of a limit, 6 relations each",
      "all 16-bit x 16-bit pairs as well", "bool, wchar_t and the charN_t types are not enumerated.")
check("C31", [dict(src="harness/c31.cpp", sched=True)],
      "stateless model checking of the implementation: all schedules up to a preemption bound under a controlled scheduler with vector-clock race detection, every execution in a fresh process so that first use of every static is explored",
      "every pair of 60 groups of const operations (and operations on own objects) in 2 threads with <=2 preemptions and 1 stale read; every group in 3 threads with <=1",
      "<=6 preemptions and 3 stale reads; 3 threads with <=2; all i,j / j,k scripts of two groups per thread",
      SCHEDN + "Random and the console streams are outside the claim.")
check("C33", [dict(src="harness/c33.cpp")],
      "exhaustive enumeration of bounded maps and of throwing copies against direct iteration",
      "all insertion histories of <=6 of 3 keys x 2 values into 8 kinds of map (ordered, unordered, multi; int, string, bool, String), as lvalue, const lvalue and rvalue; sizes 0..299; every single throwing copy for <=4 entries",
      "histories of <=8, sizes to 1999", "The order of an unordered map is whatever iterating that map gives.")
C30X = ["harness/c30_%d.cpp" % i for i in range(8)]
check("C30", [dict(src="harness/c30.cpp", extra=C30X, san=[], opt="-O0"),
              dict(src="harness/c30.cpp", extra=C30X, san=[], opt="-O0", std="c++20", name="c30_20", flags=["-DDEPTH=1"]),
              dict(src="harness/c30.cpp", extra=C30X, san=[], opt="-O0", name="c30_d3", flags=["-DDEPTH=3"], thorough_only=True)],
      "exhaustive enumeration of generated types against the standard library's traits",
      "all types that 10 constructors (cv, references, pointer, arrays, function, member pointer, template) build from 40 base types in <=2 steps, 73 traits each (as C++11; <=1 step as C++20); all pairs of 22 types in 8 forms, 8 relations each; 19 operators x 6 ways to have or not have them x 19 detectors",
      "3 steps", "MakeSigned and MakeUnsigned are claimed for the plain integer types. Detection traits of containers are internal and not claimed.")
check("C34", [dict(src="harness/c34.cpp", san=[], flags=['-DMC_REPO="%s"' % os.environ.get("CAITLYN_REPO", "/repo")])],
      "exhaustive enumeration of include programs, compiled, linked and run with the real compilers",
      "17 public headers alone x 4 standards (C++11 to C++20) x g++ and clang++; all of them in 17 orders (rotations, every second one backward) with g++ as C++11; every header, and all together, in two units of one program, linked and run, as C++11 (together also C++17)",
      "all ordered pairs x 4 standards x 2 compilers; all pairs of headers in two units x 4 standards x 2 compilers",
      "Two headers at a time. As C++23 the local clang++ has no <generator>, so C++23 is not explored.")
check("C35", [dict(src="harness/c35.cpp", extra=["harness/c35_other.cpp"])],
      "exhaustive enumeration of bounded call histories, each in a process of its own, against a model",
      "all histories of 3 of 9 calls (from two translation units) x 15 argument texts x caller memory kept or overwritten; every argument count 0..129 x 4 lengths",
      "histories of 4 calls, counts to 599", "One thread. Running out of memory during initialisation is C39.")
REPOFLAG = ['-DMC_REPO="%s"' % os.environ.get("CAITLYN_REPO", "/repo")]
check("C36", [dict(src="harness/c36.cpp", flags=REPOFLAG)],
      "exhaustive enumeration of the named types against the compiler's facts",
      "all 20 integer types, 8 other arithmetic types and 20 shapes of object type (1 byte to 512 MiB); the width and sign of all names on 16 platforms x 5 standards (clang++) and 3 modes x 5 standards (g++)", "as quick",
      "Complete over the types the library names; limits and SizeOf on this platform. MinValue means what std::numeric_limits<T>::min() means, also for floating point types.")
REPOFLAG = ['-DMC_REPO="%s"' % os.environ.get("CAITLYN_REPO", "/repo")]
check("C37", [dict(src="harness/c37.cpp", san=[], flags=REPOFLAG)],
      "exhaustive enumeration of configurations, each preprocessed with the real compilers, against the compiler's own facts",
      "16 targets x 5 standards with clang++, 3 modes x 5 standards with g++; 17 public headers x 4 standards x 2 compilers with the real standard headers; 44 macros each", "as quick",
      "Complete over the targets listed. The standard headers are empty for foreign targets; Visual C++ and the Intel compiler cannot be run here.")
check("C38", [dict(src="harness/c38.cpp", san=[], flags=REPOFLAG)],
      "exhaustive enumeration of programs that include one public header and use its area, compiled with the real compilers",
      "17 public headers x 4 standards (C++11 to C++20) x g++ and clang++, every one of 87 facilities that belongs to the header and exists under the standard", "as quick",
      "Complete over the table of facilities. A facility the compiler itself lacks under a standard is left out.")
check("C39", [dict(src="harness/c39.cpp")],
      "exhaustive fault enumeration: every allocation of every operation fails, alone or with all later ones",
      "a hundred operations of texts, numbers, JSON, Expected, pointers, collections, files, console and application x every allocation they make (1..400) x {fails alone, fails with every later one}; the objects are compared, used and destroyed afterwards",
      "also every second failure up to 8 allocations after the first", "Memory the standard streams take for themselves is claimed only where the library owns the stream; reading from the user's stream reports failure through that stream's state. What an object changed in place holds after a failure is left open as long as it is valid, usable and releases everything; sources never change.", level="fault_enumeration")
check("C40", [dict(src="harness/c40.cpp")],
      "exhaustive enumeration of environments (locale x way of choosing it) and of locale-changing histories, each compared with the same program in the C locale",
      "12 named locales (built with localedef) x {std::locale::global, setlocale all, setlocale numeric, uselocale} and 5 locales with the application's own facets, each under 12 probes of the whole library (all number texts <=4 over 9 symbols, 280 format templates x 17 arguments, every assigned range of code points, ...); all histories of 3 steps, each {5 locales + C} x 7 operations on the same objects",
      "3,100 format templates; number texts <=5; histories of 4 steps over 7 locales", "Differential: the oracle is the library itself in the C locale, whose results the other properties judge. A locale that localedef cannot build is left out. What the user's own stream does with numbers it is given directly (assertion messages, test counts on an imbued std::cout) is outside the claim.")

check("C41", [dict(src="harness/c41.cpp", san=[], flags=REPOFLAG + ['-DMC_HERE="%s"' % os.path.dirname(os.path.abspath(__file__))])],
      "exhaustive enumeration of build configurations; the same programs, built with the real compilers, are compared result by result",
      "2 compilers x 7 language standards without optimisation, 2 compilers x 11 sets of flags (optimisation levels, unsigned char, debug containers, old string ABI, trapping or wrapping arithmetic, LTO, ...) as C++11; 13 probes of the whole library with 250,000 results each time",
      "the standards with -O2, the flags as C++11, C++17 and C++20, larger probes", "Differential: the reference is g++ -std=c++11 -O1, whose results the other properties judge. Only configurations in which the compiler can build a program of the standard library alone. 32-bit programs cannot be linked here.", budget={"quick": 400, "thorough": 2400})

check("C42", [dict(src="harness/c42.cpp")],
      "exhaustive enumeration of bounded histories of copies, moves, changes and destructions over two and three objects of each value type",
      "17 types (texts, builders, big numbers, JSON values and documents, Expected of them, and containers of them); all values to start from; all histories of 3 of 9 operations on two and of 2 on three objects; after every operation every object is compared in full with one freshly made the same way",
      "all pairs of start values, histories of 4 and 3 operations", "An object moved from is only assigned to, moved from or destroyed. Objects that own something by design (smart pointers, files) are C20, C22 and C23.")

check("C43", [dict(src="harness/c43.cpp", san=[], flags=REPOFLAG + ['-DMC_HERE="%s"' % os.path.dirname(os.path.abspath(__file__))])],
      "exhaustive enumeration of the sets of phases of a program's life in which the library is used, by link order and compiler; real programs are built and run, and what every phase reports is compared with main",
      "12 phases (static constructors and destructors of two files in both orders, main, a thread, thread_local destructors, an exit handler, loading and unloading a library); all sets of up to 2 phases x 13 probes of the whole library; initialising the application in all sets of up to 3 of 10 phases; g++ with AddressSanitizer as C++11, clang++ with optimisation as C++17",
      "all sets of up to 3 phases (4 for the application), both link orders with every compiler, also g++ optimised as C++20 and clang++ with AddressSanitizer", "The reference is the same probe run in main, which the other properties judge. Constructors with a priority before that of the standard streams, and the test registry's own tests when the program ends, are left out.", budget={"quick": 400, "thorough": 2400})

check("C44", [dict(src="harness/c44.cpp")],
      "exhaustive enumeration of operations whose argument is the object itself or a part of it, in bounded histories; every result is compared with the same operation on a twin with an argument of its own, AddressSanitizer watching",
      "22 operations on all texts of up to 3 characters of 1, 2 and 4 bytes, with and without room to grow, in histories of 2, and at 70 lengths; 18 operations on 12 BigIntegers and 10 BigFloats in histories of 2; 11 operations between all pairs of parts of 5 JSON documents in histories of 2, 12 on whole documents; histories of 3 of 8 operations on chains of up to 3 Expected held by 4 kinds of owner",
      "texts of up to 5 characters, 300 lengths, histories of 3 on numbers and documents and of 4 on chains, larger JSON values", "What an object is left with when its value is moved away is not looked at; moving or swapping a value into a part of itself means nothing and is left out.")

C45X = ["harness/c45_%d.cpp" % i for i in range(8)]
check("C45", [dict(src="harness/c45.cpp", extra=C45X), dict(src="harness/c45.cpp", extra=C45X, san=[], std="c++20", opt="-O1", name="c45_20")],
      "exhaustive enumeration of generated payload types and of the operations of the templates that hold them; every content is compared with what was put in, objects and allocations are counted",
      "16 abilities (default, copies, throwing moves, lists of itself) x 6 ways with operators (own operator&, operator new, comma, truth value, alignment of 64) as value and as error, 20 operations x 4 starts each, 6 histories on 4 smart pointers; as C++11 under AddressSanitizer and as C++20",
      "the same (the space is finite)", "An operation is only used with types that can do what it hands out (a copy needs a type that can be copied).")

check("C46", [dict(src="harness/c46.cpp", san=[], lib=[], flags=["-fsanitize-coverage=trace-pc"], plain=[("harness/c46_pc.cpp", ["-O2"])], plain_cxx="g++")],
      "exhaustive enumeration of operations, shapes of input and sizes, with the work done (edges of the control flow taken, bytes asked of memory) counted exactly",
      "77 operations x 4 shapes x sizes 200..512 and 4096 against eight times as much: at most 16 times the work where one pass is enough, 160 times for long multiplication, division and JSON objects; every operation 60 times over at 3 sizes: memory in use does not grow",
      "sizes 200..8192; 600 times",
      "Counts, not time: the same on every machine. A factor of 16 admits logarithms and doubling; JSON objects look members up one by one, by design; growth by a constant factor is not judged, nor searching for long periodic patterns, nor square roots and powers.", budget={"quick": 300, "thorough": 2400})

# the sections at the sizes where a count kept in too small a type, or a buffer of a round size, would show (harness/sizes.hpp)
for _p, _w in {
    "C02": "texts with a malformed part at those sizes", "C03": "one operation on a text of each size", "C04": "matches at those positions, patterns of those lengths",
    "C05": "texts equal up to those positions", "C07": "widths, precisions, indices and numbers of placeholders up to those sizes", "C08": "pieces of those sizes, as many appends",
    "C09": "texts and counts of those sizes", "C10": "numbers of those many digits, carries over all of them", "C11": "quotients, powers and roots of those lengths",
    "C12": "as many digits on either side of the point", "C13": "documents with an error or value at those positions", "C15": "texts of those lengths in and out",
    "C16": "arrays and objects of those sizes", "C17": "documents of those sizes, indents of 9..257", "C20": "as many owners", "C22": "as many owners and observers",
    "C25": "files and lines of those sizes", "C26": "as many tests", "C33": "maps of those sizes"}.items():
    for _t in ("quick", "thorough"):
        CHECKS[_p]["bounds"][_t] += "; 23 sizes from 126 to 131073: " + _w
