#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the list below."""
import json, os
I = "include/Caitlyn/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": I + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A Char is exactly one well-formed UTF-8 scalar value",
  "For every code point 1..10FFFF a Char built from it holds its shortest UTF-8 encoding and reports back the same code point and encoded length (code point 0 gives the empty Char), and every named character constant denotes the character it is named after. "
  "Building a Char from a byte string succeeds exactly when that string is one well-formed encoding of one character as far as lead and continuation bytes go, and then round-trips byte for byte; a string with a wrong length, a bad lead byte or a bad continuation byte is rejected by an exception, never by undefined behaviour.",
  ["inputs"], "all 1,114,112 code points; all byte strings of length 0..3 and boundary-class byte strings of length 4..5",
  "CharTest.cpp is empty; StringTest samples a few characters. The claim quantifies over the whole code space and all malformed encodings.",
  ["__Core/Char/Char.h", "__Core/Char/Utility.h"],
  [("FromCodePoint/CalculateLength", "__Core/Char/Char.h"), ("IsValidUtf8Char", "__Core/Char/Char.h"), ("GetCodePoint", "__Core/Char/Char.h")],
  ["Char constructors", "Char::GetCodePoint", "Char::GetSize", "stream output of Char"])

p("C02", "Decoding text to String is exact, strict about bytes, and stays in bounds",
  "A String built from bytes (C string, std::string, literal, stream), up to the first NUL, holds exactly the sequence of characters encoded there, and converting it back yields the same bytes. "
  "A buffer containing a truncated sequence, a stray continuation byte or an invalid lead byte makes construction throw and leaves nothing half-built; construction never reads past the terminating NUL.",
  ["inputs"], "all byte strings up to a length over a byte alphabet with every lead/continuation class, with the end of the buffer poisoned",
  "The tests only build strings from well-formed literals; truncated or malformed tails, and reads past the end, cannot be seen by equality assertions.",
  ["__Core/String/String.h", "__Core/Char/Char.h"],
  [("Decode / DecodeUtf8Char", "__Core/String/String.h"), ("ToStdString / operator<<", "__Core/String/String.h")],
  ["String constructors", "String::ToStdString", "operator<<", "operator>>"])

p("C03", "String edits behave as edits of a sequence of characters",
  "After any sequence of construction, copy, move, append, insert, clear, assignment, substring and indexed write a String equals the sequence of Unicode characters that the same edits produce on a plain list, with matching size, emptiness, indexed access and iteration in both directions. "
  "Copies are independent, edits whose argument is the string itself act on its value before the edit, and out-of-range positions throw instead of corrupting the value.",
  ["histories"], "all operation sequences up to a depth over a small alphabet of operations, positions and 1..4-byte characters, including self-referential arguments",
  "Unit tests call each operation once on one literal; aliasing, boundary positions and combinations are not reached.",
  ["__Core/String/String.h"],
  [("Append/Insert/PushBack/Clear/Assign", "__Core/String/String.h")],
  ["every non-const String member", "Size/At/operator[]/begin/end/ToStdString"],
  state=[("data_", "sequence of Char, one per code point", "__Core/String/String.h")])

p("C04", "String search returns the right character index",
  "Find, FindIf, FindIfNot, ReverseFind, Contains, StartsWith, EndsWith and Substring agree with the naive definition over sequences of characters for every haystack, needle and start position: Find gives the first match at or after the start, ReverseFind the last match lying entirely at or before the given position, the KMP search the first match, and no match gives the not-found value. "
  "Empty needles and start positions at or past the end follow the std::string convention and never touch memory out of bounds.",
  ["inputs"], "all haystacks and needles over a 2..3 letter alphabet (with multi-byte letters) up to a length, all start positions including past the end, plus long periodic patterns",
  "A handful of literal searches are tested; the failure-function and boundary cases of the matcher need all overlapping patterns.",
  ["__Core/String/String.h", "__Core/String/Algorithms/Kmp.h"],
  [("Find/ReverseFind/Contains", "__Core/String/String.h"), ("KmpSearch", "__Core/String/Algorithms/Kmp.h")],
  ["String::Find/FindIf/FindIfNot/ReverseFind/Contains/StartsWith/EndsWith/Substring"])

p("C05", "Text comparison is one consistent total order by code point",
  "For all Strings and Chars, ==, !=, <, <=, > and >= agree with lexicographic comparison of their code points, whichever operand of a String comparison is a std::string or C string. "
  "The relations are therefore mutually consistent, transitive and total, and strings and characters work as keys of ordered containers.",
  ["inputs"], "all pairs and triples of strings up to a length over characters of every encoded length; all pairs of boundary code points",
  "Totality and transitivity quantify over pairs and triples; the tests compare a few literals.",
  ["__Core/String/String.h", "__Core/Char/Char.h"],
  [("comparison operators", "__Core/String/String.h"), ("comparison operators", "__Core/Char/Char.h")],
  ["comparison operators of String and Char", "std::map keyed by String"])

p("C06", "Case mapping and classification agree with Unicode on what they touch",
  "For every code point, upper- and lower-casing either leave it unchanged or yield exactly its Unicode simple case mapping; ASCII, Latin Extended-A up to U+0177, basic Greek, basic Cyrillic and Greek Extended letters are mapped, and code points without a case mapping are never altered. "
  "The space query is exactly Unicode White_Space, the digit query exact on ASCII and true only for decimal digits, the upper/lower queries never call a letter the wrong case, and whole-string case conversion is the per-character conversion in order.",
  ["inputs"], "all code points 0..10FFFF",
  "Only a few letters are ever tested; one wrong range or offset corrupts thousands of other characters.",
  ["__Core/Char/Utility.h", "__Core/Char/Char.h", "__Core/String/String.h"],
  [("ToUppercase/ToLowercase tables", "__Core/Char/Utility.h")],
  ["Char::ToUppercase/ToLowercase", "free ToUppercase/ToLowercase/Is*", "String case conversion"])

p("C07", "Formatting substitutes each placeholder by the right argument",
  "Formatting a template yields the template with every placeholder replaced by the argument it designates: {} takes the next argument in order, {N} argument N, a {:spec} pads with the fill character to the width with the given alignment and fixes the number of decimals (.Nf) by truncation or zero padding, and {{ and }} give literal braces. "
  "A placeholder naming an argument that does not exist, or an unbalanced brace, raises an exception; no template and argument list reads out of bounds.",
  ["inputs"], "all templates up to a length over the alphabet { } : . f digits and letters, with 0..3 arguments; generated long templates",
  "The tests use well-formed templates with matching arguments; misuse and combinations of index plus specification are not covered.",
  ["__Core/String/String.h"],
  [("Format / ApplyFormat", "__Core/String/String.h")],
  ["String::Format", "Output::Print with arguments"])

p("C08", "StringBuilder accumulates exactly what was appended",
  "After any sequence of appends of characters, strings and numbers, copies, moves and conversions, the text obtained from a StringBuilder is the concatenation of what was appended to it, following what it was copied from. "
  "Copies evolve independently and obtaining the text never changes it.",
  ["histories"], "all operation sequences up to a depth over two builders",
  "No test touches the class; copy-then-append and clear-then-append need histories.",
  ["__Core/String/StringBuilder.h"],
  [("Append/Clear/ToString/copy", "__Core/String/StringBuilder.h")],
  ["StringBuilder public members", "MakeText"])

p("C09", "Text utilities match their definitions on every string",
  "Splitting keeps every piece between delimiters in order (dropping a final empty piece) so that joining restores the text, repeating n times gives n concatenated copies (none for 0), number detection accepts exactly non-empty runs of digits, and first/last non-space give the extreme non-blank positions. "
  "Escape decoding replaces exactly the known escapes, including \\uXXXX and surrogate pairs, by the characters they denote and keeps unknown escapes; all of them are defined for empty input.",
  ["inputs"], "all strings up to a length over per-utility alphabets",
  "UtilityTest.cpp has no cases; edge cases (empty pieces, only blanks, lone backslash) need enumeration.",
  ["__Core/String/Utility.h", "__Core/String/Algorithms/Kmp.h"],
  [("Split/Repeat/EscapeString/IsNumber/FindFirstNonSpace/FindLastNonSpace", "__Core/String/Utility.h")],
  ["free functions of the String utility header"])

p("C10", "BigInteger addition, subtraction, multiplication, ordering and text are exact",
  "For all decimal integers of any sign and length, BigInteger parsing, printing, +, -, *, Abs and all comparisons give the mathematically exact result, printed in canonical form (no leading zeros, no negative zero). "
  "Text that is not an optionally signed non-empty run of ASCII digits is rejected by an exception.",
  ["inputs", "histories"], "all pairs in a dense interval around zero and around every power-of-ten carry boundary, all pairs of digit-pattern numbers up to dozens of digits, and short operation chains",
  "BigIntegerTest checks a few positive examples; carries, mixed signs and zero normalisation need all sign/length combinations.",
  ["__Numeric/Types/BigInteger.h"],
  [("Add/Subtract/Multiply/LessThan/RemoveLeadingZeros", "__Numeric/Types/BigInteger.h")],
  ["BigInteger operators", "BigInteger::ToString", "stream output"],
  state=[("digits_/is_negative_", "decimal digits, least significant first, and sign", "__Numeric/Types/BigInteger.h")])

p("C11", "BigInteger division, remainder, power and root are exact",
  "For all integers a and b with b nonzero, a/b truncates toward zero and a%b satisfies a == (a/b)*b + a%b with the sign convention of C++; powers with non-negative exponents are exact and the integer square root r of a non-negative number satisfies r*r <= n < (r+1)*(r+1). "
  "Division or remainder by zero and roots of negative numbers raise an exception, and no operand makes an operation loop forever.",
  ["inputs"], "all pairs in a dense interval, digit-pattern operands up to dozens of digits, all small bases and exponents",
  "The tests divide a couple of positive numbers; signs, quotient digit boundaries and error cases are not reached.",
  ["__Numeric/Types/BigInteger.h"],
  [("Divide/Modulo/Power/Sqrt", "__Numeric/Types/BigInteger.h")],
  ["BigInteger operators / % and Power/Sqrt"])

p("C12", "BigFloat sums, differences, products and comparisons are exact decimals",
  "For all decimal numbers, BigFloat parsing and printing preserve the value and +, -, *, powers, Abs and the comparisons give the exact decimal result, printed without superfluous zeros so that it reads back as itself. "
  "Quotients and square roots are truncations with at least integer precision; division by zero, roots of negative numbers and texts that are not decimals raise an exception.",
  ["inputs"], "all pairs of decimals with up to two integer and two fractional digits of either sign, plus longer digit patterns",
  "BigFloatTest checks one example per operator, none with zeros after the point, negative operands or carries across the point.",
  ["__Numeric/Types/BigFloat.h"],
  [("Parse/Add/Subtract/Multiply", "__Numeric/Types/BigFloat.h")],
  ["BigFloat operators", "BigFloat::ToString"])

p("C13", "JSON parsing accepts the JSON grammar and yields the right values",
  "Every object text valid under RFC 8259 with nesting, whitespace, escapes (including \\uXXXX and \\/), multibyte text and numbers is accepted and yields a document whose keys, element order and values are those the text denotes. "
  "Text with structural errors (missing or extra brackets, commas, colons or quotes, trailing content, malformed literals, numbers or escapes, or a root that is not an object) is rejected with an error and a failed parse never reports success.",
  ["inputs"], "all token sequences up to a length over a JSON token alphabet, all string bodies and number texts up to a length, and generated wide/deep documents",
  "The Json tests parse a few documents; acceptance is a property of all texts and wrong rejections/acceptances hide between them.",
  ["__Serializing/Json/Types/JsonParser.h", "__Serializing/Json/Utility.h", "__Serializing/Json/Types/Json.h"],
  [("Parse/ParseObject/ParseArray/ParseString/ParseNumber", "__Serializing/Json/Types/JsonParser.h")],
  ["Json parse entry points", "JsonParser::HasError"])

p("C14", "JSON parsing of arbitrary text is safe and reports a definite error",
  "Parsing any text whatsoever terminates without undefined behaviour, leaks or exceptions other than the documented ones, and ends in exactly one of success or an error with a matching code and message and an empty document; the code names the first fault of the text. Copies and moves of a document take its status along; a document moved from reports no error. "
  "A document that was parsed or failed before can be reused: the outcome of a later parse depends only on its own text.",
  ["inputs", "histories"], "all texts up to a length over a byte alphabet of structural characters, escapes, digits and multibyte characters, all truncations of valid documents, and all pairs of texts parsed in sequence",
  "The tests feed four malformed documents; truncation at each position and reuse after failure need enumeration under a memory checker.",
  ["__Serializing/Json/Types/JsonParser.h", "__Serializing/Json/Types/JsonError.h", "__Serializing/Json/Utility.h"],
  [("SetError/GetErrorString/Next/SkipSpaces", "__Serializing/Json/Types/JsonParser.h")],
  ["JsonParser result and error accessors", "memory checker"])

p("C15", "Serialising a JSON document and parsing it back restores it",
  "For every document built through the API from objects, arrays, strings (any characters, including quotes, backslashes and control characters), integers, finite reals, booleans and null, the printed text is valid JSON and parsing it yields an equal document. "
  "Printing again after the round trip gives the same text.",
  ["inputs"], "all documents up to a node count over an alphabet of leaf values and keys, each serialised by every printer",
  "The tests print and read one document; escaping and nesting combinations are not reached.",
  ["__Serializing/Json/Types/Json.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/JsonParser.h"],
  [("ToString / MakeOutput", "__Serializing/Json/Types/JsonData.h"), ("Parse", "__Serializing/Json/Types/JsonParser.h")],
  ["operator<<", "operator>>", "JsonDocument::ToString"])

p("C16", "A JSON document is a value: edits, copies and moves match a plain tree",
  "After any history of member and element access, assignment of every value type, append, removal, copy, move and nested assignment (also from the document's own parts), a document equals the plain tree the same edits produce, copies never share structure, and queries for type, size and values agree. "
  "Accesses to missing members or wrong types on read-only documents throw, and every history ends with all memory released exactly once.",
  ["histories"], "all operation histories up to a depth over two documents, three keys, three indices and all value kinds",
  "Tests build one document; ownership errors need combinations of overwrite, move and self-assignment, and a memory oracle.",
  ["__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/Json.h", "__Serializing/Json/Types/JsonClass.h"],
  [("SetType/Clear/CopyUnion/MoveUnion", "__Serializing/Json/Types/JsonData.h")],
  ["JsonDocument/JsonData public members", "allocation counts", "memory checker"],
  state=[("Data union + type_", "the current alternative and its owned heap value", "__Serializing/Json/Types/JsonData.h")])

p("C17", "JSON pretty printing adds layout only",
  "For every document the indented printout, with whitespace outside strings removed, equals the compact printout, every nested line is indented by its depth times the chosen indent and it parses back to the same document.",
  ["inputs"], "all documents up to a node count and several indents and depths",
  "One printout is compared in the tests; empty containers and nesting combinations are not.",
  ["__Serializing/Json/Types/Json.h", "__Serializing/Json/Types/JsonData.h"],
  [("pretty printing", "__Serializing/Json/Types/JsonData.h")],
  ["pretty-print functions"])

p("C18", "Expected holds exactly one of value or error and combinators obey their laws",
  "After any history of construction, copy, move, assignment and combinators (map, and-then, map-error, or-else, then, catch-error, fold, filter, inspect, unwrap variants, std::swap), an Expected holds exactly the value or error that the same history gives a plain sum type, callbacks run exactly once and only on the matching side, and asking for the absent side throws. Filter keeps an existing error and turns a rejected value into the default error; the result of an OnError callback is ignored. A moved-from Expected is only reassigned or destroyed. "
  "Every value or error object is constructed and destroyed exactly once.",
  ["histories"], "all histories up to a depth over two Expected objects with instrumented payloads (trivial, string, move-only)",
  "Each combinator is tested once per side; assignment across sides, self-assignment and lifetime counts are not.",
  ["__Core/Error/Expected.h", "__Core/Error/Unexpected.h"],
  [("copy/move/assign/destroy", "__Core/Error/Expected.h"), ("combinators", "__Core/Error/Expected.h")],
  ["Expected public members", "payload lifetime counters"])

p("C19", "Expected survives payload exceptions",
  "If copying a payload, or a callback, throws at any point of any Expected operation (payload destructors do not throw, and at least one of the two payload types can be moved without throwing), the exception propagates, every involved Expected still holds exactly one valid value or error (what it held before or was about to hold, after a failed std::swap possibly what the other held) and remains usable, and no payload is leaked or destroyed twice.",
  ["fault_sequences", "histories"], "every (operation, side of both operands, throw point) combination, alone and followed by every further operation",
  "Tests never throw from a payload; the destroy-then-construct window is only visible with faults injected at each copy.",
  ["__Core/Error/Expected.h"],
  [("copy/move assignment", "__Core/Error/Expected.h")],
  ["Expected assignment operators", "payload lifetime counters"])

p("C20", "Owning pointers free each object exactly once, when its last owner goes",
  "After any sequence of construction, copy, move, assignment (including self and null), std::swap, Reset and Release on UniquePtr and SharedPtr, including assignment from a pointer held by the owned object itself, each pointer refers to the object the same history gives std::unique_ptr/std::shared_ptr, and each object is destroyed exactly once at the moment its last owner lets go. "
  "Dereferencing an empty pointer through a checked accessor throws, and a released object is not destroyed by the pointer. The non-owning Ptr destroys its object only on Destroy or Reset.",
  ["histories"], "all operation histories up to a depth over three pointer variables and instrumented objects",
  "MemoryTest.cpp contains no ownership tests; double free and leak depend on the history.",
  ["__Core/Memory/Types/UniquePointer.h", "__Core/Memory/Types/SharedPointer.h", "__Core/Memory/Types/RawPointer.h"],
  [("Release / reference count", "__Core/Memory/Types/SharedPointer.h"), ("Reset/Release", "__Core/Memory/Types/UniquePointer.h")],
  ["UniquePtr/SharedPtr public members", "object destruction counters"])

p("C21", "SharedPtr owners may be copied and dropped concurrently",
  "When several threads each copy, assign and drop their own SharedPtr to one object, in every interleaving the object is destroyed exactly once, after every access made through any owner and with those accesses ordered before the destruction, and when all are gone nothing is left. "
  "No schedule produces a data race, use after free, double free or leak.",
  ["schedules"], "all interleavings (within a preemption bound) of 2..3 threads running short owner scripts, at every atomic, allocation and plain-memory step",
  "No test uses threads; races and memory-order mistakes appear only under particular schedules.",
  ["__Core/Memory/Types/SharedPointer.h"],
  [("atomic reference count", "__Core/Memory/Types/SharedPointer.h")],
  ["destruction events", "happens-before of payload accesses"])

p("C22", "A WeakPtr observes without owning",
  "A WeakPtr made from a SharedPtr never keeps the object alive or changes when it is destroyed: after the last owner goes it reports expiry, equals null, throws when dereferenced, and locking it gives an empty pointer; before that locking gives an owner of the same object.",
  ["histories"], "all histories up to a depth over two shared and two weak pointers",
  "No test covers WeakPtr.",
  ["__Core/Memory/Types/WeakPointer.h", "__Core/Memory/Types/SharedPointer.h"],
  [("WeakPtr", "__Core/Memory/Types/WeakPointer.h")],
  ["WeakPtr public members", "object destruction counters"])

p("C23", "File operations behave as operations on one byte file with a cursor",
  "After any history of write, append, read, read-line, seek, erase, open, close and copy operations on one or two handles, the bytes on disk and the text, line, position and end-of-file state reported are those of a plain model of the file (every write goes to the end, the cursor belongs to ReadLine), including reads at and past the end and writes after reaching it. "
  "A closed file is opened again on use; names that cannot be opened and impossible positions raise an exception and change nothing.",
  ["histories"], "all operation histories up to a depth over one or two handles on a scratch file, for every opening mode",
  "FileTest.cpp contains no cases; cursor and end-of-file state carry over between operations.",
  ["__Core/File/File.h"],
  [("Read/Write/Append/ReadLine/Seek/Erase", "__Core/File/File.h")],
  ["File public members", "bytes on disk"],
  state=[("file_", "stream with position and failure state", "__Core/File/File.h")])

p("C24", "File content survives crashes and I/O errors as acknowledged",
  "Whatever write, read, seek, open or close call of the operating system fails, is interrupted, is cut short or is the last one before the process dies, data whose write was acknowledged is on disk, the file holds the old content followed by a prefix of the data being written, and an operation that could not do its work reports an error instead of claiming success; interrupted and short calls are no errors. "
  "Closing and opening makes any handle usable again.",
  ["crash_points", "fault_sequences"], "every system call of every short file history made to fail, to write short, or to be the last one executed",
  "Tests run on a healthy file system to completion.",
  ["__Core/File/File.h"],
  [("Write/Append/Close/flush", "__Core/File/File.h")],
  ["bytes on disk after the fault", "exceptions reported"])

p("C25", "Console streams print and read exactly the text given",
  "Any sequence of prints, line prints, formatted prints and error or log outputs leaves exactly the concatenation of the texts on the right stream, flushed by the time the call returns, and any sequence of reads returns the lines of the input in order, whole or reduced to their first character; reading a character from an empty line or at the end of input gives the default character.",
  ["histories"], "all sequences of output and input operations up to a depth with redirected streams and all short inputs",
  "IOTest.cpp contains no cases.",
  ["__Core/IO/Stream.h"],
  [("OutputStream/InputStream/ErrorStream", "__Core/IO/Stream.h")],
  ["bytes on stdout/stderr", "values returned by reads"])

p("C26", "A test run executes every registered test once and reports the truth",
  "Running a registry executes each registered test exactly once, suites in alphabetical order and tests of a suite in registration order, a fixture object is constructed before and destroyed after its own test only, a test that fails or throws anything is counted and reported failed without stopping the others, and the exit status, the counts and the list of failed tests tell the truth. "
  "Running again reports that run alone.",
  ["histories"], "all registries up to a number of tests, each passing, failing or throwing, in several suites, and repeated runs",
  "The framework cannot test its own failure path in a passing suite.",
  ["__Testing/Types/TestRegistry.h", "__Testing/Types/TestCase.h", "__Testing/Types/TestFailMessage.h", "__Testing/Macro/Test.h", "__Testing/Macro/TestFixture.h"],
  [("RunAll / Run", "__Testing/Types/TestRegistry.h")],
  ["execution order recorded by the tests", "return values", "report text"])

p("C27", "Assertions fail exactly when their condition is false",
  "Each assertion macro lets the test continue when its relation holds and makes that test, and only that test, fail when it does not, for every pair of values of the supported types; each operand expression of a passing assertion is evaluated exactly once, and ASSERT_TRUE, ASSERT_FALSE and ASSERT_STREQ are one statement that leaves an enclosing if and its else alone.",
  ["inputs"], "every macro over all pairs from boundary value sets of every supported type",
  "The suite only contains assertions that pass.",
  ["__Testing/Macro/Assert.h", "__Testing/Types/TestFailMessage.h"],
  [("ASSERT_* macros", "__Testing/Macro/Assert.h")],
  ["registry result", "evaluation counters"])

p("C28", "Random numbers stay in the requested range",
  "For every lower and upper bound with lower not above upper, and whatever the clock returns as seed, each generated integer or real lies within the bounds and both ends of small integer ranges are reachable.",
  ["inputs"], "all small bounds and boundary bounds, with every clock answer from an enumerated set",
  "No test exists, and the seed comes from the clock.",
  ["__Core/Utility/Random.h"],
  [("range reduction", "__Core/Utility/Random.h")],
  ["generated values"])

p("C29", "Mixed-sign integer comparison is mathematical comparison",
  "For all integers of any two built-in integer types, the comparison helpers return the truth of the mathematical relation between the values.",
  ["inputs"], "all pairs of 8-bit values of either signedness and all boundary pairs for every pair of integer types",
  "No test exists; mistakes appear only at sign and width boundaries.",
  ["__Core/Utility/Comparators.h"],
  [("cmp_* helpers", "__Core/Utility/Comparators.h")],
  ["return values of the helpers"])

p("C30", "Type traits answer as the standard library does",
  "For every type the traits that mirror the standard library give the standard's answer, and the string and operator detection traits answer true exactly for types with that feature. Forward and MakeMovable are std::forward and std::move.",
  ["programs"], "all types generated from base types by cv, pointer, reference, array and function constructors up to a depth",
  "TraitsTest.cpp contains no cases; compound types need generation.",
  ["__Core/Traits/Types/Primary.h", "__Core/Traits/Constraints/Primary.h", "__Core/Traits/Types/Operators.h", "__Core/Traits/Types/Specifiers.h", "__Core/Traits/Constraints/Composite.h"],
  [("trait templates", "__Core/Traits/Types/Primary.h")],
  ["trait values and member types"])

p("C31", "Read-only use from several threads is race free",
  "Concurrent const use of one shared String, Char, BigInteger, JSON document or Expected, and concurrent mutation of distinct objects, produce in every interleaving the same results as running alone, with no data race: no hidden shared mutable state.",
  ["schedules"], "all interleavings within a preemption bound of 2 threads running short scripts over the const and value operations of each type",
  "The tests are single threaded.",
  ["__Core/String/String.h", "__Serializing/Json/Types/JsonData.h", "__Numeric/Types/BigInteger.h", "__Core/Char/Char.h"],
  [("const members without shared state", "__Core/String/String.h")],
  ["results per thread", "happens-before races"])

p("C33", "Map key and value extraction lists every entry in order",
  "For every associative container, key and value extraction return all keys and all values, each exactly once, in the container's iteration order so that the i-th key belongs to the i-th value.",
  ["inputs"], "all maps up to a size over small key and value domains, for ordered, unordered and multi maps",
  "No test exists.",
  ["__Core/Collections/Utility/MapUtility.h"],
  [("GetMapKeys/GetMapValues", "__Core/Collections/Utility/MapUtility.h")],
  ["returned containers"])

p("C34", "Every public header compiles alone and in several translation units",
  "Each public header can be included by itself and in any combination, under every supported language standard, and a program including it from several translation units links.",
  ["programs", "configurations"], "all public headers x supported standards x one or two translation units",
  "The tests include internal headers in one fixed order.",
  ["Caitlyn", "__Caitlyn.h", "__Caitlyn/Application.h"],
  [("include graph", "__Caitlyn.h")],
  ["compiler and linker exit status"])

p("C35", "The application is initialised once and keeps its own copy of the arguments",
  "In every process, whichever of the two initialisation calls comes first, from whichever translation unit, returns the one application object, which from then on reports the system, the compiler, the library version and the given arguments, in order and as texts of its own that later changes to the caller's memory do not affect. Every later initialisation call throws and changes nothing.",
  ["histories", "inputs"], "all sequences of initialisation calls and argument lists", "The tests never initialise the application.",
  ["Caitlyn", "__Caitlyn/Application.h"], [("Initialise/Initialize/GetArgs", "__Caitlyn/Application.h")], ["returned object", "exceptions", "arguments"])
p("C36", "Type names, sizes and limits are what they say",
  "On every supported platform, every fixed-width type name denotes a two's complement integer of exactly that width and signedness, size and pointer types have the width of a pointer, SizeOf gives the size of any object type or object in bytes or in bits (eight per byte), also as a constant, and MinValue, MaxValue and ValueRange give the limits of the type.",
  ["inputs", "programs"], "all types the library names and all shapes of object type", "A unit test samples a few types.",
  ["Caitlyn", "__Caitlyn/Types.h", "__Core/Memory/Utility/SizeCalculation.h", "__Core/Numeric/Utility/Limits.h"], [("SizeOf, MinValue, MaxValue, ValueRange", "__Core/Memory/Utility/SizeCalculation.h")], ["compile-time and run-time values"])
p("C37", "Configuration macros describe the compiler, standard and platform in use",
  "On every supported platform and compiler, exactly one architecture, one operating system and one compiler macro is defined, the right one, with matching names, word size and versions. Under every language standard the feature macros say which standards are available and expand to the keywords and attributes that exist there.",
  ["configurations"], "all supported target platforms x compilers x language standards", "A test runs on one platform, with one compiler and one standard.",
  ["Caitlyn", "__Caitlyn/Config.h"], [("architecture, OS, compiler and standard detection", "__Caitlyn/Config.h")], ["values of the macros after preprocessing"])
p("C38", "Each public header provides the facilities it is named for",
  "Including one public header makes this library's and the standard library's facilities of its area available, the newer ones under every language standard that has them, so that a program using any of them needs no other header.",
  ["programs", "configurations"], "all public headers x facilities x language standards x compilers", "The tests include everything they need themselves, under one standard.",
  ["Caitlyn", "__Core/Utility.h", "__Core/Collections.h"], [("standard header lists and guards", "__Core/Utility.h")], ["compiler exit status"])

p("C39", "Running out of memory loses, leaks and breaks nothing",
  "Whichever memory allocation inside an operation fails, once or from then on, the operation either completes with its right result or throws; it never returns or stores a silently shortened or wrong result, leaks nothing, does not terminate the program, leaves every object it only reads unchanged, and leaves the objects it changes valid: they can be read, assigned, used again and destroyed. An object given to an owning pointer is destroyed even if the pointer cannot be set up, and a failed initialisation of the application leaves no arguments behind.",
  ["faults"], "every allocation of every operation as the failing one", "No test makes an allocation fail.",
  ["__Core/String/String.h", "__Core/String/StringBuilder.h", "__Numeric/Types/BigInteger.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/JsonParser.h", "__Core/Memory/Types/SharedPointer.h", "__Core/Error/Expected.h", "__Core/File/File.h"],
  [("JsonData copies and insertions", "__Serializing/Json/Types/JsonData.h"), ("text accumulation in streams", "__Core/String/String.h"), ("SharedPtr(Pointer)", "__Core/Memory/Types/SharedPointer.h")], ["results, exceptions and contents after a failed allocation", "live allocations"])

p("C40", "Results do not depend on the locale of the process",
  "Whatever locale the program runs in, however it was chosen (std::locale::global, setlocale for everything or only for numbers, a locale of the thread, facets of its own) and whenever it changes, the library gives the results it gives in the \"C\" locale: numbers are printed with a full stop, without grouping, in JSON, Format, StringBuilder, BigInteger, BigFloat, files and console output, and read the same way; the same JSON texts are valid and carry the same values; case mapping, character classes, comparison, ordering, searching, decoding, splitting and escaping give the same results; the same tests pass and are reported the same way. Excluded: values the user's own stream formats (the values shown in assertion messages, counts on a standard output imbued by the user).",
  ["environments", "histories"], "every locale and every way of choosing it, for every input; locale changes between operations", "The tests run in the C locale only.",
  ["__Core/String/String.h", "__Core/String/StringBuilder.h", "__Core/String/Utility.h", "__Core/Char/Utility.h", "__Numeric/Types/BigInteger.h", "__Numeric/Types/BigFloat.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/JsonParser.h", "__Core/File/File.h", "__Core/IO/Stream.h"],
  [("JsonData::ToString / WriteFloating", "__Serializing/Json/Types/JsonData.h"), ("JsonParser number conversion", "__Serializing/Json/Types/JsonParser.h"), ("Format conversions and precision", "__Core/String/String.h"), ("BigFloat(double)", "__Numeric/Types/BigFloat.h")], ["the text, value, verdict or order each operation returns"])

p("C41", "Results do not depend on how the program is built",
  "The same program gives the same results with every supported compiler, language standard from C++11 on and set of flags: optimised or not, with plain char signed or unsigned, with assertions and container checks or without, with either string ABI, with trapping or wrapping arithmetic, linked separately or optimised as a whole. That holds for texts and their decoding, case and classes, searching, formatting, JSON, big numbers, files, console output, test reports, Expected, smart pointers, comparators and limits.",
  ["configurations", "inputs"], "every compiler x standard x set of flags, for every input", "The tests are built in one configuration.",
  ["__Core/Char/Char.h", "__Core/String/String.h", "__Core/String/Utility.h", "__Core/Utility/Comparators.h", "__Numeric/Types/BigInteger.h", "__Numeric/Types/BigFloat.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/JsonParser.h", "__Core/File/File.h", "__Core/Error/Expected.h"],
  [("byte tests of the decoder", "__Core/Char/Char.h"), ("version-dependent declarations", "__Caitlyn/Config.h"), ("sign handling of comparisons", "__Core/Utility/Comparators.h")], ["the text, value or verdict each operation returns"])

p("C42", "Copies are equal and independent, moves hand over the value",
  "For every value type (Char, String, StringBuilder, BigInteger, BigFloat, JSON values and documents, Expected, Unexpected, test cases, and containers of them) a copy shows exactly what its source shows, later changes to one never show in the other, a move hands the value over unchanged, swapping exchanges the values, assignment to itself changes nothing, an object moved from can be assigned to and destroyed, and objects survive being passed by value and kept in growing containers: after any history every object is indistinguishable from one freshly made with the same steps, and nothing leaks.",
  ["histories"], "all histories of copies, moves, assignments, swaps, changes and destructions over several objects of each type", "Tests copy and move single objects in fixed situations.",
  ["__Core/Char/Char.h", "__Core/String/String.h", "__Core/String/StringBuilder.h", "__Numeric/Types/BigInteger.h", "__Numeric/Types/BigFloat.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/Json.h", "__Core/Error/Expected.h", "__Core/Error/Unexpected.h", "__Testing/Types/TestCase.h"],
  [("copy and move of JSON values", "__Serializing/Json/Types/JsonData.h"), ("copy and move of big numbers", "__Numeric/Types/BigInteger.h"), ("copy and move of Expected", "__Core/Error/Expected.h")], ["everything the object's public functions report"])

p("C43", "Works at any point of the program's life",
  "The library gives the same results wherever in the life of a program it is used, and whichever use came first: in constructors of static objects of any file of the program in any link order, in main, in threads, in destructors of thread_local objects, in exit handlers, in destructors of static objects, and while shared libraries are loaded and unloaded. The program's arguments can be handed to Application in whichever of these comes first, are there in every later one, and cannot be handed over twice.",
  ["histories", "configurations"], "every set of phases of the program's life, every link order, every operation", "Tests run in main only.",
  ["__Caitlyn/Application.h", "__Core/Char/Utility.h", "__Core/Error/Expected.h", "__Core/String/String.h", "__Core/String/Utility.h", "__Numeric/Types/BigInteger.h", "__Numeric/Types/BigFloat.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/JsonParser.h", "__Core/File/File.h", "__Testing/Types/TestRegistry.h"],
  [("the application's state", "__Caitlyn/Application.h"), ("tables of characters", "__Core/Char/Utility.h"), ("the default of Expected", "__Core/Error/Expected.h")], ["the text, value or verdict each operation returns", "the program's exit status"])

p("C44", "Arguments may be the object itself or a part of it",
  "An operation whose argument is the object it works on, or a part of it, does what it does with a separate copy of that argument: texts appended to or inserted into themselves, characters of a text inserted, repeated or assigned within it, sums, products, quotients and powers of a number with itself, parts of a JSON value copied or moved over other parts, over the whole or into it, keys and texts taken from the document they are used on, and Expected objects assigned from ones they own. Nothing freed is touched.",
  ["histories", "inputs"], "every operation, every object and every part of it as argument", "Tests pass separate arguments.",
  ["__Core/Char/Char.h", "__Core/String/String.h", "__Core/String/StringBuilder.h", "__Numeric/Types/BigInteger.h", "__Numeric/Types/BigFloat.h", "__Serializing/Json/Types/JsonData.h", "__Serializing/Json/Types/Json.h", "__Core/Error/Expected.h"],
  [("appending and inserting", "__Core/String/String.h"), ("assignment and member access of JSON values", "__Serializing/Json/Types/JsonData.h"), ("assignment of Expected", "__Core/Error/Expected.h")], ["the value of every object after the operation"])

p("C45", "The templates work with every payload type",
  "Expected, Unexpected, the smart pointers and the map utilities work with every type that can do what the operation needs, and with nothing more asked of it: types without a default, types that can only be moved, types whose moves may throw, types that take lists of themselves, types that have their own operator&, operator new, comma or truth value, over-aligned and const types, and types in namespaces with functions of common names. What was put in comes out, at a properly aligned place, and every object and allocation is given back.",
  ["inputs", "configurations"], "every combination of what a type can do x every operation", "Tests use numbers and texts as payloads.",
  ["__Core/Error/Expected.h", "__Core/Error/Unexpected.h", "__Core/Memory/Types/UniquePointer.h", "__Core/Memory/Types/SharedPointer.h", "__Core/Memory/Types/WeakPointer.h", "__Core/Memory/Types/RawPointer.h", "__Core/Collections/Utility.h"],
  [("construction of contents", "__Core/Error/Expected.h"), ("dereferencing", "__Core/Memory/Types/SharedPointer.h"), ("extraction from maps", "__Core/Collections/Utility.h")], ["the content each operation reports", "live objects and allocations"])

p("C46", "Work and memory grow in step with the input",
  "Building, editing, comparing, searching, formatting, splitting and printing text, reading and writing numbers, JSON documents and files, and copying or dropping values take work and memory proportional to the size of what they are given, up to a logarithm; schoolbook multiplication and division, aligning decimals and looking up the members of a JSON object, which go through the members one by one, take at most the square. Doing the same again and again does not make the memory in use grow.",
  ["inputs", "histories"], "every operation x every shape and size of input", "Tests use inputs too small for growth to show, and do not count.",
  ["__Core/String/String.h", "__Core/String/StringBuilder.h", "__Core/String/Utility.h", "__Core/File/File.h", "__Core/IO/Stream.h", "__Serializing/Json/Types/JsonParser.h", "__Serializing/Json/Types/JsonData.h", "__Numeric/Types/BigInteger.h"],
  [("appending text", "__Core/String/String.h"), ("parsing values", "__Serializing/Json/Types/JsonParser.h"), ("writing values", "__Serializing/Json/Types/JsonData.h"), ("reading lines", "__Core/File/File.h")], ["control-flow edges taken and bytes requested by each operation", "bytes in use after each round"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    for f in x["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
