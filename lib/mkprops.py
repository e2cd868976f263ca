import json
I="include/Caitlyn/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":I+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="__Core/String/String.h"; CH="__Core/Char/Char.h"
p("C01","UTF-8 text survives byte-for-byte, one character per code point",
"Building text from well-formed UTF-8 without NUL (C string, std::string, appended or inserted fragment, repeated character) yields exactly one character per encoded code point, in order, and its byte form reproduces the input exactly; its length counts code points and its byte count counts bytes. A character reports the code point it encodes, and a character made from a code point (U+0001..U+10FFFF, surrogates excluded) is that code point's UTF-8 encoding. Bytes that are not structurally UTF-8 (stray or missing continuation byte, bad lead byte, truncated sequence) are refused with an exception and never read past the end of the input.",
["inputs"],"every sequence of bytes without NUL, every code point",
"The string tests use one fixed string with two CJK characters and one emoji; no 2-byte sequence, no boundary code point (7F/80/7FF/800/FFFF/10000) and no malformed input is ever tried.",
[S,CH],[("DecodeUtf8Char",S),("FromCodePoint / GetCodePoint / IsValidUtf8Char",CH)],
[("data_","sequence of characters, each one UTF-8 encoded code point",S)],["String::str, Length, ByteCount, At","Char::GetCodePoint, str"])
p("C02","String edits behave as edits of a character sequence",
"After any sequence of edits (append, +=, +, push back, insert at a position, clear, element write through index or iteration, copy, move, assignment) a string holds exactly the characters that the same edits on a plain sequence of characters would give, and strings that were copied stay independent of each other. An insert, element access or substring whose position is out of range is refused with an exception and leaves the string unchanged.",
["histories","inputs"],"every history of edits over several strings, with multi-byte characters and every position",
"No test performs more than one edit on a string; positions other than a fixed substring and aliasing operands (s += s, insert of itself) are never exercised.",
[S],[("operator+, operator+=, Append, Insert, PushBack, Clear, Substring",S)],
[("data_","the character sequence",S)],["String::str, Length, operator[], iterators"])
p("C03","String search, comparison and slicing agree with the character sequence",
"Contains, StartsWith, EndsWith, Find (from a start position) and ReverseFind (considering only occurrences that end at or before the given position) report exactly the first/last character index at which the searched text occurs, or not-found; a match is counted in characters, never in bytes. Substring returns exactly the requested character range, clipped at the end. Equality and ordering between strings (and with C strings) are those of the code point sequences: a total order in which shorter prefixes come first.",
["inputs"],"every pair of texts and every position, including overlapping, repeated, empty and multi-byte needles",
"Tests search a handful of needles in one string; overlapping near-matches, start positions, reverse search bounds and comparisons are not exercised.",
[S],[("Find, ReverseFind, Contains, StartsWith, EndsWith, Substring, comparison operators",S)],None,["return values"])
CU="__Core/Char/Utility.h"
p("C04","Character classification and case mapping are coherent over all of Unicode",
"For every code point, upper- and lower-casing (of a character or of a whole string) maps the supported letters (ASCII, Greek U+0391-03C9, basic Cyrillic, Latin Extended-A, the Greek Extended block, and the documented specials such as sharp s and dotless i; not the titlecase and iota-subscript forms of Greek Extended, not U+1F50-1F5F, not Latin Extended-A after U+0177) to their Unicode counterpart and leaves every other code point unchanged; lower-casing is undone by upper-casing for regular pairs. A code point reported uppercase always changes when lower-cased, one reported lowercase always changes when upper-cased, none is both, and a letter is exactly one that is either. Space and digit classification hold exactly for the Unicode white space and the listed Unicode decimal digits (each digit block holding ten consecutive code points), and digit values exist exactly for ASCII digits.",
["inputs"],"every code point 0..0x10FFFF",
"The Char tests are placeholders: no code point is classified or mapped by any test.",
[CU,S],[("ToUppercase/ToLowercase/IsUppercase/IsLowercase/IsLetter/IsSpace/IsDigit/ToDigit",CU),("String::ToUppercase/ToLowercase",S)],None,["return values"])
p("C05","Format substitutes arguments exactly where the template says",
"Formatting copies every character outside placeholders verbatim (with {{ and }} producing single braces) and replaces {} placeholders, with or without a field specification, by the arguments in order, {N} and {N:spec} placeholders by argument N, and every {} by the only argument when there is exactly one. Explicit indices do not disturb the automatic order. Unbalanced braces and references to an argument that does not exist are refused with an exception, and no template makes formatting read outside its arguments.",
["inputs"],"every template and argument list (strings, Char, integers, floating values, booleans)",
"Formatting is exercised by the tests only through one IO placeholder test; mixed indices, several arguments with field specs and malformed templates are never tried.",
[S],[("String::Format",S)],[("auto_index","next automatic argument",S)],["returned string or exception"])
p("C06","Field width, fill, alignment and precision are honoured in characters",
"A field specification [[fill]align][width][.precision][type] pads the value to exactly the requested width counted in characters with the given fill (any character, default space) on the correct side(s) - left by default, centred with the odd pad character on the right - and never truncates a value that is already wide enough. With type f and a precision p > 0 exactly p fractional digits are shown, by truncation or zero padding; precision 0 shows no fraction and no precision leaves the value as it is. The specification changes nothing but padding and fractional digits.",
["inputs"],"every combination of fill, alignment, width, precision and type with every value",
"No test uses a field specification.",
[S],[("Formatter::MakeSpacifier, ProcessAlignment, ProcessFloating",S)],None,["returned string"])
p("C07","StringBuilder accumulates exactly what was appended",
"A builder's text is always the concatenation, in order, of its initial text and everything appended to it, with exactly one newline after each line append and formatted appends equal to formatting the same template. Copies start with the same text and afterwards grow independently of the original; appending to a copy or a moved-to builder never overwrites earlier text.",
["histories"],"every history of construct/append/append-line/copy/move over several builders",
"No test constructs a StringBuilder.",
["__Core/String/StringBuilder.h"],[("StringBuilder",  "__Core/String/StringBuilder.h")],None,["StringBuilder::str"])
J="__Serializing/Json/Types/"
p("C08","JSON text is accepted or refused, and decoded, correctly",
"Parsing accepts every JSON object document (RFC 8259 grammar, arbitrary nesting, any Unicode whitespace between tokens) and yields exactly the members, order, types and values it denotes: strings with all escapes (including \\uXXXX and surrogate pairs) decoded, integers exact over 64 bits, numbers with a fraction or exponent as floating values, last value winning for a repeated key; integers outside 64 bits and numbers beyond the range of Float are refused. Text that is not one object document - missing or extra punctuation, trailing commas, trailing content, malformed literals, numbers or escapes, unterminated strings or containers, a non-object root, empty or blank text - is refused with an error. Parsing never crashes, hangs or reads outside its input. (Left open: leading + or zeros and bare points of numbers, raw control characters in strings, lone surrogates, U+0000, denormal numbers.)",
["inputs"],"every text; nesting up to hundreds of levels",
"The tests parse three fixed well-formed documents and four malformed ones, and compare no decoded value.",
[J+"JsonParser.h",J+"Json.h","__Core/String/Utility.h"],[("JsonParser::Parse*",J+"JsonParser.h")],
[("position_","parser cursor",J+"JsonParser.h"),("error_","last error",J+"JsonParser.h")],["JsonDocument::HasError, GetError, tree accessors"])
p("C09","JSON output is valid JSON that parses back to the same tree",
"Serialising any tree, compactly or indented with any width, yields a valid JSON text whose parse is a tree with the same structure, member order, strings (including quotes, backslashes, control characters and non-ASCII text), booleans, nulls, integers and finite floating values (up to the six significant digits printed; whole floating values stay floating). Indented and compact output denote the same tree and differ only in whitespace between tokens; stream output equals compact output.",
["inputs"],"every tree built through the API or by parsing",
"One test round-trips a single document whose strings need no escaping, only in compact form.",
[J+"JsonData.h",J+"Json.h"],[("JsonData::MakeOutput",J+"JsonData.h")],None,["ToString(false), ToString(true, n), operator<<, operator>>"])
p("C10","A JSON tree is an ordered map/array value with independent copies",
"Through any history of member access, assignment, add, remove, append, element access and copying or moving of documents and subtrees, an object holds each key at most once in first-insertion order with the last value assigned, an array holds exactly the elements appended or assigned (gaps filled with null), and size, membership, type and typed getters report exactly that. Copies are deep: changing one never changes the other, also when a tree is assigned from one of its own subtrees; a tree that was moved from is null. Reading a missing member of a constant object is refused with an exception, and no history leaks or double-frees storage.",
["histories"],"every history over several documents, keys, indices and value types",
"Tests build one document by bracket access and never remove, overwrite with another type, copy or alias.",
[J+"JsonData.h",J+"Json.h"],[("JsonData::operator[], operator=, CopyUnion, MoveUnion, DestroyUnion, SetType, Append",J+"JsonData.h"),("JsonDocument::AddMember/RemoveMember",J+"Json.h")],
[("type_","kind of the node",J+"JsonData.h"),("data_","payload of the node",J+"JsonData.h")],["ToString, Size, HasMember, GetType, Get*"])
p("C11","A JSON document is either a parsed object or an error, never a mixture",
"After each parse (constructor, assignment, Parse, stream extraction) a document either reports no error and holds exactly the parsed object, or reports an error with a descriptive message and holds null; nothing of the previous content or previous error survives in either case. Error state follows copies and moves, a moved-from document is empty and error-free, and a document can be parsed into again after any failure.",
["histories","inputs"],"every sequence of successful and failing parses, copies and moves",
"Each test parses one text into a fresh document.",
[J+"Json.h",J+"JsonError.h","__Serializing/Json/Utility.h"],[("JsonDocument::Parse",J+"Json.h")],
[("root_","current tree",J+"Json.h"),("error_","current error",J+"Json.h")],["HasError, GetError, GetErrorString, GetType, Size"])
BI="__Numeric/Types/BigInteger.h"
p("C12","Big integer addition, subtraction, multiplication and powers are exact",
"For all integers of any size and sign, sum, difference, product, square, absolute value and non-negative powers are mathematically exact; a negative exponent is refused with an exception. Operands are never modified.",
["inputs"],"every pair of integers of any length and sign combination, every small exponent",
"The big integer test computes nothing (placeholder); sign combinations, carries and borrows are never exercised.",
[BI],[("Add, Subtract, Multiply, Pow, Sqr, Abs",BI)],[("digits_","decimal digits, least significant first, no leading zero",BI),("is_negative_","sign",BI)],["ToString"])
p("C13","Big integer division, remainder and square root obey their laws",
"For all integers a and b != 0 the quotient truncates toward zero, a = (a/b)*b + a%b, the remainder is smaller in magnitude than b and has the sign of a or is zero; division or remainder by zero is refused with an exception. The square root of a non-negative integer is its floor, and a negative operand is refused with an exception.",
["inputs"],"every pair of integers of any length and sign combination",
"No test divides or takes a root.",
[BI],[("Divide, Modulo, Sqrt",BI)],None,["ToString"])
p("C14","Big integers have one canonical form and a total order",
"A big integer made from decimal text (optional sign, leading zeros) or from a 64-bit value denotes that number and prints as its canonical decimal form; text that is not an optional sign followed by at least one ASCII digit is refused with an exception. The six comparisons agree with the order of the mathematical integers for every value however it was computed; in particular there is exactly one zero.",
["inputs","histories"],"every text and every pair of values, including results of arithmetic",
"No test parses, prints or compares a big integer.",
[BI],[("BigInteger(const String&), RemoveLeadingZeros, LessThan, Equal, ToString",BI)],None,["ToString, comparison operators"])
BF="__Numeric/Types/BigFloat.h"
p("C15","Big decimals compute exactly",
"A big decimal made from decimal text denotes exactly that number and prints as it without redundant zeros; sum, difference, product, square, absolute value, non-negative powers and the six comparisons are mathematically exact for all signs, scales and leading or trailing zeros. The quotient is the exact quotient truncated toward zero to as many fractional digits as the dividend has (in shortest form) more than the divisor, at least none; division by zero and negative exponents are refused with an exception. The square root is exact to the number of fractional digits of the operand (truncated) and refused for negative operands; text that is not an optional sign and digits around at most one point is refused.",
["inputs"],"every pair of decimals of any length, scale and sign",
"The big decimal test is a placeholder.",
[BF],[("BigFloat",BF)],None,["ToString, comparison operators"])
M="__Core/Memory/Types/"
p("C16","Shared objects live exactly as long as some shared pointer owns them",
"Through every history of creating, copying, moving, assigning, resetting and destroying shared and weak pointers, an object is destroyed exactly once, at the moment its last shared owner lets go, never while one remains and never leaked; weak pointers do not keep it alive, report expiry exactly from then on, and locking one yields an owner of the same object exactly while it is alive. Dereferencing an empty or expired pointer is refused with an exception; self-assignment and operations on empty pointers are harmless.",
["histories"],"every history of operations over several shared and weak pointers and objects",
"The memory test is a placeholder: no smart pointer is ever constructed.",
[M+"SharedPointer.h",M+"WeakPointer.h"],[("SharedPtr copy/move/Release/Reset",M+"SharedPointer.h"),("WeakPtr::lock, expired",M+"WeakPointer.h")],
[("ref_count_","number of owners",M+"SharedPointer.h")],["destructor calls of the pointee, Get, lock, expired"])
p("C17","Shared ownership is thread-safe",
"When several threads copy, reset, destroy and lock their own shared and weak pointers to one object concurrently, under every interleaving the object is destroyed exactly once, after the last owner has let go and with every owner's prior accesses ordered before the destruction; a lock succeeds only while an owner exists and no thread ever touches freed storage.",
["schedules"],"every interleaving of up to three threads' pointer operations",
"No test shares a pointer between threads; schedules are not controlled.",
[M+"SharedPointer.h",M+"WeakPointer.h"],[("atomic reference count updates",M+"SharedPointer.h")],
[("ref_count_","atomic owner count",M+"SharedPointer.h")],["pointee destructor, lock results, memory accesses"])
p("C18","Unique and raw pointers destroy exactly what they own, exactly once",
"Through every history of creating, moving, assigning, resetting, releasing and destroying unique pointers each owned object has exactly one owner and is destroyed exactly once when that owner resets to something else, is overwritten or goes away; release gives up ownership without destroying. A raw pointer wrapper never destroys implicitly, only on explicit reset or destroy. Dereferencing null is refused with an exception and comparisons reflect object identity.",
["histories"],"every history of operations over several pointers and objects",
"No test constructs these pointers.",
[M+"UniquePointer.h",M+"RawPointer.h"],[("UniquePtr",M+"UniquePointer.h"),("Ptr",M+"RawPointer.h")],None,["destructor calls of the pointee, Get"])
E="__Core/Error/Expected.h"
p("C19","A result is either a value or an error and combinators follow its side",
"At every moment a result holds exactly one of a value or an error, as constructed or last assigned; value access succeeds exactly on values and error access exactly on errors, the other being refused with an exception. Every combinator (map, map error, and-then/then, or-else/catch, on-error, filter, fold, inspect, customize, unwrap-or variants, expect variants) invokes its callback exactly once on the matching side with the held content, never on the other side, and yields the callback's outcome or the unchanged content (a value that fails the predicate of a filter yields the default error, a failed expectation carries its message, an exception thrown by a callback reaches the caller); the source result is not modified.",
["inputs","histories"],"both sides, every combinator, chains of combinators",
"Each combinator is tested once on one side with one value; wrong-side calls and chains are mostly unchecked.",
[E,"__Core/Error/Unexpected.h"],[("Expected combinators",E)],[("hasValue_","which side is held",E)],["HasValue, Get, GetError, callback invocations"])
p("C20","A result owns exactly one payload through copies, moves and failures",
"Through every history of constructing, copying, moving, assigning (across value and error sides, and to itself) and destroying results, each payload object is constructed and destroyed exactly once and copies are independent. Payload moves do not throw in assignments and the content of a moved-from result is left open. If copying a payload throws while constructing or assigning, or moving one throws while constructing, no payload is leaked or destroyed twice and the assigned-to result is still a well-formed result holding its previous content.",
["histories","fault_sequences"],"every history over several results, with a failure injected at every payload copy",
"Tests never assign between sides, count payload lifetimes or throw from payload operations.",
[E],[("copy/move constructors and assignments, DestroyUnion",E)],None,["payload constructor/destructor calls"])
F="__Core/File/File.h"
p("C21","A file contains exactly what was written, in order",
"Whatever sequence of write, write-line, append, append-line, read, close, reopen and erase calls is made through one or more file objects, every write adds exactly its text (plus one newline for the line forms, formatted forms as formatting would give) at the end of the file, immediately visible to other readers, whether or not the file was read to its end or closed before; erase empties it and nothing else removes or alters content. Opening an empty name or an unusable path is refused with an exception.",
["histories"],"every history of operations over one or two file objects on one path",
"The file test is a placeholder.",
[F],[("Open/Write/WriteLine/Append/AppendLine/Erase",F)],[("file_","underlying stream",F)],["file content on disk"])
p("C22","Sequential reading returns each line once and whole-file reading everything",
"Reading line by line returns the file's delimiter-separated pieces in order from the current position, each exactly once and without its delimiter, the last piece also when it is not terminated, and reports end-of-file exactly when a read has run past the last byte; interleaved writes, whole-file reads, close and reopen do not disturb the position. Setting the position (to the start of a character) restarts reading there, and reading the whole file returns its exact content (also for an empty file) regardless of position.",
["histories","inputs"],"every content (UTF-8 text, empty lines, missing final newline, any delimiter) and every history",
"The file test is a placeholder.",
[F],[("ReadLine, Read, SetPosition, IsEof",F)],[("currentPosition_","next byte to read",F)],["returned strings, IsEof, GetPosition"])
T="__Testing/"
p("C23","The test runner runs every test once and reports the truth",
"A run executes every registered test exactly once - suites in name order, tests in registration order, whatever other tests do (pass, fail an assertion, throw anything) - and reports each as OK or FAIL accordingly with its failure message; the printed totals, per-suite counts, passed and failed counts and the list of failed tests all agree with what happened. The returned status is zero exactly if no test failed, for every run of the registry.",
["programs","histories"],"every registry of suites and outcomes, including repeated runs",
"The library's own suite only has passing tests, so the failure, listing and status paths are never executed.",
[T+"Types/TestRegistry.h",T+"Macro/Test.h",T+"Macro/TestFixture.h"],[("TestRegistry::AddTest, RunAll, LogSummary",T+"Types/TestRegistry.h")],
[("passed_/failed_","counters",T+"Types/TestRegistry.h")],["stdout, return value, invoked test functions"])
p("C24","Assertions fail a test exactly when their condition is false",
"Each assertion (true, false, equal, not equal, ordered comparisons, printable equal, C-string equal, pass, fail, fail with message) passes silently exactly when its condition holds and otherwise ends the current test with a failure exception that names the asserted expressions and, for comparisons, the asserted comparison and both values with the opposite one between them; operands of a passing assertion are evaluated exactly once (those of a failing one may be evaluated again for the message), fail-with-message reports its place and the given message, and no assertion ends the process.",
["inputs","programs"],"every assertion with every ordering of operands",
"The suite only executes assertions that pass.",
[T+"Macro/Assert.h",T+"Types/TestFailMessage.h"],[("ASSERT_*",T+"Macro/Assert.h")],None,["exception and message"])
p("C25","Console streams deliver exactly the given text to the right stream, in order",
"Every write to the output stream appears at once on standard output and every write to the error and log streams on standard error, in call order, exactly as given (formatted forms as formatting would give) with one newline for the line forms and nothing else. Reading a line prints its prompt first and returns successive input lines without their newline, unchanged, and an empty string at end of input; reading a character returns the first character of the next line (an empty character if there is none).",
["histories","inputs"],"every history of writes and reads over the four streams",
"The IO test is a placeholder.",
["__Core/IO/Stream.h"],[("OutputStream/ErrorStream/LogStream/InputStream","__Core/IO/Stream.h")],None,["bytes on fd 1 and 2, returned strings"])
U="__Core/String/Utility.h"
p("C26","Text utilities satisfy their definitions on every text",
"Splitting and re-joining with the delimiter restores the text up to one trailing delimiter and no piece contains the delimiter; repeating gives the text the stated number of times, zero included; substring search by KMP agrees with plain search; the first/last non-space index is exactly that (text length if there is none); a text is a number exactly if non-empty and all digits; unescaping replaces each known backslash escape by its character (\\uXXXX by that UTF-8 character) and keeps everything else unchanged.",
["inputs"],"every text, pattern, delimiter and count",
"No test calls these utilities.",
[U,"__Core/String/Algorithms/Kmp.h"],[("Split, Repeat, EscapeString, IsNumber, FindFirstNonSpace, FindLastNonSpace",U),("kmp","__Core/String/Algorithms/Kmp.h")],None,["return values"])
p("C27","The application object is initialised once and keeps its arguments",
"The first initialisation succeeds and yields the one application object; every further initialisation, with or without arguments, is refused with an exception and changes nothing. The arguments it reports are the given ones in order, and stay so after the caller's storage changes.",
["histories"],"every sequence of initialisations and argument vectors",
"No test initialises the application; the public umbrella headers are not even included by the tests.",
["__Caitlyn/Application.h","__Caitlyn.h"],[("Application::Initialise/Initialize","__Caitlyn/Application.h")],
[("initialized_","whether initialisation happened","__Caitlyn/Application.h"),("args_","copied arguments","__Caitlyn/Application.h")],["return values, GetArgs"])
p("C28","Mixed-sign comparison, random ranges, map and size helpers are exact",
"The mixed-type integer comparisons (equal, not equal, less, greater, less-or-equal, greater-or-equal) agree with comparing the mathematical values for every pair of values of any two integer types. Random values lie within the requested inclusive bounds (finite, not reversed) for every supported type and every integer of a small range and every quarter of a large one occurs, random booleans follow probabilities 0 and 1 exactly and reject probabilities outside [0,1]. The keys and values of a map are returned completely, in the map's order and matched by position, and type sizes in bits are eight times those in bytes.",
["inputs"],"every pair of integer types and values, every bound pair, every map",
"No test calls them.",
["__Core/Utility/Comparators.h","__Core/Utility/Random.h","__Core/Collections/Utility/MapUtility.h","__Core/Memory/Utility/SizeCalculation.h","__Core/Numeric/Utility/Limits.h"],
[("cmp_*","__Core/Utility/Comparators.h"),("Random","__Core/Utility/Random.h"),("GetMapKeys/GetMapValues","__Core/Collections/Utility/MapUtility.h")],None,["return values"])
p("C29","Type predicates and transformations agree with the C++ type they inspect",
"For every type T the traits answer what the language defines: the category and composite predicates (IsVoid, IsNullPointer, IsBoolean, IsCharacter - any of the character types -, IsInteger - the standard signed and unsigned integer types, signed char and unsigned char included -, IsIntegral, IsFloating, IsArray, IsEnum, IsUnion, IsClass, IsFunction, IsPointer, references, member pointers, IsFundamental ... IsMemberPointer) regardless of cv-qualification; the properties (IsConst, IsVolatile, IsTrivial, IsTriviallyCopyable, IsStandardLayout, IsEmpty, IsPolymorphic, IsAbstract, IsSigned, IsUnsigned, HasVirtualDestructor), AlignmentOf, Rank and Extent as numbers, the operations (Constructible ... Destructible, each also Trivially- and Nothrow-), the relations (Same, Different, BaseOf, Convertible, Assignable), the operator and member detectors (each Has...OperatorType true exactly when that operator applies to values of T - variables for ++, -- and stream input -, HasToString, HasStr, HasCStr, ConvertibleToString), and the transformations (Add/Remove Const, Volatile, CV, Reference, Pointer; MakeSigned and MakeUnsigned of char and the standard integers; Forward, MakeMovable; Required) give exactly the type their name says, for reference, array and function types too. They answer for every type instead of failing to compile.",
["programs"],"every type built from fundamental types, cv-qualifiers, pointers, references, arrays, functions, members, classes, enums and unions",
"The traits test is a placeholder; the answers depend on the shape of types, of which there are infinitely many, and a wrong one shows only where a template takes another branch.",
["__Core/Traits/Constraints/Primary.h","__Core/Traits/Types/Primary.h","__Core/Traits/Types/Specifiers.h","__Core/Traits/Types/References.h","__Core/Traits/Types/Pointers.h","__Core/Traits/Types/SignModifiers.h","__Core/Traits/Types/Operators.h","__Core/Traits/Types/Properties.h","__Core/Traits/Constraints/Properties.h","__Core/Traits/Constraints/PropertyQueries.h","__Core/Traits/Constraints/Operations.h","__Core/Traits/Constraints/Relationships.h","__Core/Traits/Constraints/Composite.h","__Core/Traits/Constraints/String.h"],
[("Is*Type","__Core/Traits/Types/Primary.h"),("__RemoveCV ...","__Core/Traits/Types/Specifiers.h"),("__TryAdd*","__Core/Traits/Types/References.h")],None,["constant values and alias types"])
p("C30","The library means the same in every supported dialect",
"A program that uses the library behaves as the other properties say whichever supported language standard (C++11 to C++20) it is compiled as, with GCC as with Clang, and with optimisation as without: strings, characters, formatting, JSON, numbers, pointers, results, files, console, application object, values and the testing framework have the same observable behaviour, and every public header can be included and used.",
["programs","histories"],"every history of the other properties, in every dialect from C++11 to C++20, with GCC and Clang, unoptimised and optimised",
"The test suite is built once, as C++11 with one compiler; code under a conditional on the standard, undefined behaviour that only an optimiser exploits and constructs whose meaning changed between standards are never run.",
["__Caitlyn/Config.h","__Caitlyn/Types.h","__Core/Char.h","__Core/String.h","__Core/Algorithms.h","__Core/Error.h","__Core/IO.h","__Core/Traits/Types/Primary.h"],
[("__CAITLYN_HAS_CXX*","__Caitlyn/Config.h")],None,["everything the other properties observe"])
p("C31","Threads with their own objects, and threads that only read, are independent",
"Threads that work on different objects, and threads that at the same time look at (or copy) one object that nobody changes, need no synchronisation: no two of their accesses conflict (no data race), and each thread observes exactly what it would observe alone - strings, characters, formatting, builders, text utilities, JSON documents, integers and decimals, shared pointers (whose count is shared by copies), unique pointers, results, files, random values and comparisons alike. No operation keeps state of the whole program that one thread could see another one change.",
["histories","schedules"],"every set of histories of the other properties run by threads at the same time on separate objects, and every constant operation by two threads on one object, under every schedule",
"No test starts a thread; a scratch buffer, a memo or a lazily filled field shared behind a constant operation gives right answers in every single-threaded test.",
["__Core/String/String.h","__Core/Char/Utility.h","__Core/String/Algorithms.h","__Serializing/Json/Types/JsonData.h","__Numeric/Types/BigInteger.h","__Numeric/Types/BigFloat.h","__Core/Memory/Types/SharedPointer.h","__Core/Error/Expected.h","__Core/File/File.h","__Core/Utility/Random.h"],
[("static tables of characters","__Core/Char/Utility.h"),("UnwrapOrDefault","__Core/Error/Expected.h"),("Counter","__Core/Memory/Types/SharedPointer.h")],None,["everything the other properties observe","races reported by happens-before"])
p("C32","Named characters, type aliases and words mean what their names say",
"Each named character of Def denotes exactly the code point of that Unicode name (all 128 of the first block, each once; Null is the empty text), as text, as a character and inside a string. Each type alias is a type of the stated width, kind and signedness in every dialect (IntN/UIntN/SByte/Byte/CodePoint exactly N bits; Int, UInt, IntMax, UIntMax, IntPtr, UIntPtr, SizeType, PtrDiff, Float, Double, Decimal, Bool, NullPtr and the character aliases the language's own types, Char8 being char8_t since C++20; SizeType/SSizeType/PtrDiff/IntPtr as wide as a pointer). The words of values are true, false and null, and an empty string prints nothing; NPosition is the largest size. The facts of the build (language standard offered, constexpr per standard, operating system, word size, compiler, version text) are those of the compilation. Enumerators of one enumeration differ from each other.",
["programs"],"every name, in every dialect from C++11 to C++20, with GCC and Clang",
"Tests use a handful of the names, in one dialect; a wrong code point or width shows only in the text or number that meets it.",
["__Core/Char/Defs.h","__Core/String/Defs.h","__Caitlyn/Types.h","__Caitlyn/Config.h","__Core/Memory/Types/DataSize.h","__Core/Numeric/Types/Radix.h","__Core/String/String.h"],
[("named characters","__Core/Char/Defs.h"),("aliases","__Caitlyn/Types.h"),("facts","__Caitlyn/Config.h"),("ValueOf, NPosition","__Core/String/String.h")],None,["constants, types and macros of a compiled program"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch); 
print(len(P))
