-------------------------------- MODULE Names --------------------------------
(* Named characters, type aliases, words and build facts: what each name means. *)
EXTENDS Integers, Sequences, FiniteSets

Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Digits == <<"Zero", "One", "Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine">>
\* names of Unicode, blocks of the first 128 code points that are neither letters nor digits
Controls == << "Null", "StartOfHeading", "StartOfText", "EndOfText", "EndOfTransmission", "Enquiry", "Acknowledge", "Bell", "Backspace",
    "CharacterTabulation", "LineFeed", "LineTabulation", "FormFeed", "CarriageReturn", "ShiftOut", "ShiftIn", "DataLinkEscape",
    "DeviceControlOne", "DeviceControlTwo", "DeviceControlThree", "DeviceControlFour", "NegativeAcknowledge", "SynchronousIdle",
    "EndOfTransmissionBlock", "Cancel", "EndOfMedium", "Substitute", "Escape", "InformationSeparatorFour", "InformationSeparatorThree",
    "InformationSeparatorTwo", "InformationSeparatorOne" >>
Signs1 == << "Space", "ExclamationMark", "QuotationMark", "NumberSign", "DollarSign", "PercentSign", "Ampersand", "Apostrophe",
    "LeftParenthesis", "RightParenthesis", "Asterisk", "PlusSign", "Comma", "HyphenMinus", "FullStop", "Solidus" >>
Signs2 == << "Colon", "Semicolon", "LessThanSign", "EqualsSign", "GreaterThanSign", "QuestionMark", "CommercialAt" >>
Signs3 == << "LeftSquareBracket", "ReverseSolidus", "RightSquareBracket", "CircumflexAccent", "LowLine", "GraveAccent" >>
Signs4 == << "LeftCurlyBracket", "VerticalLine", "RightCurlyBracket", "Tilde", "Delete" >>
Capital(k) == "LatinCapitalLetter" \o Letters[k]
Small(k) == "LatinSmallLetter" \o Letters[k]
\* the chart: name of code point c is Chart[c + 1]
Chart == Controls \o Signs1 \o [k \in 1..10 |-> "Digit" \o Digits[k]] \o Signs2 \o [k \in 1..26 |-> Capital(k)]
         \o Signs3 \o [k \in 1..26 |-> Small(k)] \o Signs4
CodePointOf(name) == (CHOOSE k \in 1..Len(Chart) : Chart[k] = name) - 1
\* the text of a named character: its one character; NUL ends C strings, so the text of Null is empty
TextOf(name) == IF name = "Null" THEN <<>> ELSE << CodePointOf(name) >>

\* ---- type aliases: kind and width in bits (at least / exactly)
Pointer == 64           \* bits of a pointer where the checks run
Is(kind, bits) == [kind |-> kind, bits |-> bits]
AliasTable ==
    [ Int8 |-> Is("signed", 8), UInt8 |-> Is("unsigned", 8), Int16 |-> Is("signed", 16), UInt16 |-> Is("unsigned", 16),
      Int32 |-> Is("signed", 32), UInt32 |-> Is("unsigned", 32), Int64 |-> Is("signed", 64), UInt64 |-> Is("unsigned", 64),
      SByte |-> Is("signed", 8), Byte |-> Is("unsigned", 8), CodePoint |-> Is("unsigned", 32),
      Bool |-> Is("bool", 8), NullPtr |-> Is("null", Pointer), StdChar |-> Is("char", 8) ]
\* aliases that are a type of the language or the standard library, by that type's name
SameTable ==
    [ Int |-> "int", UInt |-> "unsigned int", IntMax |-> "std::intmax_t", UIntMax |-> "std::uintmax_t", SizeType |-> "std::size_t",
      PtrDiff |-> "std::ptrdiff_t", Float |-> "float", Double |-> "double", Decimal |-> "long double",
      StdChar |-> "char", WChar |-> "wchar_t", Char16 |-> "char16_t", Char32 |-> "char32_t",
      Bool |-> "bool", NullPtr |-> "std::nullptr_t", IntPtr |-> "std::intptr_t", UIntPtr |-> "std::uintptr_t" ]
PointerWide == [ IntPtr |-> "signed", UIntPtr |-> "unsigned", SSizeType |-> "signed", SizeType |-> "unsigned", PtrDiff |-> "signed" ]
\* the type of UTF-8 literals: char8_t exists since C++20
Char8Is(std) == IF std >= 20 THEN "char8_t" ELSE "char"
AliasGood(name, std, kind, bits, same) ==
    /\ name \in DOMAIN AliasTable => kind = AliasTable[name].kind /\ bits = AliasTable[name].bits
    /\ name \in DOMAIN SameTable => SameTable[name] \in same
    /\ name \in DOMAIN PointerWide => kind = PointerWide[name] /\ bits = Pointer
    /\ name = "Char8" => Char8Is(std) \in same
Aliases == DOMAIN AliasTable \cup DOMAIN SameTable \cup DOMAIN PointerWide \cup {"Char8"}

\* ---- words of values, and the position that is none
Words == [ true |-> "true", false |-> "false", null |-> "null", none |-> "", empty |-> "" ]

\* ---- facts of the build
Standards == {11, 14, 17, 20}
Known == {11, 14, 17, 20, 23}           \* standards the library asks for
Fact(name, std, compiler) ==
    CASE name \in {"HAS_CXX11", "HAS_CXX14", "HAS_CXX17", "HAS_CXX20", "HAS_CXX23"} ->
            (IF std >= (CASE name = "HAS_CXX11" -> 11 [] name = "HAS_CXX14" -> 14 [] name = "HAS_CXX17" -> 17 [] name = "HAS_CXX20" -> 20 [] OTHER -> 23)
             THEN "1" ELSE "0")
      [] name \in {"CONSTEXPR11", "CONSTEXPR14", "CONSTEXPR17", "CONSTEXPR20", "CONSTEXPR23"} ->
            (IF std >= (CASE name = "CONSTEXPR11" -> 11 [] name = "CONSTEXPR14" -> 14 [] name = "CONSTEXPR17" -> 17 [] name = "CONSTEXPR20" -> 20 [] OTHER -> 23)
             THEN "constexpr" ELSE "")
      [] name = "OS_NAME" -> "Linux"
      [] name = "ARCH" -> "64"
      [] name = "WORDSIZE" -> "64"
      [] name = "COMPILER" -> compiler
Facts == {"HAS_CXX11", "HAS_CXX14", "HAS_CXX17", "HAS_CXX20", "HAS_CXX23", "CONSTEXPR11", "CONSTEXPR14", "CONSTEXPR17", "CONSTEXPR20",
          "CONSTEXPR23", "OS_NAME", "ARCH", "WORDSIZE", "COMPILER"}
\* the version text is made of the three numbers
VersionText(major, minor, patch) == "Caitlyn " \o major \o "." \o minor \o "." \o patch

\* ---- enumerations: enumerators are pairwise different
Distinct(values) == Cardinality({values[k] : k \in DOMAIN values}) = Len(values)

Good(e) ==
    CASE e.op = "char" -> \* as a constant, as a character, compared and concatenated in a string
            /\ e.text = TextOf(e.name)
            /\ e.name # "Null" => e.point = CodePointOf(e.name) /\ e.ofPoint = TRUE /\ e.joined = <<97, CodePointOf(e.name), 98>>
      [] e.op = "alias" -> AliasGood(e.name, e.std, e.kind, e.bits, {e.same[k] : k \in DOMAIN e.same})
      [] e.op = "word" -> e.text = Words[e.name]
      [] e.op = "fact" -> e.value = Fact(e.name, e.std, e.compiler)
      [] e.op = "version" -> e.text = VersionText(e.major, e.minor, e.patch)
      [] e.op = "enum" -> Distinct(e.values)
      [] e.op = "npos" -> e.largest = TRUE /\ e.unsigned = TRUE
\* everything a complete history of one build names
Complete(h) ==
    /\ {h[k].name : k \in {j \in DOMAIN h : h[j].op = "char"}} = {Chart[k] : k \in DOMAIN Chart}
    /\ {h[k].name : k \in {j \in DOMAIN h : h[j].op = "alias"}} = Aliases
    /\ {h[k].name : k \in {j \in DOMAIN h : h[j].op = "fact"}} = Facts
    /\ {h[k].name : k \in {j \in DOMAIN h : h[j].op = "word"}} = DOMAIN Words
=============================================================================
