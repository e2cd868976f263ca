// What the names of the library mean in this build: characters, type aliases, words, facts, enumerations.
#include "driver.h"
#include <cstddef>
#include <cstdint>
#include <limits>
#include <type_traits>
#include "Caitlyn/Caitlyn"
#include "Caitlyn/Char"
#include "Caitlyn/Memory"
#include "Caitlyn/Numeric"
#include "Caitlyn/String"
using namespace Caitlyn;
using namespace drv;
#define CHARACTERS \
    X(Null) X(StartOfHeading) X(StartOfText) X(EndOfText) X(EndOfTransmission) X(Enquiry) X(Acknowledge) X(Bell) \
    X(Backspace) X(CharacterTabulation) X(LineFeed) X(LineTabulation) X(FormFeed) X(CarriageReturn) X(ShiftOut) \
    X(ShiftIn) X(DataLinkEscape) X(DeviceControlOne) X(DeviceControlTwo) X(DeviceControlThree) X(DeviceControlFour) \
    X(NegativeAcknowledge) X(SynchronousIdle) X(EndOfTransmissionBlock) X(Cancel) X(EndOfMedium) X(Substitute) X(Escape) \
    X(InformationSeparatorFour) X(InformationSeparatorThree) X(InformationSeparatorTwo) X(InformationSeparatorOne) \
    X(Space) X(ExclamationMark) X(QuotationMark) X(NumberSign) X(DollarSign) X(PercentSign) X(Ampersand) X(Apostrophe) \
    X(LeftParenthesis) X(RightParenthesis) X(Asterisk) X(PlusSign) X(Comma) X(HyphenMinus) X(FullStop) X(Solidus) \
    X(DigitZero) X(DigitOne) X(DigitTwo) X(DigitThree) X(DigitFour) X(DigitFive) X(DigitSix) X(DigitSeven) X(DigitEight) \
    X(DigitNine) X(Colon) X(Semicolon) X(LessThanSign) X(EqualsSign) X(GreaterThanSign) X(QuestionMark) X(CommercialAt) \
    X(LatinCapitalLetterA) X(LatinCapitalLetterB) X(LatinCapitalLetterC) X(LatinCapitalLetterD) X(LatinCapitalLetterE) \
    X(LatinCapitalLetterF) X(LatinCapitalLetterG) X(LatinCapitalLetterH) X(LatinCapitalLetterI) X(LatinCapitalLetterJ) \
    X(LatinCapitalLetterK) X(LatinCapitalLetterL) X(LatinCapitalLetterM) X(LatinCapitalLetterN) X(LatinCapitalLetterO) \
    X(LatinCapitalLetterP) X(LatinCapitalLetterQ) X(LatinCapitalLetterR) X(LatinCapitalLetterS) X(LatinCapitalLetterT) \
    X(LatinCapitalLetterU) X(LatinCapitalLetterV) X(LatinCapitalLetterW) X(LatinCapitalLetterX) X(LatinCapitalLetterY) \
    X(LatinCapitalLetterZ) X(LeftSquareBracket) X(ReverseSolidus) X(RightSquareBracket) X(CircumflexAccent) X(LowLine) \
    X(GraveAccent) X(LatinSmallLetterA) X(LatinSmallLetterB) X(LatinSmallLetterC) X(LatinSmallLetterD) \
    X(LatinSmallLetterE) X(LatinSmallLetterF) X(LatinSmallLetterG) X(LatinSmallLetterH) X(LatinSmallLetterI) \
    X(LatinSmallLetterJ) X(LatinSmallLetterK) X(LatinSmallLetterL) X(LatinSmallLetterM) X(LatinSmallLetterN) \
    X(LatinSmallLetterO) X(LatinSmallLetterP) X(LatinSmallLetterQ) X(LatinSmallLetterR) X(LatinSmallLetterS) \
    X(LatinSmallLetterT) X(LatinSmallLetterU) X(LatinSmallLetterV) X(LatinSmallLetterW) X(LatinSmallLetterX) \
    X(LatinSmallLetterY) X(LatinSmallLetterZ) X(LeftCurlyBracket) X(VerticalLine) X(RightCurlyBracket) X(Tilde) \
    X(Delete)

template <typename T> std::string kind()
{
    return std::is_same<T, bool>::value ? "bool" : std::is_same<T, char>::value ? "char" : std::is_same<T, std::nullptr_t>::value ? "null"
         : std::is_floating_point<T>::value ? "floating" : std::is_integral<T>::value ? (std::is_signed<T>::value ? "signed" : "unsigned") : "other";
}
template <typename T> std::string same()
{
    std::string r;
#define T_(x) if (std::is_same<T, x>::value) r += std::string(r.empty() ? "" : ",") + "\"" #x "\"";
    T_(int) T_(unsigned int) T_(std::intmax_t) T_(std::uintmax_t) T_(std::size_t) T_(std::ptrdiff_t) T_(float) T_(double) T_(long double)
    T_(char) T_(wchar_t) T_(char16_t) T_(char32_t) T_(bool) T_(std::nullptr_t) T_(std::intptr_t) T_(std::uintptr_t)
#if __cplusplus >= 202002L
    T_(char8_t)
#endif
    return "[" + r + "]";
}
template <typename T> void alias(const char* name)
{
    int std = __cplusplus >= 202002L ? 20 : __cplusplus >= 201703L ? 17 : __cplusplus >= 201402L ? 14 : 11;
    Ev("alias").name("name", name).i("std", std).name("kind", kind<T>()).i("bits", 8 * sizeof(T)).raw("same", same<T>()).emit();
}
void fact(const char* name, const std::string& value)
{
    int std = __cplusplus >= 202002L ? 20 : __cplusplus >= 201703L ? 17 : __cplusplus >= 201402L ? 14 : 11;
#ifdef __clang__
    std::string compiler = "Clang " + std::to_string(__clang_major__) + "." + std::to_string(__clang_minor__);
#else
    std::string compiler = "GCC " + std::to_string(__GNUC__) + "." + std::to_string(__GNUC_MINOR__);
#endif
    Ev("fact").name("name", name).i("std", std).name("compiler", compiler).name("value", value).emit();
}
#define TEXT_(...) #__VA_ARGS__
#define TEXT(x) TEXT_(x)
template <typename E> void values(const std::vector<E>& v)
{
    std::vector<long> n;
    for (E e : v)
        n.push_back(static_cast<long>(e));
    Ev("enum").seq("values", n).emit();
}

static void run(const std::vector<Op>&)
{
#define X(n) { \
        std::string t(Def::n); \
        Ev e("char"); \
        e.name("name", #n).seq("text", decode(t)); \
        if (!t.empty()) \
        { \
            Char c(Def::n); \
            String s("a"); \
            s += Def::n; \
            s += String("b"); \
            e.i("point", c.GetCodePoint()).b("ofPoint", c == Char(static_cast<CodePoint>(c.GetCodePoint())) && c == Def::n).seq("joined", decode(s.str())); \
        } \
        e.emit(); }
    CHARACTERS
#undef X
#define A(n) alias<n>(#n);
    A(StdChar) A(WChar) A(Char8) A(Char16) A(Char32) A(SByte) A(Byte) A(Int8) A(UInt8) A(Int16) A(UInt16) A(Int32) A(UInt32) A(Int64) A(UInt64)
    A(Int) A(UInt) A(IntMax) A(UIntMax) A(IntPtr) A(UIntPtr) A(SSizeType) A(SizeType) A(PtrDiff) A(Float) A(Double) A(Decimal) A(Bool) A(NullPtr)
    A(CodePoint)
    auto word = [](const char* n, const std::string& t) { Ev("word").name("name", n).name("text", t).emit(); };
    word("true", String::ValueOf(true));
    word("false", String::ValueOf(false));
    word("null", String::ValueOf(nullptr));
    word("none", String().str());
    word("empty", Def::Empty);
    fact("HAS_CXX11", TEXT(__CAITLYN_HAS_CXX11));
    fact("HAS_CXX14", TEXT(__CAITLYN_HAS_CXX14));
    fact("HAS_CXX17", TEXT(__CAITLYN_HAS_CXX17));
    fact("HAS_CXX20", TEXT(__CAITLYN_HAS_CXX20));
    fact("HAS_CXX23", TEXT(__CAITLYN_HAS_CXX23));
    fact("CONSTEXPR11", TEXT(__CAITLYN_CONSTEXPR11));
    fact("CONSTEXPR14", TEXT(__CAITLYN_CONSTEXPR14));
    fact("CONSTEXPR17", TEXT(__CAITLYN_CONSTEXPR17));
    fact("CONSTEXPR20", TEXT(__CAITLYN_CONSTEXPR20));
    fact("CONSTEXPR23", TEXT(__CAITLYN_CONSTEXPR23));
    fact("OS_NAME", __CAITLYN_OS_NAME);
    fact("ARCH", TEXT(__CAITLYN_ARCH));
    fact("WORDSIZE", TEXT(__CAITLYN_WORDSIZE));
    fact("COMPILER", __CAITLYN_COMPILER_VERSION);
    Ev("version").name("text", __CAITLYN_VERSION).name("major", TEXT(__CAITLYN_MAJOR_VERSION__)).name("minor", TEXT(__CAITLYN_MINOR_VERSION__)).name("patch", TEXT(__CAITLYN_PATCH_VERSION__)).emit();
    values(std::vector<Sign>{Sign::Positive, Sign::Negative});
    values(std::vector<MemoryFormat>{MemoryFormat::Bit, MemoryFormat::Byte});
    values(std::vector<Radix>{Radix::Binary, Radix::Octal, Radix::Decimal, Radix::Hex});
    using D = DataSize;
    values(std::vector<D>{D::Bit, D::Byte, D::KiloBit, D::KibiBit, D::KiloByte, D::KibiByte, D::MegaBit, D::MebiBit, D::MegaByte, D::MebiByte, D::GigaBit,
        D::GibiBit, D::GigaByte, D::TeraBit, D::TebiBit, D::TeraByte, D::PetaBit, D::PebiBit, D::PetaByte, D::PebiByte,
        D::ExaBit, D::ExbiBit, D::ExaByte, D::ExbiByte, D::ZetaBit, D::ZebiBit, D::ZetaByte, D::ZebiByte, D::YottaBit, D::YobiBit, D::YottaByte, D::YobiByte});
    Ev("npos").b("largest", String::NPosition == std::numeric_limits<std::size_t>::max()).b("unsigned", std::is_unsigned<typename std::remove_cv<decltype(String::NPosition)>::type>::value).emit();
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, run);
}
