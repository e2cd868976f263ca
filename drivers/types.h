// Types of the generated programs, their description as terms of spec/Types.tla, and what the library says about them.
#include <Caitlyn/Traits>
#include <cstdio>
#include <cstddef>
#include <istream>
#include <ostream>
#include <string>
#include <type_traits>

namespace U
{
struct Plain { int x; };
struct Empty {};
union Union { int i; char c; };
struct Derived : Plain { int y; };
struct Derived2 : Derived {};
class PrivD : Plain {};
struct Poly { virtual void f(); };
struct Abstract { virtual void f() = 0; };
struct VDtor { virtual ~VDtor(); };
struct MoveOnly { MoveOnly() noexcept; MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&) noexcept; };
struct Pinned { Pinned(); Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; };
struct NoDefault { NoDefault(int, int); };
struct Throwing { Throwing(); Throwing(const Throwing&); Throwing(Throwing&&) noexcept; Throwing& operator=(const Throwing&); Throwing& operator=(Throwing&&) noexcept; };
struct DtorOnly { ~DtorOnly(); };
struct DtorThrows { ~DtorThrows() noexcept(false); };
struct NoDtor { ~NoDtor() = delete; };
// defaulted, noexcept, throwing and deleted operations in turn
struct CopyTriv { CopyTriv() noexcept; CopyTriv(const CopyTriv&) = default; CopyTriv(CopyTriv&&) = default; CopyTriv& operator=(const CopyTriv&) noexcept; CopyTriv& operator=(CopyTriv&&) noexcept; ~CopyTriv() = default; };
struct MoveAssignTriv { MoveAssignTriv(); MoveAssignTriv(const MoveAssignTriv&); MoveAssignTriv(MoveAssignTriv&&); MoveAssignTriv& operator=(const MoveAssignTriv&); MoveAssignTriv& operator=(MoveAssignTriv&&) = default; ~MoveAssignTriv() = default; };
struct CopyAssignTriv { CopyAssignTriv() noexcept; CopyAssignTriv(const CopyAssignTriv&) noexcept; CopyAssignTriv(CopyAssignTriv&&) noexcept; CopyAssignTriv& operator=(const CopyAssignTriv&) = default; CopyAssignTriv& operator=(CopyAssignTriv&&) noexcept; ~CopyAssignTriv() = default; };
struct MoveCtorTriv { MoveCtorTriv(); MoveCtorTriv(const MoveCtorTriv&); MoveCtorTriv(MoveCtorTriv&&) = default; MoveCtorTriv& operator=(const MoveCtorTriv&); MoveCtorTriv& operator=(MoveCtorTriv&&); ~MoveCtorTriv() = default; };
struct CopyCtorTriv { CopyCtorTriv(); CopyCtorTriv(const CopyCtorTriv&) = default; CopyCtorTriv(CopyCtorTriv&&) noexcept; CopyCtorTriv& operator=(const CopyCtorTriv&) noexcept; CopyCtorTriv& operator=(CopyCtorTriv&&) noexcept; ~CopyCtorTriv() = default; };
struct DefTriv { DefTriv() = default; DefTriv(const DefTriv&); DefTriv(DefTriv&&); DefTriv& operator=(const DefTriv&); DefTriv& operator=(DefTriv&&); ~DefTriv() = default; };
struct NoAssign { NoAssign() = default; NoAssign(const NoAssign&) = default; NoAssign(NoAssign&&) = default; NoAssign& operator=(const NoAssign&) = delete; NoAssign& operator=(NoAssign&&) = delete; ~NoAssign() = default; };
struct NoCopyAssign { NoCopyAssign() = default; NoCopyAssign(const NoCopyAssign&) = default; NoCopyAssign(NoCopyAssign&&) = default; NoCopyAssign& operator=(const NoCopyAssign&) = delete; NoCopyAssign& operator=(NoCopyAssign&&) = default; ~NoCopyAssign() = default; };
struct AssignOnly { AssignOnly() = default; AssignOnly(const AssignOnly&) = delete; AssignOnly(AssignOnly&&) = delete; AssignOnly& operator=(const AssignOnly&) = default; AssignOnly& operator=(AssignOnly&&) = default; ~AssignOnly() = default; };
struct MoveThrows { MoveThrows() noexcept; MoveThrows(const MoveThrows&) noexcept; MoveThrows(MoveThrows&&); MoveThrows& operator=(const MoveThrows&) noexcept; MoveThrows& operator=(MoveThrows&&); ~MoveThrows() = default; };
struct CopyNothrow { CopyNothrow(); CopyNothrow(const CopyNothrow&) noexcept; CopyNothrow(CopyNothrow&&); CopyNothrow& operator=(const CopyNothrow&) noexcept; CopyNothrow& operator=(CopyNothrow&&); ~CopyNothrow() = default; };
struct NoMoveAssign { NoMoveAssign() noexcept; NoMoveAssign(const NoMoveAssign&) noexcept; NoMoveAssign(NoMoveAssign&&) noexcept; NoMoveAssign& operator=(const NoMoveAssign&) noexcept; NoMoveAssign& operator=(NoMoveAssign&&) = delete; ~NoMoveAssign() = default; };
struct NoMoveCtor { NoMoveCtor() noexcept; NoMoveCtor(const NoMoveCtor&) noexcept; NoMoveCtor(NoMoveCtor&&) = delete; NoMoveCtor& operator=(const NoMoveCtor&) noexcept; NoMoveCtor& operator=(NoMoveCtor&&) noexcept; ~NoMoveCtor() = default; };
struct Conv { operator int() const; };
struct FromInt { FromInt(int); };
struct Explicit { explicit Explicit(int); };
enum UEnum { uOne, uTwo };
enum class SEnum { one, two };
enum class SEnumB : unsigned char { one, two };
#define BINARY(N, O) struct Op_##N { bool operator O(const Op_##N&) const; };
BINARY(Less, <) BINARY(Greater, >) BINARY(Add, +) BINARY(Subtract, -) BINARY(Multyply, *) BINARY(Divide, /) BINARY(Modulus, %) BINARY(Equal, ==) BINARY(NotEqual, !=)
BINARY(BitwiseAnd, &) BINARY(BitwiseOr, |) BINARY(BitwiseXor, ^) BINARY(LeftShift, <<) BINARY(RightShift, >>) BINARY(Subscript, [])
struct Op_Increment { Op_Increment& operator++(); };
struct Op_Decrement { Op_Decrement& operator--(); };
struct Op_IStream { friend std::istream& operator>>(std::istream&, Op_IStream&); };
struct Op_OStream { friend std::ostream& operator<<(std::ostream&, const Op_OStream&); };
struct Mem_to_string { std::string to_string() const; };
struct Mem_str { std::string str() const; };
struct Mem_c_str { const char* c_str() const; };
struct Mem_ToString { std::string ToString() const; };
} // namespace U

template <typename T> using Const = const T;
template <typename T> using Volatile = volatile T;
template <typename T> using Ptr = T*;
template <typename T> using LRef = T&;
template <typename T> using RRef = T&&;
template <typename T> using ArrU = T[];
template <typename T, std::size_t N> using Arr = T[N];
template <typename R, typename... A> using Fn = R(A...);
template <typename R, typename... A> using FnC = R(A...) const;
template <typename R, typename... A> using FnL = R(A...) &;
template <typename R, typename... A> using FnCR = R(A...) const&&;
template <typename C, typename T> using MPtr = T C::*;

// ---- description ----------------------------------------------------------------------------------------------------
inline std::string term(const char* k, const std::string& n, const std::string& s, bool c = false, bool v = false)
{
    return std::string("{\"k\":\"") + k + "\",\"n\":\"" + n + "\",\"c\":" + (c ? "true" : "false") + ",\"v\":" + (v ? "true" : "false") + ",\"s\":[" + s + "]}";
}
template <typename T> struct Name;
#define FUND(T) template <> struct Name<T> { static const char* K() { return "fund"; } static const char* N() { return #T; } };
#define USER(T) template <> struct Name<U::T> { static const char* K() { return "user"; } static const char* N() { return #T; } };
FUND(void) FUND(bool) FUND(char) FUND(signed char) FUND(unsigned char) FUND(wchar_t) FUND(char16_t) FUND(char32_t) FUND(short) FUND(unsigned short) FUND(int) FUND(unsigned int)
FUND(long) FUND(unsigned long) FUND(long long) FUND(unsigned long long) FUND(float) FUND(double) FUND(long double)
template <> struct Name<decltype(nullptr)> { static const char* K() { return "fund"; } static const char* N() { return "nullptr_t"; } };
#ifdef __cpp_char8_t
FUND(char8_t)
#endif
USER(Plain) USER(Empty) USER(Union) USER(Derived) USER(Derived2) USER(PrivD) USER(Poly) USER(Abstract) USER(VDtor) USER(MoveOnly) USER(Pinned) USER(NoDefault) USER(Throwing) USER(DtorOnly)
USER(DtorThrows) USER(NoDtor) USER(CopyTriv) USER(MoveAssignTriv) USER(CopyAssignTriv) USER(MoveCtorTriv) USER(CopyCtorTriv) USER(DefTriv) USER(NoAssign) USER(NoCopyAssign) USER(AssignOnly) USER(MoveThrows) USER(CopyNothrow) USER(NoMoveAssign) USER(NoMoveCtor) USER(Conv) USER(FromInt) USER(Explicit) USER(UEnum) USER(SEnum) USER(SEnumB)
USER(Op_Less) USER(Op_Greater) USER(Op_Add) USER(Op_Subtract) USER(Op_Multyply) USER(Op_Divide) USER(Op_Modulus) USER(Op_Equal) USER(Op_NotEqual) USER(Op_Subscript) USER(Op_Increment)
USER(Op_Decrement) USER(Op_BitwiseAnd) USER(Op_BitwiseOr) USER(Op_BitwiseXor) USER(Op_LeftShift) USER(Op_RightShift) USER(Op_IStream) USER(Op_OStream)
USER(Mem_to_string) USER(Mem_str) USER(Mem_c_str) USER(Mem_ToString)

template <typename T> std::string describe();
template <typename T> struct Core      // without qualifiers of its own
{
    static std::string Get(bool c, bool v) { return term(Name<T>::K(), Name<T>::N(), "", c, v); }
};
template <typename T> struct Core<T*> { static std::string Get(bool c, bool v) { return term("ptr", "", describe<T>(), c, v); } };
template <typename T> struct Core<T&> { static std::string Get(bool, bool) { return term("lref", "", describe<T>()); } };
template <typename T> struct Core<T&&> { static std::string Get(bool, bool) { return term("rref", "", describe<T>()); } };
template <typename C, typename T> struct Core<T C::*> { static std::string Get(bool c, bool v) { return term("mptr", "", describe<C>() + "," + describe<T>(), c, v); } };
inline std::string list() { return ""; }
template <typename... A> struct List { static std::string Get() { return ""; } };
template <typename A, typename... B> struct List<A, B...> { static std::string Get() { return "," + describe<A>() + List<B...>::Get(); } };
template <typename R, typename... A> struct Core<R(A...)> { static std::string Get(bool, bool) { return term("fun", "", describe<R>() + List<A...>::Get()); } };
template <typename R, typename... A> struct Core<R(A...) const> { static std::string Get(bool, bool) { return term("fun", "const", describe<R>() + List<A...>::Get()); } };
template <typename R, typename... A> struct Core<R(A...) &> { static std::string Get(bool, bool) { return term("fun", "&", describe<R>() + List<A...>::Get()); } };
template <typename R, typename... A> struct Core<R(A...) const&&> { static std::string Get(bool, bool) { return term("fun", "const&&", describe<R>() + List<A...>::Get()); } };
template <typename T, bool = std::is_array<T>::value> struct Whole
{
    static std::string Get() { return Core<typename std::remove_cv<T>::type>::Get(std::is_const<T>::value, std::is_volatile<T>::value); }
};
template <typename T> struct Whole<T[], true> { static std::string Get() { return term("arr", "", describe<T>()); } };
template <typename T, std::size_t N> struct Whole<T[N], true> { static std::string Get() { return term("arr", std::to_string(N), describe<T>()); } };
template <typename T> std::string describe() { return Whole<T>::Get(); }

// ---- what the library says ------------------------------------------------------------------------------------------
template <typename...> struct Sink { using Type = void; };
template <template <typename> class Op, typename T, typename = void> struct Try { static std::string Get() { return ""; } };
template <template <typename> class Op, typename T> struct Try<Op, T, typename Sink<Op<T>>::Type> { static std::string Get() { return describe<Op<T>>(); } };
template <typename T> using ForwardL = decltype(Caitlyn::Forward<T>(std::declval<typename std::remove_reference<T>::type&>()));
template <typename T> using ForwardR = decltype(Caitlyn::Forward<T>(std::declval<typename std::remove_reference<T>::type&&>()));
template <typename T> using Movable = decltype(Caitlyn::MakeMovable(std::declval<typename std::remove_reference<T>::type&>()));
template <typename T> using RequiredTrue = Caitlyn::Required<Caitlyn::Same<T, T>(), T>;
template <typename T> using RequiredFalse = Caitlyn::Required<Caitlyn::Different<T, T>(), T>;

inline void put(std::string& o, const char* n, bool b) { o += std::string(o.empty() ? "" : ",") + "\"" + n + "\":" + (b ? "true" : "false"); }
inline void put(std::string& o, const char* n, const std::string& t)
{
    if (!t.empty())
        o += std::string(o.empty() ? "" : ",") + "\"" + n + "\":" + t;
}

template <typename T, bool = !std::is_void<T>::value && !std::is_function<T>::value> struct Align
{
    static void Put(std::string&) {}
};
template <typename T> struct Align<T, true>
{
    static void Put(std::string& o)
    {
        constexpr auto a = Caitlyn::AlignmentOf<T>();
        o += ",\"align\":" + std::to_string((unsigned long)a) + ",\"alignof\":" + std::to_string(alignof(T));
    }
};

#define IS(P) put(is, #P, Caitlyn::Is##P<T>());
#define OPN(P) put(ops, #P, Caitlyn::P<T>());
#define OPN3(P) OPN(P) OPN(Trivially##P) OPN(Nothrow##P)
#define HAS(P) put(has, #P, Caitlyn::Has##P##OperatorType<T>::Value);
#define TO(P) put(to, #P, Try<Caitlyn::P##Type, T>::Get());

template <typename T> void row(FILE* f)
{
    std::string is, ops, has, to, mem, al;
    IS(Void) IS(NullPointer) IS(Boolean) IS(Character) IS(Integer) IS(Integral) IS(Floating) IS(Array) IS(Enum) IS(Union) IS(Class) IS(Function) IS(Pointer) IS(LValueReference)
    IS(RValueReference) IS(MemberObjectPointer) IS(MemberFunctionPointer) IS(Fundamental) IS(Arithmetic) IS(Scalar) IS(Object) IS(Compound) IS(Reference) IS(MemberPointer)
    IS(Const) IS(Volatile) IS(Trivial) IS(TriviallyCopyable) IS(StandardLayout) IS(Empty) IS(Polymorphic) IS(Abstract) IS(Signed) IS(Unsigned)
    put(is, "HasVirtualDestructor", Caitlyn::HasVirtualDestructor<T>());
    OPN3(Constructible) OPN3(DefaultConstructible) OPN3(CopyConstructible) OPN3(MoveConstructible) OPN3(CopyAssignable) OPN3(MoveAssignable) OPN3(Destructible)
    HAS(Less) HAS(Greater) HAS(Add) HAS(Subtract) HAS(Multyply) HAS(Divide) HAS(Modulus) HAS(Equal) HAS(NotEqual) HAS(Subscript) HAS(Increment) HAS(Decrement)
    HAS(BitwiseAnd) HAS(BitwiseOr) HAS(BitwiseXor) HAS(LeftShift) HAS(RightShift) HAS(IStream) HAS(OStream)
    put(mem, "to_string", Caitlyn::HasToString<T>()); put(mem, "str", Caitlyn::HasStr<T>()); put(mem, "c_str", Caitlyn::HasCStr<T>()); put(mem, "ToString", Caitlyn::ConvertibleToString<T>());
    TO(AddConst) TO(AddVolatile) TO(AddCV) TO(RemoveConst) TO(RemoveVolatile) TO(RemoveCV) TO(RemoveReference) TO(RemovePointer) TO(AddLValueReference) TO(AddRValueReference) TO(AddPointer)
    TO(MakeSigned) TO(MakeUnsigned)
    put(to, "ForwardL", Try<ForwardL, T>::Get()); put(to, "ForwardR", Try<ForwardR, T>::Get()); put(to, "Movable", Try<Movable, T>::Get());
    put(to, "RequiredTrue", Try<RequiredTrue, T>::Get());
    put(to, "RequiredFalse", Try<RequiredFalse, T>::Get());
    constexpr auto rank = Caitlyn::Rank<T>();
    constexpr auto extent = Caitlyn::Extent<T>();
    al = "\"rank\":" + std::to_string((unsigned long)rank) + ",\"extent\":" + std::to_string((unsigned long)extent);
    Align<T>::Put(al);
    fprintf(f, "{\"op\":\"type\",\"t\":%s,\"is\":{%s},\"ops\":{%s},\"has\":{%s},\"mem\":{%s},\"to\":{%s},%s}\n", describe<T>().c_str(), is.c_str(), ops.c_str(), has.c_str(), mem.c_str(), to.c_str(), al.c_str());
}

template <typename T, typename V> void pairs(FILE* f)
{
    fprintf(f, "{\"op\":\"pair\",\"t\":%s,\"u\":%s,\"same\":%d,\"different\":%d,\"base\":%d,\"conv\":%d,\"assign\":%d}\n", describe<T>().c_str(), describe<V>().c_str(), (int)Caitlyn::Same<T, V>(),
            (int)Caitlyn::Different<T, V>(), (int)Caitlyn::BaseOf<T, V>(), (int)Caitlyn::Convertible<T, V>(), (int)Caitlyn::Assignable<typename std::add_lvalue_reference<T>::type, V>());
}
