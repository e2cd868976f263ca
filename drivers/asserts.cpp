// Test bodies made of assertions on recorded operands: what was thrown, with which text, and how often operands were evaluated.
#include "driver.h"
#include <climits>
#include <limits>
#include "Caitlyn/Testing"
#include "Caitlyn/String"
using namespace drv;
using Caitlyn::String;

// numbers in order; rank 0 is zero
static const double numbers[] = {-std::numeric_limits<double>::infinity(), -2147483648.0, -1.5, -1, 0, 0.25, 0.25000000001, 1, 2, 2147483647.0, 1e300, std::numeric_limits<double>::infinity()};
static const char* const texts[] = {"", "a", "b", "ab", "\xC3\xA4", "\xE4\xB8\xAD", "A", "%s{}%n", "\xF0\x9F\x98\x80", "a b", "\n"};

struct Operand
{
    std::string k = "num";
    long n = 0;
    std::string s, p; // text, printed form
};
static Operand X, Y;

static int rankOf(double d)
{
    for (size_t j = 0; j < sizeof numbers / sizeof *numbers; ++j)
        if (numbers[j] == d)
            return static_cast<int>(j) - 4;
    return 99;
}
template <typename T>
static T number(Operand& o, T v)
{
    o = Operand();
    std::ostringstream s;
    s << v;
    o.p = s.str();
    if (v != v)
        o.k = "nan";
    else
        o.n = rankOf(static_cast<double>(v));
    return v;
}
static std::string text(Operand& o, long i)
{
    o = Operand();
    o.k = "text";
    o.s = o.p = texts[i % (sizeof texts / sizeof *texts)];
    return o.s;
}
template <typename T>
struct Make;
template <>
struct Make<double>
{
    static double of(Operand& o, long i)
    {
        const long n = sizeof numbers / sizeof *numbers;
        i %= n + 2;
        return number(o, i < n ? numbers[i] : i == n ? std::numeric_limits<double>::quiet_NaN() : -0.0);
    }
};
template <>
struct Make<int>
{
    static int of(Operand& o, long i)
    {
        static const int v[] = {INT_MIN, -1, 0, 1, 2, INT_MAX};
        return number(o, v[i % 6]);
    }
};
template <>
struct Make<unsigned>
{
    static unsigned of(Operand& o, long i)
    {
        static const unsigned v[] = {0, 1, 2, INT_MAX};
        return number(o, v[i % 4]);
    }
};
template <>
struct Make<bool>
{
    static bool of(Operand& o, long i) { return number(o, i % 2 != 0); }
};
template <>
struct Make<char>
{
    static char of(Operand& o, long i)
    {
        const char c = "a~Z 0"[i % 5];
        o = Operand();
        o.n = c;
        o.p = std::string(1, c);
        return c;
    }
};
template <>
struct Make<String>
{
    static String of(Operand& o, long i) { return String(text(o, i).c_str()); }
};
template <>
struct Make<std::string>
{
    static std::string of(Operand& o, long i) { return text(o, i); }
};
// a type with only the operators it needs, that cannot be copied
struct Only
{
    int v = 0;
    Only() = default;
    Only(const Only&) = delete;
    Only(Only&& o) = default;
    explicit operator bool() const { return v != 0; }
    friend bool operator==(const Only& a, const Only& b) { return a.v == b.v; }
    friend bool operator<(const Only& a, const Only& b) { return a.v < b.v; }
    friend bool operator!=(const Only& a, const Only& b) { return a.v != b.v; }
    friend bool operator>(const Only& a, const Only& b) { return a.v > b.v; }
    friend bool operator<=(const Only& a, const Only& b) { return a.v <= b.v; }
    friend bool operator>=(const Only& a, const Only& b) { return a.v >= b.v; }
    friend std::ostream& operator<<(std::ostream& o, const Only& a) { return o << "only " << a.v; }
};
template <>
struct Make<Only>
{
    static Only of(Operand& o, long i)
    {
        Only r;
        r.v = number(o, static_cast<int>(i % 3));
        o.p = "only " + o.p;
        return r;
    }
};
static int target;
template <>
struct Make<const int*>
{
    static const int* of(Operand& o, long i)
    {
        o = Operand();
        o.n = i % 2;
        const int* p = i % 2 ? &target : nullptr;
        std::ostringstream s;
        s << p;
        o.p = s.str();
        return p;
    }
};

static int n1, n2;
static bool yes = true, stray, after;
static std::vector<std::string> named;
static void name2(const char* a, const char* b)
{
    named = {a, b, X.p, Y.p};
}

// the statement in every place a statement can stand
#define PLACES(S)                                                                                                      \
    switch (ctx)                                                                                                       \
    {                                                                                                                  \
        case 1: if (yes) { S; } else { stray = true; } break;                                                          \
        case 2: for (int caitlyn = 0; caitlyn < 1; ++caitlyn) { S; } break;                                            \
        case 3: { auto f = [&] { S; }; f(); break; }                                                                   \
        case 4: try { S; } catch (int) { stray = true; } break;                                                        \
        case 5: do { S; } while (!yes); break;                                                             \
        default: S; break;                                                                                             \
    }
// and between an if and its else
#define BARE(S)                                                                                                        \
    if (ctx == 6)                                                                                                      \
    {                                                                                                                  \
        bool reached = false;                                                                                          \
        if (!yes)                                                                                                      \
            S;                                                                                                         \
        else                                                                                                           \
            reached = true;                                                                                            \
        if (!reached)                                                                                                  \
            stray = true;                                                                                              \
        if (yes)                                                                                                       \
            S;                                                                                                         \
        else                                                                                                           \
            stray = true;                                                                                              \
    }                                                                                                                  \
    else                                                                                                               \
        PLACES(S)
#define CMP(A, M)                                                                                                      \
    if (a == A)                                                                                                        \
    {                                                                                                                  \
        if (form == 0)                                                                                                 \
        {                                                                                                              \
            name2("e1()", "e2()");                                                                                     \
            PLACES(M(e1(), e2()))                                                                                      \
        }                                                                                                              \
        else if (form == 1)                                                                                            \
        {                                                                                                              \
            const T& x = lhs;                                                                                          \
            const U& oss = rhs;                                                                                        \
            n1 = n2 = 1;                                                                                               \
            name2("x", "oss");                                                                                         \
            M(x, oss);                                                                                                 \
        }                                                                                                              \
        else if (form == 2)                                                                                            \
        {                                                                                                              \
            name2("yes ? e1() : e1()", "!yes ? e2() : e2()");                                                          \
            M(yes ? e1() : e1(), !yes ? e2() : e2());                                                                  \
        }                                                                                                              \
        else                                                                                                           \
        {                                                                                                              \
            const T& oss = lhs;                                                                                        \
            const U& message = rhs;                                                                                    \
            n1 = n2 = 1;                                                                                               \
            name2("oss", "message");                                                                                   \
            M(oss, message);                                                                                           \
        }                                                                                                              \
    }
template <typename T, typename U>
static void compare(const std::string& a, int form, int ctx, long i, long j)
{
    const T lhs = Make<T>::of(X, i);
    const U rhs = Make<U>::of(Y, j);
    auto e1 = [&]() -> const T& { ++n1; return lhs; };
    auto e2 = [&]() -> const U& { ++n2; return rhs; };
    CMP("eq", ASSERT_EQ)
    CMP("ne", ASSERT_NE)
    CMP("lt", ASSERT_LT)
    CMP("le", ASSERT_LE)
    CMP("gt", ASSERT_GT)
    CMP("ge", ASSERT_GE)
    CMP("eqp", ASSERT_EQ_PRINTABLE)
}
static void bits(const std::string& a, int form, int ctx, long i, long j)
{
    const int lhs = Make<int>::of(X, i), rhs = Make<int>::of(Y, j);
    auto e1 = [&] { ++n1; return lhs; };
    auto e2 = [&] { ++n2; return rhs; };
#define LOW(A, M)                                                                                                      \
    if (a == A)                                                                                                        \
    {                                                                                                                  \
        name2("e1() | 0", "e2() ^ 0");                                                                                 \
        if (form % 2)                                                                                                  \
        {                                                                                                              \
            M(e1() | 0, e2() ^ 0);                                                                                     \
        }                                                                                                              \
        else                                                                                                           \
        {                                                                                                              \
            name2("e1() + 0", "e2() & -1");                                                                            \
            M(e1() + 0, e2() & -1);                                                                                    \
        }                                                                                                              \
    }
    LOW("eq", ASSERT_EQ)
    LOW("ne", ASSERT_NE)
    LOW("lt", ASSERT_LT)
    LOW("le", ASSERT_LE)
    LOW("gt", ASSERT_GT)
    LOW("ge", ASSERT_GE)
    LOW("eqp", ASSERT_EQ_PRINTABLE)
}
// the texts of streams named as in the macros
static void streams(const std::string& a, int, int, long i, long j)
{
    std::ostringstream oss, out;
    oss << text(X, i);
    out << text(Y, j);
    auto go = [&](const std::string&) {};
    n1 = n2 = 1;
    name2("oss.str()", "out.str()");
    if (a == "eq")
    {
        ASSERT_EQ(oss.str(), out.str());
    }
    else if (a == "ne")
    {
        ASSERT_NE(oss.str(), out.str());
    }
    else if (a == "lt")
    {
        ASSERT_LT(oss.str(), out.str());
    }
    else if (a == "le")
    {
        ASSERT_LE(oss.str(), out.str());
    }
    else if (a == "gt")
    {
        ASSERT_GT(oss.str(), out.str());
    }
    else if (a == "ge")
    {
        ASSERT_GE(oss.str(), out.str());
    }
    else
    {
        ASSERT_EQ_PRINTABLE(oss.str(), out.str());
    }
}
static void cstrings(const std::string& a, int form, int ctx, long i, long j)
{
    std::string l, r;
    const char *p = nullptr, *q = nullptr;
    auto set = [](Operand& o, std::string& s, const char*& t, long i) {
        if (i % 12 == 11)
        {
            o = Operand();
            o.k = "null";
            return;
        }
        s = text(o, i);
        t = s.c_str();
    };
    set(X, l, p, i);
    set(Y, r, q, j);
    if (form == 2 && i % 12 == j % 12)
        q = p; // the same pointer
    auto e1 = [&] { ++n1; return p; };
    auto e2 = [&] { ++n2; return q; };
    if (form == 1)
    {
        const char *oss = p, *expected = q;
        n1 = n2 = 1;
        name2("oss", "expected");
        BARE(ASSERT_STREQ(oss, expected))
    }
    else if (form == 3)
    {
        const char *actual = p, *expected = q;
        n1 = n2 = 1;
        name2("actual", "expected");
        BARE(ASSERT_STREQ(actual, expected))
    }
    else
    {
        name2("e1()", "e2()");
        BARE(ASSERT_STREQ(e1(), e2()))
    }
}
#define COND(A, M)                                                                                                     \
    if (a == A)                                                                                                        \
    {                                                                                                                  \
        if (f == "one") { named = {"e1()"}; BARE(M(e1())) }                                                            \
        if (f == "not") { named = {"!e1()"}; BARE(M(!e1())) }                                                          \
        if (f == "or") { named = {"e1() || e2()"}; BARE(M(e1() || e2())) }                                             \
        if (f == "and") { named = {"e1() && e2()"}; BARE(M(e1() && e2())) }                                            \
        if (f == "same") { named = {"e1() == e2()"}; BARE(M(e1() == e2())) }                                           \
        if (f == "less") { named = {"e1() < e2()"}; BARE(M(e1() < e2())) }                                             \
        if (f == "choose") { named = {"e1() ? bool(e2()) : !e2()"}; BARE(M(e1() ? bool(e2()) : !e2())) }               \
        if (f == "comma") { named = {}; BARE(M((e1(), e2()))) }                                                        \
    }
template <typename T>
static void conditions(const std::string& a, const std::string& f, int ctx, long i, long j)
{
    const T lhs = Make<T>::of(X, i), rhs = Make<T>::of(Y, j);
    auto e1 = [&]() -> const T& { ++n1; return lhs; };
    auto e2 = [&]() -> const T& { ++n2; return rhs; };
    COND("true", ASSERT_TRUE)
    COND("false", ASSERT_FALSE)
}
template <typename T>
static void message(int ctx, long i)
{
    const T v = Make<T>::of(X, i);
    Y = X;
    named = {__FILE__, std::to_string(__LINE__ + 1), X.p};
    BARE(FAIL_MESSAGE() << v)
}
static void call(const Op& op, const std::string& a, std::string& f)
{
    const int form = op.n(2), ctx = op.n(3);
    const std::string t = op.s(4);
    const long i = op.n(5), j = op.n(6);
    if (a == "pass")
    {
        BARE(PASS())
    }
    else if (a == "fail")
    {
        BARE(FAIL())
    }
    else if (a == "message")
        t == "int" ? message<int>(ctx, i) : t == "dbl" ? message<double>(ctx, i) : t == "str" ? message<String>(ctx, i) : t == "chr" ? message<char>(ctx, i) : message<std::string>(ctx, i);
    else if (a == "streq")
        cstrings(a, form, ctx, i, j);
    else if (a == "true" || a == "false")
    {
        if (t == "bool")
            conditions<bool>(a, f, ctx, i, j);
        else if (t == "dbl")
            conditions<double>(a, f, ctx, i, j);
        else if (t == "only")
            conditions<Only>(a, f, ctx, i, j);
        else if (t == "ptr")
            conditions<const int*>(a, f, ctx, i, j);
        else
            conditions<int>(a, f, ctx, i, j);
    }
    else if (t == "dbl")
        compare<double, double>(a, form, ctx, i, j);
    else if (t == "mix")
        compare<int, double>(a, form, ctx, i, j);
    else if (t == "mix2")
        compare<double, unsigned>(a, form, ctx, i, j);
    else if (t == "uns")
        compare<unsigned, unsigned>(a, form, ctx, i, j);
    else if (t == "bool")
        compare<bool, bool>(a, form, ctx, i, j);
    else if (t == "chr")
        compare<char, char>(a, form, ctx, i, j);
    else if (t == "str")
        compare<String, String>(a, form, ctx, i, j);
    else if (t == "sstr")
        compare<std::string, std::string>(a, form, ctx, i, j);
    else if (t == "only")
        compare<Only, Only>(a, form, ctx, i, j);
    else if (t == "bits")
        bits(a, form, ctx, i, j);
    else if (t == "oss")
        streams(a, form, ctx, i, j);
    else
        compare<int, int>(a, form, ctx, i, j);
}
static std::string operand(const Operand& o)
{
    std::string s;
    for (unsigned char c : o.s)
        s += (s.empty() ? "" : ",") + std::to_string(c);
    return "{\"k\":\"" + o.k + "\",\"n\":" + std::to_string(o.n) + ",\"s\":[" + s + "]}";
}
static void run(const std::vector<Op>& ops)
{
    bool failed = false;
    stray = false;
    for (const Op& op : ops)
    {
        // as <assertion> <form of the condition> <form> <place> <type> <i> <j>
        const std::string a = op.s(0);
        std::string f = op.s(1);
        n1 = n2 = 0;
        after = false;
        named.clear();
        bool ex = false, st = false;
        std::string what;
        X = Y = Operand();
        try
        {
            call(op, a, f);
            after = true;
        }
        catch (const std::exception& e)
        {
            ex = st = true;
            what = e.what();
        }
        catch (...)
        {
            ex = true;
        }
        std::string q;
        for (const std::string& n : named)
        {
            Ev b("x");
            std::string s;
            for (unsigned char c : n)
                s += (s.empty() ? "" : ",") + std::to_string(c);
            q += (q.empty() ? "[" : ",[") + s + "]";
        }
        Ev("assert").name("a", a).name("f", f).raw("x", operand(X)).raw("y", operand(Y)).b("ex", ex).b("std", st).b("after", after).i("n1", n1).i("n2", n2).bytes("what", what).raw("q", "[" + q + "]").emit();
        if (ex)
        {
            failed = true;
            break;
        }
    }
    Ev("end").b("ended", !failed).b("stray", stray).emit();
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, run);
}
