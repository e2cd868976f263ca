// Mixed comparisons, random values, map and size helpers on recorded operands.
#include "driver.h"
#include <algorithm>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <unordered_map>
#include "Caitlyn/Collections"
#include "Caitlyn/Memory"
#include "Caitlyn/Numeric"
#include "Caitlyn/String"
#include "Caitlyn/Utility"
using namespace Caitlyn;
using namespace drv;

// the clock that random numbers are seeded with
static DRV_TL long long ticks;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    ticks += 1;
    return time_point(duration(ticks));
}

// sign and bytes of the extended format, most significant first: all numbers of all types have one, in their order
static std::string enc(long double v)
{
    unsigned char b[sizeof(long double)];
    memset(b, 0, sizeof b);
    memcpy(b, &v, 10);
    std::string s = std::string("{\"neg\":") + (v < 0 ? "true" : "false") + ",\"mag\":[";
    for (int k = 9; k >= 0; --k)
        s += std::to_string(k == 9 ? b[k] & 127 : b[k]) + (k ? "," : "]}");
    return s;
}
template <typename T>
static T value(const std::string& s)
{
    return static_cast<T>(s[0] == '-' ? static_cast<T>(std::strtoll(s.c_str(), nullptr, 10)) : static_cast<T>(std::strtoull(s.c_str(), nullptr, 10)));
}
template <typename T>
static bool fits(const std::string& s)
{
    const long double v = std::strtold(s.c_str(), nullptr);
    return v >= static_cast<long double>(std::numeric_limits<T>::min()) && v <= static_cast<long double>(std::numeric_limits<T>::max());
}
template <typename T, typename U>
static void cmp(const std::string& x, const std::vector<std::string>& all)
{
    if (!fits<T>(x))
        return;
    const T t = value<T>(x);
    std::string ys = "[", res = "[";
    for (const std::string& y : all)
    {
        if (!fits<U>(y))
            continue;
        const U u = value<U>(y);
        ys += (ys.size() > 1 ? "," : "") + enc(u);
        res += res.size() > 1 ? ",[" : "[";
        const bool r[] = {cmp_eq(t, u), cmp_ne(t, u), cmp_less(t, u), cmp_greater(t, u), cmp_le(t, u), cmp_ge(t, u)};
        for (int k = 0; k < 6; ++k)
            res += std::string(k ? "," : "") + (r[k] ? "1" : "0");
        res += "]";
    }
    Ev("cmp").raw("x", enc(t)).raw("ys", ys + "]").raw("res", res + "]").emit();
}
template <typename T>
static void cmp1(int u, const std::string& x, const std::vector<std::string>& all)
{
    switch (u)
    {
        case 0: cmp<T, signed char>(x, all); break;
        case 1: cmp<T, unsigned char>(x, all); break;
        case 2: cmp<T, Int16>(x, all); break;
        case 3: cmp<T, UInt16>(x, all); break;
        case 4: cmp<T, Int32>(x, all); break;
        case 5: cmp<T, UInt32>(x, all); break;
        case 6: cmp<T, Int64>(x, all); break;
        case 7: cmp<T, UInt64>(x, all); break;
        case 8: cmp<T, long long>(x, all); break;
        case 9: cmp<T, unsigned long long>(x, all); break;
        case 10: cmp<T, char>(x, all); break;
        default: cmp<T, char32_t>(x, all); break;
    }
}
// the inner ends of the quarters of a wide range, if many values of it were asked for
template <typename T>
static std::string quarters(long n, T lo, T hi)
{
    const long double a = lo, b = hi, wide = std::numeric_limits<T>::is_integer ? 1000 : 1e-3L * std::max(std::fabs(a), std::fabs(b));
    if (n < 200 || !(b / 4 - a / 4 > wide))
        return "[]";
    std::string r = "[";
    for (int k = 1; k < 4; ++k)
        r += (k > 1 ? "," : "") + enc(a / 4 * (4 - k) + b / 4 * k);
    return r + "]";
}
template <typename T>
static void random(const Op& op)
{
    // random type seed n lo hi [count]
    const bool whole = std::numeric_limits<T>::is_integer;
    const T lo = whole ? value<T>(op.s(3)) : static_cast<T>(std::strtold(op.s(3).c_str(), nullptr));
    const T hi = whole ? value<T>(op.s(4)) : static_cast<T>(std::strtold(op.s(4).c_str(), nullptr));
    std::string vals = "[";
    for (long k = 0; k < op.n(2); ++k)
    {
        const T v = Random<T>(lo, hi);
        vals += (k ? "," : "") + enc(v);
    }
    Ev("random").raw("lo", enc(lo)).raw("hi", enc(hi)).i("count", op.n(5)).raw("vals", vals + "]").raw("cuts", op.n(5) ? "[]" : quarters(op.n(2), lo, hi)).emit();
}
template <typename T>
static void defaults(const Op& op)
{
    std::string vals = "[";
    for (long k = 0; k < op.n(2); ++k)
        vals += (k ? "," : "") + enc(Random<T>());
    Ev("random").raw("lo", enc(std::numeric_limits<T>::min())).raw("hi", enc(std::numeric_limits<T>::max())).i("count", 0).raw("vals", vals + "]").raw("cuts", quarters(op.n(2), std::numeric_limits<T>::min(), std::numeric_limits<T>::max())).emit();
}
template <typename T>
static void size()
{
    const size_t real = sizeof(T);
    Ev("size").i("size", real).i("bytes", SizeOf<T>(MemoryFormat::Byte)).i("bits", SizeOf<T>(MemoryFormat::Bit)).emit();
    Ev("size").i("size", real).i("bytes", SizeOf<T>()).i("bits", SizeOf<T>(MemoryFormat::Bit)).emit();
}
template <typename T>
static void sizeOf(const T& v)
{
    Ev("size").i("size", sizeof v).i("bytes", SizeOf(v)).i("bits", SizeOf(v, MemoryFormat::Bit)).emit();
    Ev("size").i("size", sizeof v).i("bytes", SizeOf(v, MemoryFormat::Byte)).i("bits", SizeOf(v, MemoryFormat::Bit)).emit();
}
template <typename T>
static void limit(bool isSigned, int bits)
{
    const unsigned __int128 one = 1;
    const __int128 least = isSigned ? -static_cast<__int128>(one << (bits - 1)) : 0;
    const __int128 most = static_cast<__int128>((one << (isSigned ? bits - 1 : bits)) - 1);
    const auto r = ValueRange<T>();
    Ev("limit").raw("least", enc(least)).raw("most", enc(most)).raw("min", enc(MinValue<T>())).raw("max", enc(MaxValue<T>()))
        .raw("range", "[" + enc(r.first) + "," + enc(r.second) + "]").emit();
}
template <typename T>
static void limitReal(T least, T most)
{
    const auto r = ValueRange<T>();
    Ev("limit").raw("least", enc(least)).raw("most", enc(most)).raw("min", enc(MinValue<T>())).raw("max", enc(MaxValue<T>()))
        .raw("range", "[" + enc(r.first) + "," + enc(r.second) + "]").emit();
}
static std::string show(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        r += (r.empty() ? "" : ",") + std::to_string(c);
    return "[" + r + "]";
}
static std::string show(const String& s) { return show(s.str()); }
static std::string show(int v) { return show(std::to_string(v)); }
static std::string show(const std::vector<std::string>& v)
{
    std::string all;
    for (const std::string& s : v)
        all += s + "\x01";
    return show(all);
}
template <typename M>
static std::string items(const M& m)
{
    std::string r = "[";
    for (const auto& e : m)
        r += std::string(r.size() > 1 ? ",[" : "[") + show(e.first) + "," + show(e.second) + "]";
    return r + "]";
}
template <typename V>
static std::string listed(const V& v)
{
    std::string r = "[";
    for (const auto& x : v)
        r += std::string(r.size() > 1 ? "," : "") + show(x);
    return r + "]";
}
template <typename M>
static void mapped(M m)
{
    const std::string want = items(m);
    Ev("map").raw("items", want).raw("keys", listed(GetMapKeys(m))).raw("vals", listed(GetMapValues(m))).raw("after", items(m)).emit();
    const M& c = m;
    Ev("map").raw("items", want).raw("keys", listed(GetMapKeys(c))).raw("vals", listed(GetMapValues(c))).raw("after", items(m)).emit();
    Ev("map").raw("items", want).raw("keys", listed(GetMapKeys(M(m)))).raw("vals", listed(GetMapValues(M(m)))).raw("after", items(m)).emit();
}
struct Big
{
    char a[37];
};
struct Nothing
{
};
static void run(const std::vector<Op>& ops)
{
    for (const Op& op : ops)
    {
        if (op.name == "cmp")
        {
            // cmp t u x y...
            const std::vector<std::string> ys(op.a.begin() + 3, op.a.end());
            const int u = op.n(1);
            const std::string x = op.s(2);
            switch (op.n(0))
            {
                case 0: cmp1<signed char>(u, x, ys); break;
                case 1: cmp1<unsigned char>(u, x, ys); break;
                case 2: cmp1<Int16>(u, x, ys); break;
                case 3: cmp1<UInt16>(u, x, ys); break;
                case 4: cmp1<Int32>(u, x, ys); break;
                case 5: cmp1<UInt32>(u, x, ys); break;
                case 6: cmp1<Int64>(u, x, ys); break;
                case 7: cmp1<UInt64>(u, x, ys); break;
                case 8: cmp1<long long>(u, x, ys); break;
                case 9: cmp1<unsigned long long>(u, x, ys); break;
                case 10: cmp1<char>(u, x, ys); break;
                default: cmp1<char32_t>(u, x, ys); break;
            }
        }
        else if (op.name == "random" || op.name == "defaults")
        {
            ticks = op.n(1);
            const std::string t = op.s(0);
            const bool d = op.name == "defaults";
            if (t == "i16") d ? defaults<Int16>(op) : random<Int16>(op);
            if (t == "u16") d ? defaults<UInt16>(op) : random<UInt16>(op);
            if (t == "i32") d ? defaults<Int32>(op) : random<Int32>(op);
            if (t == "u32") d ? defaults<UInt32>(op) : random<UInt32>(op);
            if (t == "i64") d ? defaults<Int64>(op) : random<Int64>(op);
            if (t == "u64") d ? defaults<UInt64>(op) : random<UInt64>(op);
            if (t == "f") d ? defaults<Float>(op) : random<Float>(op);
            if (t == "d") d ? defaults<Double>(op) : random<Double>(op);
            if (t == "ld") d ? defaults<Decimal>(op) : random<Decimal>(op);
        }
        else if (op.name == "bool")
        {
            // bool seed n p; p = default: no argument
            ticks = op.n(0);
            const bool plain = op.s(2) == "default";
            const double p = plain ? 0.5 : std::strtod(op.s(2).c_str(), nullptr);
            long refused = 0, trues = 0;
            const long n = op.n(1);
            for (long k = 0; k < n; ++k)
                try
                {
                    trues += plain ? RandomBoolean() : RandomBoolean(p);
                }
                catch (const std::exception&)
                {
                    ++refused;
                }
            Ev("bool").raw("p", enc(std::isnan(p) ? 0 : p)).raw("one", enc(1)).b("nan", std::isnan(p)).i("n", n).i("refused", refused).i("trues", trues).b("both", p >= 0.2 && p <= 0.8 && n >= 200).emit();
        }
        else if (op.name == "size")
        {
            size<char>();
            size<Int16>();
            size<int>();
            size<Int64>();
            size<Double>();
            size<Decimal>();
            size<void*>();
            size<Big>();
            size<Nothing>();
            size<String>();
            size<int[7]>();
            size<char[1]>();
            size<char&>();
            sizeOf('a');
            sizeOf(1);
            sizeOf(UInt64(1));
            sizeOf(Big());
            sizeOf("text");
            sizeOf(String("a long text that is not kept inside of the object"));
            sizeOf(std::vector<int>(100));
            int many[12] = {};
            sizeOf(many);
            limit<signed char>(true, 8);
            limit<unsigned char>(false, 8);
            limit<Int16>(true, 16);
            limit<UInt16>(false, 16);
            limit<Int32>(true, 32);
            limit<UInt32>(false, 32);
            limit<Int64>(true, 64);
            limit<UInt64>(false, 64);
            limitReal<Float>(FLT_MIN, FLT_MAX);
            limitReal<Double>(DBL_MIN, DBL_MAX);
            limitReal<Decimal>(LDBL_MIN, LDBL_MAX);
        }
        else if (op.name == "map")
        {
            // map kind key value key value ...
            std::vector<std::pair<std::string, std::string>> v;
            for (size_t k = 1; k + 1 < op.a.size(); k += 2)
                v.emplace_back(bytes(op.s(k)), bytes(op.s(k + 1)));
            switch (op.n(0))
            {
                case 0: { std::map<String, String> m; for (auto& e : v) m[String(e.first.c_str())] = String(e.second.c_str()); mapped(m); break; }
                case 1: { std::unordered_map<std::string, int> m; for (auto& e : v) m[e.first] = e.second.size(); mapped(m); break; }
                case 2: { std::multimap<int, std::string> m; for (auto& e : v) m.emplace(static_cast<int>(e.first.size()), e.second); mapped(m); break; }
                case 3: { std::map<int, std::vector<std::string>, std::greater<int>> m; for (auto& e : v) m[e.first.size()].push_back(e.second); mapped(m); break; }
                case 4: { std::unordered_multimap<int, String> m; for (auto& e : v) m.emplace(static_cast<int>(e.first.size() % 3), String(e.second.c_str())); mapped(m); break; }
                default: { std::map<std::string, int> m; for (auto& e : v) m[e.first] = e.second.size(); mapped(m); break; }
            }
        }
    }
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, run);
}
