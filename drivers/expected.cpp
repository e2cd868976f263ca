// Histories of Expected over several payload types.  Payloads Tr register every instance and may refuse to be copied.
#define DRV_COUNT_ALLOC
#include "driver.h"
#include <set>
#include <utility>
#include "Caitlyn/__Core/Error.h"
using namespace Caitlyn;
using namespace drv;

enum { Slots = 3 };
struct CopyFailure {};
struct CallbackFailure {};

static DRV_TL std::set<const void*>* alive;
static std::set<const void*> statics;   // defaults of the library that live for ever
static bool known(const void* p) { return alive->count(p) || statics.count(p); }
static DRV_TL long bad;
static DRV_TL long armed;   // the copy that fails (0: none)
static void born(const void* p)
{
    if (!alive->insert(p).second)
        ++bad;
}
static void dies(const void* p)
{
    if (!alive->erase(p))
        ++bad;
}
static DRV_TL bool moves_fail;   // moves of Tr<5> count as copies
static void copying()
{
    if (armed > 0 && --armed == 0)
        throw CopyFailure{};
}
template <int K>
struct Tr
{
    long* v;
    Tr() : v(new long(0)) { born(this); }
    explicit Tr(long x) : v(new long(x)) { born(this); }
    Tr(const Tr& o) : v(nullptr)
    {
        copying();
        if (!known(&o))
            ++bad;
        v = o.v ? new long(*o.v) : nullptr;
        born(this);
    }
    Tr(Tr&& o) noexcept(K < 5) : v(nullptr)
    {
        if (K >= 5 && moves_fail)
            copying();
        v = o.v;
        if (!known(&o))
            ++bad;
        o.v = nullptr;
        born(this);
    }
    Tr& operator=(const Tr& o)
    {
        copying();
        if (!known(this) || !known(&o))
            ++bad;
        if (this != &o)
        {
            long* n = o.v ? new long(*o.v) : nullptr;
            delete v;
            v = n;
        }
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept
    {
        if (!known(this) || !known(&o))
            ++bad;
        std::swap(v, o.v);
        return *this;
    }
    ~Tr()
    {
        dies(this);
        delete v;
        v = nullptr;
    }
};
template <int K>
static long get(const Tr<K>& t)
{
    if (!known(&t))
    {
        ++bad;
        return -99;
    }
    return t.v ? *t.v : -1;
}
static long get(int x) { return x; }
static long get(const String& s) { return s.IsEmpty() ? 0 : std::atol(s.str().c_str()); }
template <typename T> struct Make;
template <int K> struct Make<Tr<K>> { static Tr<K> of(long x) { return Tr<K>(x); } enum { tracked = 1 }; };
template <> struct Make<int> { static int of(long x) { return static_cast<int>(x); } enum { tracked = 0 }; };
template <> struct Make<String> { static String of(long x) { return x ? String(std::to_string(x).c_str()) : String(); } enum { tracked = 0 }; };

static DRV_TL std::string calls;
static void call(const std::vector<long>& a)
{
    calls += calls.empty() ? "[" : ",[";
    for (size_t k = 0; k < a.size(); ++k)
        calls += (k ? "," : "") + std::to_string(a[k]);
    calls += "]";
}
static std::string out(long t, long x) { return "[" + std::to_string(t) + "," + std::to_string(x) + "]"; }
template <typename V, typename E>
static std::string out(const Expected<V, E>& r)
{
    const bool ok = r.HasValue();
    return "[1," + std::to_string(ok) + "," + std::to_string(ok ? get(r.Get()) : get(r.GetError())) + "]";
}
static long f1(long f, long x)
{
    if (f == 2)
        throw CallbackFailure{};
    return f == 0 ? x + 1 : f == 1 ? 2 * x : x;
}

template <typename V, typename E>
struct World
{
    using R = Expected<V, E>;
    R* slot[Slots] = {};
    R k1(long f, long x)
    {
        switch (f)
        {
            case 0: return R(Make<V>::of(x + 1));
            case 1: return R(Unexpected<E>(Make<E>::of(x + 10)));
            case 2: throw CallbackFailure{};
            case 3: return R(Make<V>::of(x));
            default: return R(Unexpected<E>(Make<E>::of(x)));
        }
    }
    std::string obs()
    {
        std::string r = "[";
        for (int k = 0; k < Slots; ++k)
        {
            R* p = slot[k];
            r += k ? ",[" : "[";
            if (p)
                r += std::to_string(p->HasValue()) + "," + std::to_string(p->HasValue() ? get(p->Get()) : get(p->GetError()));
            r += "]";
        }
        return r + "]";
    }
    Ev& fin(Ev& ev)
    {
        const std::string o = obs();
        return ev.raw("obs", o).b("tv", Make<V>::tracked).b("te", Make<E>::tracked).i("live", static_cast<long>(alive->size())).i("bad", bad);
    }
    void own(const std::string& op, int how, R*& d, R* s, long x)
    {
        if (op == "del")
        {
            delete d;
            d = nullptr;
        }
        else if (op == "cv")
        {
            const V v = (armed = -armed, Make<V>::of(x));
            armed = -armed;
            d = how % 2 ? new R(v) : new R{v};
        }
        else if (op == "cr")
            d = new R(Make<V>::of(x));
        else if (op == "ce")
        {
            const Unexpected<E> v = (armed = -armed, Unexpected<E>(Make<E>::of(x)));
            armed = -armed;
            d = how % 2 ? new R(v) : new R{v};
        }
        else if (op == "cer")
            d = new R(Unexpected<E>(Make<E>::of(x)));
        else if (op == "mk")
            d = new R(MakeCorrect<V, E>(Make<V>::of(x)));
        else if (op == "mke")
            d = new R(MakeError(Make<E>::of(x)));
        else if (op == "cc")
            d = how % 2 ? new R(*s) : new R{static_cast<const R&>(*s)};
        else if (op == "cm")
        {
            moves_fail = true;
            struct Off
            {
                ~Off() { moves_fail = false; }
            } off;
            d = new R(std::move(*s));
        }
        else if (op == "av")
        {
            const V v = (armed = -armed, Make<V>::of(x));
            armed = -armed;
            *d = v;
        }
        else if (op == "ar")
            *d = Make<V>::of(x);
        else if (op == "ae")
        {
            const Unexpected<E> v = (armed = -armed, Unexpected<E>(Make<E>::of(x)));
            armed = -armed;
            *d = v;
        }
        else if (op == "aer")
            *d = Unexpected<E>(Make<E>::of(x));
        else if (op == "ac")
            *d = static_cast<const R&>(*s);
        else if (op == "am")
            *d = std::move(*s);
    }
    std::string comb(const std::string& op, int how, const R& r, long f, long a, bool& msg)
    {
        auto one = [&](long x) { call({x}); return f1(f, x); };
        if (op == "map")
        {
            if (how % 3 == 0)
                return out(r.Map([&](const V& v) { return static_cast<int>(one(get(v))); }));
            if (how % 3 == 1)
                return out(r.Map([&](const V& v) { return Make<V>::of(one(get(v))); }));
            return out(r.Map([&](const V& v) { return Make<String>::of(one(get(v))); }));
        }
        if (op == "mapError")
        {
            if (how % 3 == 0)
                return out(r.MapError([&](const E& v) { return static_cast<int>(one(get(v))); }));
            if (how % 3 == 1)
                return out(r.MapError([&](const E& v) { return Make<E>::of(one(get(v))); }));
            return out(r.MapError([&](const E& v) { return Make<String>::of(one(get(v))); }));
        }
        auto kv = [&](const V& v) -> R { call({get(v)}); return k1(f, get(v)); };
        auto ke = [&](const E& v) -> R { call({get(v)}); return k1(f, get(v)); };
        if (op == "andThen")
            return out(r.AndThen(kv));
        if (op == "then")
            return out(r.Then(kv));
        if (op == "orElse")
            return out(r.OrElse(ke));
        if (op == "catchError")
            return out(r.CatchError(ke));
        if (op == "onError")
            return out(r.OnError([&](const E& v) { one(get(v)); }));
        if (op == "filter")
            return out(r.Filter([&](const V& v) -> bool {
                call({get(v)});
                if (f == 3)
                    throw CallbackFailure{};
                return f == 0 || (f == 2 && get(v) % 2 == 0);
            }));
        if (op == "fold")
        {
            auto g = [&](long b, const V& v) -> long {
                call({b, get(v)});
                if (f == 2)
                    throw CallbackFailure{};
                return 3 * b + get(v);
            };
            return how % 2 ? out(0, r.Fold(a, g)) : out(0, r.Fold(a + 0, g));
        }
        if (op == "inspect0")
            return out(0, r.Inspect(
                [&](const V& v) -> long { call({1, get(v)}); if (f == 2) throw CallbackFailure{}; return get(v); },
                [&](const E& v) -> long { call({0, get(v)}); if (f == 2) throw CallbackFailure{}; return -get(v) - 1; }));
        if (op == "inspect1")
            return out(0, r.Inspect(
                [&](const V& v, long b) -> long { call({1, get(v), b}); if (f == 2) throw CallbackFailure{}; return get(v) + b; },
                [&](const E& v, long b) -> long { call({0, get(v), b}); if (f == 2) throw CallbackFailure{}; return b - get(v); }, a));
        if (op == "inspect2")
            return out(0, r.Inspect(
                [&](const V& v, long b, long c) -> long { call({1, get(v), b, c}); if (f == 2) throw CallbackFailure{}; return get(v) + b; },
                [&](const E& v, long b, long c) -> long { call({0, get(v), b, c}); if (f == 2) throw CallbackFailure{}; return b - get(v); }, a, f));
        if (op == "customize")
            return out(0, r.Customize([&](const R& q) -> long {
                const long x = q.HasValue() ? get(q.Get()) : get(q.GetError());
                call({q.HasValue(), x});
                if (f == 2)
                    throw CallbackFailure{};
                return q.HasValue() + 2 * x;
            }));
        if (op == "unwrapOr")
            return out(0, get(r.UnwrapOr(Make<V>::of(a))));
        if (op == "unwrapOrDefault1")
        {
            const V v = Make<V>::of(a);
            return out(0, get(r.UnwrapOrDefault(v)));
        }
        if (op == "unwrapOrElse")
            return out(0, get(static_cast<const V&>(r.UnwrapOrElse([&](const E& v) -> V { return Make<V>::of(one(get(v))); }))));
        if (op == "get")
            return out(0, get(r.Get()));
        if (op == "getError")
            return out(0, get(r.GetError()));
        if (op == "expect")
        {
            try
            {
                return out(0, get(r.Expect(String("the message"))));
            }
            catch (const std::exception& e)
            {
                msg = std::string(e.what()) == "the message";
                throw;
            }
        }
        if (op == "expectError")
        {
            try
            {
                return how % 2 ? out(0, get(r.ExpectError("the message"))) : out(0, get(r.ExpectError(std::string("the message"))));
            }
            catch (const std::exception& e)
            {
                msg = std::string(e.what()) == "the message";
                throw;
            }
        }
        if (op == "bool")
            return out(0, r ? 1 : 0);
        if (op == "hasValue")
            return out(0, r.HasValue());
        if (op == "hasError")
            return out(0, r.HasError());
        if (op == "unwrapOrDefault0")
            return out(0, get(r.UnwrapOrDefault()));
        std::abort();
    }
    void run(const std::vector<Op>& ops)
    {
        static DRV_TL std::set<const void*> reg;
        reg.clear();
        alive = &reg;
        bad = 0;
        const long base = live_blocks;
        for (const Op& o : ops)
        {
            const std::string op = o.name.substr(0, o.name.find('.'));
            const int how = o.name.size() > op.size() ? std::atoi(o.name.c_str() + op.size() + 1) : 0;
            armed = 0;
            if (op == "end")
            {
                for (auto& p : slot)
                {
                    delete p;
                    p = nullptr;
                }
                const long live = alive->size();
                reg.clear();
                const long left = live_blocks - base;
                Ev("end").i("live", live).i("bad", bad).i("blocks", left).emit();
                return;
            }
            // name d s x f a k
            const long d = o.n(0), s = o.n(1), x = o.n(2), f = o.n(3), a = o.n(4), k = o.n(5);
            const bool building = op[0] == 'c' && (op.size() == 2 || op == "cer") || op == "mk" || op == "mke";
            const bool copying_op = op == "cc" || op == "cm" || op == "ac" || op == "am";
            const bool assign = op.size() == 2 && op[0] == 'a' || op == "aer" || op == "del";
            bool fine;
            if (building)
                fine = !slot[d - 1] && (!copying_op || slot[s - 1]);
            else if (assign)
                fine = slot[d - 1] && (!copying_op || slot[s - 1]);
            else
                fine = slot[s - 1] != nullptr;
            if (!fine)
            {
                Ev("skip").raw("e", "{\"op\":\"" + op + "\",\"d\":" + std::to_string(d) + ",\"s\":" + std::to_string(s) + ",\"x\":0}").emit();
                continue;
            }
            calls.clear();
            if (building || assign)
            {
                long threw = 0;
                armed = k;
                try
                {
                    own(op, how, slot[d - 1], slot[s - 1], x);
                }
                catch (const CopyFailure&)
                {
                    threw = 3;
                }
                catch (const std::exception&)
                {
                    threw = 2;
                }
                armed = 0;
                Ev ev(op);
                ev.i("d", d).i("s", s).i("x", x).i("k", k).i("threw", threw);
                fin(ev).emit();
            }
            else
            {
                std::string res;
                bool msg = true;
                armed = k;
                try
                {
                    res = comb(op, how, *slot[s - 1], f, a, msg);
                }
                catch (const CopyFailure&)
                {
                    res = out(2, 3);
                }
                catch (const CallbackFailure&)
                {
                    res = out(2, 1);
                }
                catch (const std::exception&)
                {
                    res = out(2, 2);
                }
                armed = 0;
                Ev ev(op);
                ev.i("s", s).i("f", f).i("a", a).i("k", k).raw("calls", "[" + calls + "]").raw("out", res).b("msg", msg);
                fin(ev).emit();
            }
        }
    }
};

struct Kind
{
    std::string name;
    void (*boot)();
    void (*run)(const std::vector<Op>&);
};
template <typename V, typename E>
static void boot()
{
    Expected<V, E> r(Make<V>::of(1));
    r.UnwrapOrDefault();
    Expected<V, E> q(Unexpected<E>(Make<E>::of(1)));
    q.UnwrapOrDefault();
}
template <typename V, typename E>
static void go(const std::vector<Op>& ops)
{
    World<V, E> w;
    w.run(ops);
}
template <typename V, typename E>
static Kind kind(const char* n)
{
    return Kind{n, &boot<V, E>, &go<V, E>};
}
int main(int argc, char** argv)
{
    static const Kind kinds[] = {kind<Tr<0>, Tr<1>>("tt"), kind<Tr<0>, Tr<0>>("same"), kind<int, Tr<1>>("it"), kind<Tr<0>, int>("ti"),
                                 kind<String, String>("ss"), kind<int, String>("is"), kind<Tr<2>, String>("ts"),
                                 kind<Tr<5>, Tr<1>>("mt"), kind<Tr<0>, Tr<5>>("tm")};
    alive = &statics;
    for (const Kind& k : kinds)
        k.boot();
    return main_loop(argc, argv, [&](const std::vector<Op>& all) {
        const std::vector<Op> ops(all.begin() + 1, all.end());
        for (const Kind& k : kinds)
            if (k.name == all.at(0).name)
                k.run(ops);
    });
}
