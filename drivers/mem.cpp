// Histories of SharedPtr / WeakPtr (mode shared) and UniquePtr / Ptr (mode unique) over objects that hold pointers themselves.
#define DRV_COUNT_ALLOC
#include "driver.h"
#include <memory>
#include <utility>
#include "Caitlyn/__Core/Memory.h"
using namespace Caitlyn;
using namespace drv;

enum { Roots = 3, Objs = 10, Places = Roots + Objs };

static DRV_TL int died[64];
static DRV_TL int ndied;
static DRV_TL bool late;
static void note(int id)
{
    if (ndied < 64)
        died[ndied++] = id;
}
static std::string list(const std::vector<long>& v)
{
    std::string r = "[";
    for (long x : v)
        r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}
static std::string deaths() { return list(std::vector<long>(died, died + ndied)); }

namespace sh
{
struct Node;
static DRV_TL Node* table[Objs + 1];
static DRV_TL SharedPtr<Node>* root;
static DRV_TL WeakPtr<Node>* wroot;
struct Node
{
    int id;
    long magic = 0x5AFE;
    SharedPtr<Node> sh;
    WeakPtr<Node> wk;
    explicit Node(int k) : id(k) { table[k] = this; }
    ~Node()
    {
        note(id);
        if (magic != 0x5AFE)
            late = true;
        magic = 0;
        table[id] = nullptr;
        for (int k = 0; k < Roots; ++k)
            if (wroot[k].lock().Get() == this)
                late = true;
    }
};
static bool exists(long l) { return l <= Roots || table[l - Roots]; }
static SharedPtr<Node>& S(long l) { return l <= Roots ? root[l - 1] : table[l - Roots]->sh; }
static WeakPtr<Node>& W(long l) { return l <= Roots ? wroot[l - 1] : table[l - Roots]->wk; }
static long idof(const SharedPtr<Node>& p) { return p.Get() ? p.Get()->id : 0; }
static void pass(SharedPtr<Node> p) { SharedPtr<Node> q = p; }

static void run(const std::vector<Op>& ops)
{
    for (auto& t : table)
        t = nullptr;
    const long base = live_blocks;
    {
        SharedPtr<Node> r[Roots];
        WeakPtr<Node> w[Roots];
        root = r;
        wroot = w;
        int born = 0;
        for (const Op& op : ops)
        {
            const std::string name = op.name.substr(0, op.name.find('.'));
            const int how = op.name.size() > name.size() ? std::atoi(op.name.c_str() + name.size() + 1) : 0;
            const long d = op.n(0), s = op.a.size() > 1 ? op.n(1) : d;
            ndied = 0;
            late = false;
            if (name == "end")
            {
                for (int k = 0; k < Roots; ++k)
                    if ((how + k) % 2)
                        r[k].Reset(), w[k] = WeakPtr<Node>();
                    else
                        w[k] = WeakPtr<Node>(), r[k] = SharedPtr<Node>();
                for (int o = 1; o <= Objs; ++o)
                    if (table[o])
                        table[o]->wk = WeakPtr<Node>();
                for (int o = 1; o <= Objs; ++o)
                    if (table[o])
                        table[o]->sh.Reset();
                const long blocks = live_blocks - base;
                Ev("end").i("blocks", blocks).raw("died", deaths()).emit();
                break;
            }
            if (!exists(d) || !exists(s) || (name == "new" && born == Objs))
            {
                if (name != "new" || born < Objs)
                    Ev("skip").i("d", d).i("s", s).emit();
                continue;
            }
            bool ex = false, kept = false;
            long v = 0, left = -1;
            if (name == "new")
            {
                ++born;
                if (how % 3 == 0)
                    S(d) = SharedPtr<Node>(new Node(born));
                else if (how % 3 == 1)
                    S(d) = new Node(born);
                else
                    S(d).Reset(new Node(born));
            }
            else if (name == "null")
            {
                if (how % 4 == 0)
                    S(d).Reset();
                else if (how % 4 == 1)
                    S(d) = SharedPtr<Node>();
                else if (how % 4 == 2)
                    S(d) = static_cast<Node*>(nullptr);
                else
                    S(d).Reset(nullptr);
            }
            else if (name == "copy")
            {
                if (how % 3 == 0)
                    S(d) = S(s);
                else if (how % 3 == 1)
                {
                    SharedPtr<Node> t(S(s));
                    S(d) = t;
                }
                else
                    S(d) = SharedPtr<Node>(S(s));
            }
            else if (name == "move")
            {
                if (how % 2 == 0)
                    S(d) = std::move(S(s));
                else
                {
                    SharedPtr<Node> t(std::move(S(s)));
                    S(d) = std::move(t);
                }
            }
            else if (name == "swap")
                std::swap(S(d), S(s));
            else if (name == "self")
            {
                auto& p = S(d);
                if (how % 5 == 0)
                    p.Reset(p.Get());
                else if (how % 5 == 1)
                    p = static_cast<const SharedPtr<Node>&>(p);
                else if (how % 5 == 2)
                    p = std::move(p);
                else if (how % 5 == 3)
                    pass(p);
                else
                {
                    WeakPtr<Node> t(p), u(t);
                    u = t;
                    u = u;
                    pass(u.lock());
                }
            }
            else if (name == "crowd" || name == "crowdnull")
            {
                // very many further owners and watchers of the object for a while; crowdnull: they are the only ones of place d
                static const size_t sizes[] = {2, 15, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 70001};
                const size_t n = sizes[how % 12];
                std::vector<SharedPtr<Node>> owners;
                std::vector<WeakPtr<Node>> watchers;
                for (size_t k = 0; k < n; ++k)
                {
                    if (how / 12 != 1)
                        owners.push_back(S(d));
                    if (how / 12 != 2)
                        watchers.push_back(k % 2 || watchers.empty() ? WeakPtr<Node>(S(d)) : watchers.back());
                }
                SharedPtr<Node> one(S(d));
                if (name == "crowdnull")
                    S(d).Reset();
                v = idof(one);
                bool same = true;
                if (how % 2)
                {
                    owners.resize(owners.size() / 2);
                    watchers.resize(watchers.size() / 2);
                }
                for (auto& p : owners)
                    same = same && idof(p) == v;
                for (auto& p : watchers)
                    same = same && idof(p.lock()) == v && p.expired() == (v == 0);
                if (how % 3)
                    owners.clear();
                same = same && idof(one) == v;
                if (how % 3 == 1)
                    watchers.clear();
                one.Reset();
                owners.clear();
                left = watchers.empty() ? -1 : idof(watchers.front().lock());
                for (auto& p : watchers)
                    same = same && idof(p.lock()) == left && p.expired() == (left == 0);
                kept = same;
            }
            else if (name == "deref")
                ex = throws([&] { v = how % 2 ? (*S(d)).id : S(d)->id; });
            else if (name == "wderef")
                ex = throws([&] { v = how % 2 ? (*W(d)).id : W(d)->id; });
            else if (name == "watch")
            {
                if (how % 3 == 0)
                    W(d) = S(s);
                else if (how % 3 == 1)
                    W(d) = WeakPtr<Node>(S(s));
                else
                {
                    WeakPtr<Node> t(S(s)), u(std::move(t));
                    W(d) = std::move(u);
                }
            }
            else if (name == "wnull")
                W(d) = WeakPtr<Node>();
            else if (name == "wcopy")
            {
                if (how % 2)
                    W(d) = WeakPtr<Node>(W(s));
                else
                    W(d) = W(s);
            }
            else if (name == "wmove")
            {
                if (how % 2)
                {
                    WeakPtr<Node> t(std::move(W(s)));
                    W(d) = std::move(t);
                }
                else
                    W(d) = std::move(W(s));
                kept = !W(s).expired();
            }
            else if (name == "lock")
            {
                if (how % 2)
                {
                    const SharedPtr<Node> t = W(s).lock();
                    S(d) = t;
                }
                else
                    S(d) = W(s).lock();
            }
            else
                std::abort();
            Ev e(name);
            e.i("d", d).i("s", s).b("ex", ex).i("v", v).b("kept", kept).i("left", left);
            const std::string dd = deaths();
            std::vector<long> a, l;
            std::string x = "[";
            for (int k = 1; k <= Places; ++k)
            {
                const bool here = exists(k);
                a.push_back(here ? idof(S(k)) : -1);
                l.push_back(here ? idof(W(k).lock()) : 0);
                x += std::string(k > 1 ? "," : "") + (!here || W(k).expired() ? "true" : "false");
            }
            bool eqs = agree([&] {
                std::string x;
                for (int p = 0; p < Roots; ++p)
                {
                    const SharedPtr<Node> copy(r[p]);
                    const WeakPtr<Node> weak(w[p]), from(copy);
                    const SharedPtr<Node> locked = w[p].lock();
                    x += std::to_string(idof(copy)) + (w[p].expired() ? "x" : "-") + std::to_string(idof(locked)) + (from.expired() ? "x" : "-") + (copy == r[p] ? "=" : "#");
                }
                return x;
            });
            for (int p = 0; p < Roots; ++p)
            {
                eqs = eqs && (r[p] == nullptr) == (r[p].Get() == nullptr) && (r[p] != nullptr) == (r[p].Get() != nullptr);
                eqs = eqs && (w[p] == nullptr) == w[p].expired() && (w[p] != nullptr) != w[p].expired();
                for (int q = 0; q < Roots; ++q)
                {
                    eqs = eqs && (r[p] == r[q]) == (r[p].Get() == r[q].Get()) && (r[p] != r[q]) == (r[p].Get() != r[q].Get());
                    if (l[p] && l[q])
                        eqs = eqs && (w[p] == w[q]) == (l[p] == l[q]) && (w[p] != w[q]) == (l[p] != l[q]);
                }
            }
            // (nothing may die from looking)
            e.raw("died", ndied > 0 ? deaths() : dd).b("late", late).seq("sh", a).seq("lock", l).raw("expired", x + "]").b("eqs", eqs).emit();
        }
    }
}
} // namespace sh

namespace un
{
struct Node;
static DRV_TL Node* table[Objs + 1];
static DRV_TL Node* addr[Objs + 1];
struct Node
{
    int id;
    UniquePtr<Node> up;
    Ptr<Node> me;
    explicit Node(int k) : id(k) { table[k] = addr[k] = this; }
    ~Node()
    {
        note(id);
        table[id] = nullptr;
    }
};
static DRV_TL UniquePtr<Node>* root;
static bool exists(long l) { return l <= Roots || table[l - Roots]; }
static UniquePtr<Node>& U(long l) { return l <= Roots ? root[l - 1] : table[l - Roots]->up; }
static long idof(const Node* p)
{
    for (int o = Objs; o >= 1; --o)
        if (p && addr[o] == p)
            return o;
    return p ? -2 : 0;
}

static void run(const std::vector<Op>& ops)
{
    for (int o = 0; o <= Objs; ++o)
        table[o] = addr[o] = nullptr;
    const long base = live_blocks;
    UniquePtr<Node> r[Roots];
    Ptr<Node>* pt[Roots + 1] = {};
    bool loose[Objs + 1] = {};
    root = r;
    int born = 0;
    for (int k = 1; k <= Roots; ++k)
        pt[k] = new Ptr<Node>();
    for (const Op& op : ops)
    {
        const std::string name = op.name.substr(0, op.name.find('.'));
        const int how = op.name.size() > name.size() ? std::atoi(op.name.c_str() + name.size() + 1) : 0;
        const long d = op.n(0), x = op.a.size() > 1 ? op.n(1) : 0;   // x: source place or object
        ndied = 0;
        if (name == "end")
        {
            for (int k = 0; k < Roots; ++k)
                if (how % 2)
                    r[k].Reset();
                else
                    r[k] = UniquePtr<Node>();
            for (int o = 1; o <= Objs; ++o)
                if (table[o] && loose[o])
                    delete table[o];
            for (int o = 1; o <= Objs; ++o)
                if (table[o])
                    table[o]->up.Reset();
            for (int k = 1; k <= Roots; ++k)
                delete pt[k];
            const long blocks = live_blocks - base;
            Ev("end").i("blocks", blocks).raw("died", deaths()).emit();
            break;
        }
        auto isLoose = [&](long o) { return o >= 1 && o <= Objs && table[o] && loose[o]; };
        const bool placed = name == "new" || name == "null" || name == "self" || name == "release" || name == "deref" || name == "move" || name == "swap" || name == "adopt";
        const bool fresh = name == "new" || name == "pnew" || name == "presetnew";
        if (fresh && born == Objs)
            continue;
        bool ok = true;
        const long cur = placed ? 0 : idof(pt[d]->Get());
        if (placed)
            ok = exists(d);
        if (name == "move" || name == "swap")
            ok = ok && exists(x);
        else if (name == "adopt")
            ok = ok && isLoose(x);
        else if (name == "pset")
            ok = x == 0 || table[x];
        else if (name == "pself")
            ok = isLoose(x);
        else if (name == "preset")
            ok = cur == x || ((cur == 0 || isLoose(cur)) && (x == 0 || isLoose(x)));
        else if (name == "presetnew" || name == "pdestroy")
            ok = cur == 0 || isLoose(cur);
        else if (name == "pderef")
            ok = cur == 0 || table[cur];
        if (!ok)
        {
            Ev q(name);
            q.i("d", d).i("s", x).i("o", x);
            Ev("skip").raw("e", q.s + "}").emit();
            continue;
        }
        bool ex = false;
        long v = 0;
        if (name == "new")
        {
            ++born;
            if (how % 3 == 0)
                U(d) = UniquePtr<Node>(new Node(born));
            else if (how % 3 == 1)
                U(d) = new Node(born);
            else
                U(d).Reset(new Node(born));
        }
        else if (name == "null")
        {
            if (how % 4 == 0)
                U(d).Reset();
            else if (how % 4 == 1)
                U(d) = UniquePtr<Node>();
            else if (how % 4 == 2)
                U(d) = static_cast<Node*>(nullptr);
            else
                U(d).Reset(nullptr);
        }
        else if (name == "move")
        {
            if (how % 2)
            {
                UniquePtr<Node> t(std::move(U(x)));
                U(d) = std::move(t);
            }
            else
                U(d) = std::move(U(x));
        }
        else if (name == "swap")
            std::swap(U(d), U(x));
        else if (name == "self")
        {
            auto& p = U(d);
            if (how % 3 == 0)
                p.Reset(p.Get());
            else if (how % 3 == 1)
                p = std::move(p);
            else
                p = p.Get();
        }
        else if (name == "release")
        {
            v = idof(U(d).Release());
            if (v > 0)
                loose[v] = true;
        }
        else if (name == "adopt")
        {
            loose[x] = false;
            if (how % 3 == 0)
                U(d).Reset(table[x]);
            else if (how % 3 == 1)
                U(d) = table[x];
            else
                U(d) = UniquePtr<Node>(table[x]);
        }
        else if (name == "deref")
            ex = throws([&] { v = how % 2 ? (*U(d)).id : U(d)->id; });
        else if (name == "pset")
        {
            if (how % 2)
                *pt[d] = Ptr<Node>(x ? table[x] : nullptr);
            else
                *pt[d] = x ? table[x] : static_cast<Node*>(nullptr);
        }
        else if (name == "pcopy")
        {
            if (how % 2)
            {
                Ptr<Node> t(*pt[x]);
                *pt[d] = t;
            }
            else
                *pt[d] = *pt[x];
        }
        else if (name == "pnew")
        {
            *pt[d] = new Node(++born);
            loose[born] = true;
        }
        else if (name == "preset")
        {
            if (x)
                pt[d]->Reset(addr[x]);
            else
                pt[d]->Reset();
        }
        else if (name == "presetnew")
        {
            loose[++born] = true;
            pt[d]->Reset(new Node(born));
        }
        else if (name == "pdestroy")
            pt[d]->Destroy();
        else if (name == "pself")
        {
            table[x]->me = table[x];
            if (how % 2)
                table[x]->me.Reset();
            else
                table[x]->me.Destroy();
        }
        else if (name == "pdrop")
        {
            delete pt[d];
            pt[d] = new Ptr<Node>();
        }
        else if (name == "pderef")
            ex = throws([&] { v = how % 2 ? (**pt[d]).id : (*pt[d])->id; });
        else
            std::abort();
        Ev e(name);
        e.i("d", d).i("s", x).i("o", x).b("ex", ex).i("v", v);
        std::vector<long> a, b;
        for (int k = 1; k <= Places; ++k)
            a.push_back(exists(k) ? idof(U(k).Get()) : -1);
        for (int k = 1; k <= Roots; ++k)
            b.push_back(idof(pt[k]->Get()));
        bool eqs = true;
        for (int p = 0; p < Roots; ++p)
        {
            eqs = eqs && (r[p] == nullptr) == (r[p].Get() == nullptr) && (r[p] != nullptr) == (r[p].Get() != nullptr);
            eqs = eqs && (*pt[p + 1] == nullptr) == (b[p] == 0) && (*pt[p + 1] != nullptr) == (b[p] != 0);
            for (int q = 0; q < Roots; ++q)
            {
                eqs = eqs && (r[p] == r[q]) == (r[p].Get() == r[q].Get()) && (r[p] != r[q]) == (r[p].Get() != r[q].Get());
                eqs = eqs && (*pt[p + 1] == *pt[q + 1]) == (b[p] == b[q]) && (*pt[p + 1] != *pt[q + 1]) == (b[p] != b[q]);
            }
        }
        e.raw("died", deaths()).seq("up", a).seq("pt", b).b("eqs", eqs).emit();
    }
}
} // namespace un

int main(int argc, char** argv) { return main_loop(argc, argv, std::string(argv[5]) == "shared" ? sh::run : un::run); }
