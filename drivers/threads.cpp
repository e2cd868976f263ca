// Programs of several threads over shared and weak pointers; compiled with -fsanitize=thread, scheduled by explore.cpp.
#include "driver.h"
#include "explore.h"
#include <sys/wait.h>
#include "Caitlyn/Memory"
using namespace Caitlyn;
using namespace drv;

struct Object
{
    long slot[3];
    long id;
    explicit Object(long i) : slot{0, 0, 0}, id(i) {}
    ~Object()
    {
        vt_destroy(id);
        long sum = 0;
        for (volatile long& s : slot)
            sum += s;
        id = -1 - sum;
    }
};
struct Vars
{
    SharedPtr<Object> a, b;
    WeakPtr<Object> w, v;
};
// not observed: variables of one thread each, and where the objects are
struct World
{
    Vars var[4];
    Object* obj[8];
    std::vector<std::vector<int>> init;     // per thread: objects of a b w v
    std::vector<std::vector<std::string>> ops;
    std::vector<int> keep;                  // objects the main thread keeps
    SharedPtr<Object> kept[3];
    int created;
};
static World* hidden;
__attribute__((no_sanitize("thread"))) static World* world() { return hidden; }
#define W world()

__attribute__((no_sanitize("thread"))) static long which(const SharedPtr<Object>& p)
{
    const Object* o = p.Get();
    if (!o)
        return 0;
    for (int k = W->created; k > 0; --k)
        if (W->obj[k] == o)
            return k;
    return -1;
}
static void use(const SharedPtr<Object>& p, int t)
{
    if (p != nullptr)
        p->slot[t - 1] = p->slot[t - 1] + 1;
}
static void step(Vars& x, const std::string& op, int t)
{
    long r = 0;
    vt_call(op.c_str());
    if (op == "copy")
    {
        x.b = x.a;
        r = which(x.b);
    }
    else if (op == "hold")
    {
        SharedPtr<Object> h(x.a);
        r = which(h);
    }
    else if (op == "move")
    {
        x.b = std::move(x.a);
        r = which(x.b);
    }
    else if (op == "take")
    {
        SharedPtr<Object> h(std::move(x.a));
        use(h, t);
        r = which(h);
    }
    else if (op == "dropa")
        x.a.Reset();
    else if (op == "dropb")
        x.b = SharedPtr<Object>();
    else if (op == "nulla")
        x.a = static_cast<Object*>(nullptr);
    else if (op == "renew")
    {
        Object* o = new Object(W->created + 1);
        W->obj[++W->created] = o;
        x.a = o;
        r = which(x.a);
    }
    else if (op == "lock")
    {
        x.b = x.w.lock();
        r = which(x.b);
    }
    else if (op == "locka")
    {
        x.a = x.w.lock();
        r = which(x.a);
    }
    else if (op == "lockuse")
    {
        SharedPtr<Object> h = x.w.lock();
        use(h, t);
        r = which(h);
    }
    else if (op == "expired")
        r = x.w.expired() ? 1 : 0;
    else if (op == "isnull")
        r = x.w == nullptr ? 1 : 0;
    else if (op == "watch")
        x.w = x.a;
    else if (op == "watchv")
    {
        WeakPtr<Object> u(x.a);
        x.v = std::move(u);
    }
    else if (op == "wcopy")
        x.v = x.w;
    else if (op == "wmove")
        x.v = std::move(x.w);
    else if (op == "unwatch")
        x.w = WeakPtr<Object>();
    else if (op == "use")
        use(x.a, t);
    else if (op == "enda")
        x.a.~SharedPtr();
    else if (op == "endb")
        x.b.~SharedPtr();
    else if (op == "endw")
        x.w.~WeakPtr();
    else if (op == "endv")
        x.v.~WeakPtr();
    vt_ret(r);
}
struct Threads : vt::Program
{
    int threads() const override { return static_cast<int>(W->init.size()); }
    void setup() override
    {
        W->created = 0;
        int n = 0;
        for (auto& i : W->init)
            for (int o : i)
                n = o > n ? o : n;
        for (int o : W->keep)
            n = o > n ? o : n;
        SharedPtr<Object> first[3];
        for (int o = 1; o <= n; ++o)
        {
            W->obj[o] = new Object(o);
            W->created = o;
            first[o] = SharedPtr<Object>(W->obj[o]);
        }
        for (size_t t = 0; t < W->init.size(); ++t)
        {
            Vars& x = *new (&W->var[t + 1]) Vars();
            if (W->init[t][0])
                x.a = first[W->init[t][0]];
            if (W->init[t][1])
                x.b = first[W->init[t][1]];
            if (W->init[t][2])
                x.w = first[W->init[t][2]];
            if (W->init[t][3])
                x.v = first[W->init[t][3]];
        }
        for (int k : W->keep)
            W->kept[k] = first[k];
    }
    void thread(int t) override
    {
        Vars& x = W->var[t];
        for (const std::string& op : W->ops[t - 1])
            step(x, op, t);
    }
    void teardown() override
    {
        for (int k : W->keep)
        {
            vt_call("drop");
            W->kept[k] = SharedPtr<Object>();
            vt_ret(0);
        }
    }
    const char* header() override
    {
        static std::string s;
        s = "\"vars\":[";
        for (size_t t = 0; t < W->init.size(); ++t)
        {
            s += t ? ",[" : "[";
            for (int k = 0; k < 4; ++k)
                s += (k ? "," : "") + std::to_string(W->init[t][k]);
            s += "]";
        }
        s += "],\"keep\":[";
        for (size_t k = 0; k < W->keep.size(); ++k)
            s += (k ? "," : "") + std::to_string(W->keep[k]);
        s += "]";
        return s.c_str();
    }
};

int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](const std::vector<Op>& h) {
        fflush(out());
        const pid_t pid = fork();
        if (pid == 0)
        {
            hidden = new World();
            vt::Limits l;
            for (const Op& op : h)
            {
                if (op.name == "thread")
                {
                    std::vector<int> i;
                    std::vector<std::string> ops;
                    for (size_t k = 0; k < op.a.size(); ++k)
                        if (k < 4)
                            i.push_back(static_cast<int>(op.n(k)));
                        else
                            ops.push_back(op.s(k));
                    for (const char* e : {"endb", "enda", "endv", "endw"})
                        ops.push_back(e);
                    W->init.push_back(i);
                    W->ops.push_back(ops);
                }
                else if (op.name == "keep")
                    W->keep.push_back(static_cast<int>(op.n(0)));
                else if (op.name == "limits")
                {
                    l.executions = op.n(0);
                    l.keep = op.n(1);
                    l.preemptions = static_cast<int>(op.n(2));
                }
            }
            Threads p;
            vt::explore(p, l);
            fflush(out());
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            Ev("crash").i("status", st).emit();
    });
}
