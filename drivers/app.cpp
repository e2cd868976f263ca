// Histories of initialisations of the application object, from two translation units; each in its own process.
#include "driver.h"
#include <memory>
#include <sys/wait.h>
#include "Caitlyn/Caitlyn"
using namespace Caitlyn;
using namespace drv;

const Application* otherInit();
const Application* otherInitArgs(int n, const char** v);
std::vector<std::string> otherArgs(const Application* a);

static std::string list(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (const std::string& x : v)
    {
        r += r.size() > 1 ? ",[" : "[";
        std::string t;
        for (unsigned char ch : x)
            t += (t.empty() ? "" : ",") + std::to_string(ch);
        r += t + "]";
    }
    return r + "]";
}
static void child(const std::vector<Op>& ops)
{
    const Application* app = nullptr;
    bool same = true;
    std::vector<std::unique_ptr<char[]>> cells;
    std::vector<const char*> argv;
    auto cell = [](const std::string& x, size_t room) {
        room = std::max(room, x.size());
        std::unique_ptr<char[]> p(new char[room + 1]);
        memset(p.get(), 0, room + 1);
        memcpy(p.get(), x.data(), x.size());
        return p;
    };
    for (const Op& op : ops)
    {
        // name.tu n [texts]
        const std::string name = op.name.substr(0, op.name.find('.'));
        const bool other = op.name.back() == '1';
        const long n = op.n(0);
        std::vector<std::string> x;
        for (size_t k = 1; k < op.a.size(); ++k)
            x.push_back(bytes(op.s(k)));
        if ((name == "initArgs" && n > static_cast<long>(cells.size())) || (name == "poke" && (n < 1 || n > static_cast<long>(cells.size()))))
        {
            Ev("skip").emit();
            continue;
        }
        Ev ev(name);
        const Application* got = nullptr;
        bool ex = false, st = false;
        try
        {
            if (name == "init")
                got = other ? otherInit() : Application::Initialise();
            else if (name == "initArgs")
            {
                ev.i("n", n);
                const char** v = argv.data();
                int count = static_cast<int>(n);
                got = other ? otherInitArgs(count, v) : Application::Initialize(count, v);
                count = 0;
            }
            else if (name == "store")
            {
                ev.raw("x", list(x));
                for (auto& p : cells) // what the object still points to would be seen to change
                    for (char* q = p.get(); *q; ++q)
                        *q = '!';
                cells.clear();
                argv.clear();
                for (const std::string& t : x)
                {
                    cells.push_back(cell(t, 300));
                    argv.push_back(cells.back().get());
                }
                argv.push_back(nullptr);
            }
            else if (name == "poke")
            {
                const std::string t = x.at(0).substr(0, 300);
                ev.i("k", n).bytes("x", t);
                if (other) // in place, or by another text
                {
                    memset(cells[n - 1].get(), 0, 301);
                    memcpy(cells[n - 1].get(), t.data(), t.size());
                }
                else
                {
                    cells[n - 1] = cell(t, 300);
                    argv[n - 1] = cells[n - 1].get();
                }
            }
        }
        catch (const std::exception&)
        {
            ex = st = true;
        }
        catch (...)
        {
            ex = true;
        }
        if (name.compare(0, 4, "init") == 0 && !ex)
        {
            same = same && got && (!app || app == got);
            app = got;
        }
        std::vector<std::string> args;
        if (app)
        {
            for (const char* a : app->GetArgs())
                args.push_back(a);
            same = same && otherArgs(app) == args;
            same = same && app->GetSystemName() && app->GetCompilerInfo() && app->GetCaitlynInfo();
        }
        ev.b("ex", ex).b("std", st).b("have", app != nullptr).b("same", same).raw("args", list(args)).emit();
    }
}
static void run(const std::vector<Op>& ops)
{
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0)
    {
        alarm(15);
        child(ops);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        _exit(99);
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, run);
}
