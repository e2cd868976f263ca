// Histories of registrations and runs of the test registry; every history in its own process (the registry is one per process).
// What a run writes to standard output is recorded as it is.
#include "driver.h"
#include <iostream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include "Caitlyn/Testing"
using namespace drv;

enum { Functions = 24 };
struct Outcome
{
    char kind = 'p';
    std::string msg;
};
static Outcome table[Functions + 1];
static int fixtures = 0; // objects of fixtures that exist

struct Own : std::exception
{
    std::string t;
    explicit Own(const std::string& t) : t(t) {}
    const char* what() const noexcept override { return t.c_str(); }
};
struct Nothing
{
};
// a base that is not the first: the handler must find the exception object in it
struct Other
{
    virtual ~Other() = default;
    long pad = 7;
};
struct Second : Other, std::runtime_error
{
    explicit Second(const std::string& t) : std::runtime_error(t) {}
};

static void mark(const char* what, int fn)
{
    std::cout << "@@" << what << ' ' << fn << '\n';
}
static void fail(const Outcome& o)
{
    switch (o.kind)
    {
        case 'r': throw std::runtime_error(o.msg);
        case 'l': throw std::logic_error(o.msg);
        case 'o': throw Own(o.msg);
        case '2': throw Second(o.msg);
        case 'a': { int one = 1, two = 2; ASSERT_EQ(one, two); break; }
        case 'f': FAIL(); break;
        case 'i': throw 42;
        case 's': throw "text";
        case 'n': throw Nothing();
        case 'z': throw nullptr;
        case 'x': throw new int(3);
        case 't': try { throw std::runtime_error("inner"); } catch (...) { throw Own(o.msg); }
        default: break;
    }
}
static void body(int fn)
{
    mark("call", fn);
    const Outcome& o = table[fn];
    if (o.kind == 'q') // passes although exceptions were thrown and caught
    {
        try { throw std::runtime_error("caught"); } catch (const std::exception&) {}
        return;
    }
    if (o.kind != 'F')
        fail(o);
}

struct FixtureBase
{
    int value = 0;
    bool made = false;
    explicit FixtureBase() { ++fixtures; }
    void start(int fn)
    {
        id = fn;
        mark("ctor", fn);
        if (table[fn].kind == 'F')
            throw std::runtime_error(table[fn].msg);
        if (table[fn].kind == 'G')
            throw 5;
        made = true;
    }
    ~FixtureBase()
    {
        --fixtures;
        if (made)
            mark("dtor", id);
    }
    // the fixture is fresh
    void used()
    {
        if (value++ != 0 || fixtures != 1)
            mark("stale", id);
        body(id);
    }
    int id = 0;
};
template <int N>
struct Fixed : FixtureBase
{
    Fixed()  { start(N); }
};

// functions 1..12 are plain and registered by the script; 13..16 run in a fixture and are registered by the script
template <int N>
void plain() { body(N); }
template <int N>
void fixed()
{
    Fixed<N> f;
    f.used();
}
static Caitlyn::Test::TestFunction const pool[] = {
    nullptr, plain<1>, plain<2>, plain<3>, plain<4>, plain<5>, plain<6>, plain<7>, plain<8>, plain<9>, plain<10>, plain<11>, plain<12>,
    fixed<13>, fixed<14>, fixed<15>, fixed<16>};

// 17..22 are registered by the macros, in this order
TEST(Mid, Zeta) { body(17); }
TEST(Alpha, Two) { body(18); }
struct Fix : Fixed<19> {};
TEST_F(Fix, First) { used(); }
TEST(Mid, Beta) { body(20); }
struct Box : Fixed<21> { int extra = 3; };
TEST_F(Box, Only)
{
    if (extra++ != 3)
        mark("stale", 21);
    used();
}
TEST(Alpha, One) { body(22); }

static std::string hexOf(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s)
    {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

static void child(const std::vector<Op>& ops)
{
    FILE* capture = tmpfile();
    auto added = [](const char* suite, const char* name, int fn, bool fix) {
        Ev("add").bytes("suite", suite).bytes("name", name).i("fn", fn).b("fix", fix).emit();
    };
    added("Mid", "Zeta", 17, false);
    added("Alpha", "Two", 18, false);
    added("Fix", "First", 19, true);
    added("Mid", "Beta", 20, false);
    added("Box", "Only", 21, true);
    added("Alpha", "One", 22, false);
    for (const Op& op : ops)
    {
        if (op.name == "add")
        {
            const std::string suite = bytes(op.s(0)), name = bytes(op.s(1));
            const int fn = op.n(2);
            Caitlyn::Test::TestRegistry::Instance().AddTest(Caitlyn::String(suite.c_str()), Caitlyn::String(name.c_str()), pool[fn]);
            Ev("add").bytes("suite", suite).bytes("name", name).i("fn", fn).b("fix", fn >= 13).emit();
        }
        else if (op.name == "run")
        {
            // outcomes: kind:hex for each function
            std::string oc = "[";
            for (int f = 1; f <= Functions; ++f)
            {
                table[f] = Outcome();
                if (static_cast<size_t>(f) <= op.a.size())
                {
                    table[f].kind = op.s(f - 1)[0];
                    table[f].msg = bytes("x" + op.s(f - 1).substr(1));
                }
                const char k = table[f].kind;
                const bool has = strchr("rlo2Ft", k) != nullptr;
                const bool assertion = k == 'a' || k == 'f';
                Ev m("x");
                oc += f > 1 ? "," : "";
                std::string msg = "[";
                std::string text = has ? table[f].msg : "";
                try
                {
                    if (assertion)
                        fail(table[f]);
                }
                catch (const std::exception& e)
                {
                    text = e.what();
                }
                for (unsigned char c : text)
                    msg += (msg.size() > 1 ? "," : "") + std::to_string(c);
                const bool ok = k == 'p' || k == 'q';
                oc += std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"std\":" + (has || assertion ? "true" : "false") + ",\"ctor\":" + (k == 'F' || k == 'G' ? "true" : "false") + ",\"msg\":" + msg + "]}";
            }
            std::cout.flush();
            fflush(stdout);
            if (ftruncate(fileno(capture), 0) != 0)
                _exit(96);
            lseek(fileno(capture), 0, SEEK_SET);
            const int saved = dup(1);
            dup2(fileno(capture), 1);
            const int status = Caitlyn::Test::TestRegistry::Instance().RunAll();
            std::cout.flush();
            fflush(stdout);
            dup2(saved, 1);
            close(saved);
            std::string text;
            char buf[4096];
            lseek(fileno(capture), 0, SEEK_SET);
            for (ssize_t n; (n = read(fileno(capture), buf, sizeof buf)) > 0;)
                text.append(buf, n);
            Ev("run").raw("oc", oc + "]").i("status", status).i("exit", status & 255).i("left", fixtures).name("raw", hexOf(text)).emit();
        }
    }
}
static void run(const std::vector<Op>& ops)
{
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0)
    {
        child(ops);
        fflush(out());
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        _exit(99);
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, run);
}
