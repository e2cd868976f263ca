// Common part of all drivers: reads op lines, writes one JSON event per line, counts live allocations.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <exception>
#include <functional>
#include <fstream>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#ifdef DRV_THREADS       // histories are run by several threads at a time
    #include <pthread.h>
    #define DRV_TL thread_local
#else
    #define DRV_TL
#endif

namespace drv
{
#ifdef DRV_COUNT_ALLOC
// (defined below) number of blocks from operator new that were not deleted yet
extern DRV_TL long live_blocks;
#endif

struct Op
{
    std::string name;
    std::vector<std::string> a;
    long n(size_t k) const { return std::strtol(a.at(k).c_str(), nullptr, 10); }
    const std::string& s(size_t k) const { return a.at(k); }
};

inline int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// byte strings travel as hex with a leading x (so that they are never empty)
inline std::string bytes(const std::string& x)
{
    std::string r;
    for (size_t i = 1; i + 1 < x.size(); i += 2)
        r.push_back(static_cast<char>(hexv(x[i]) * 16 + hexv(x[i + 1])));
    return r;
}

// Independent decoder: code points, or (for text that is not structurally UTF-8) minus byte - 1
inline std::vector<long> decode(const std::string& s)
{
    std::vector<long> r;
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        int n = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
        bool ok = n > 0 && i + n <= s.size();
        for (int k = 1; ok && k < n; ++k)
            ok = (static_cast<unsigned char>(s[i + k]) & 0xC0) == 0x80;
        if (!ok)
        {
            r.push_back(-static_cast<long>(c) - 1);
            ++i;
            continue;
        }
        long cp = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
        for (int k = 1; k < n; ++k)
            cp = cp * 64 + (static_cast<unsigned char>(s[i + k]) & 0x3F);
        r.push_back(cp);
        i += n;
    }
    return r;
}

inline FILE*& out()
{
    static DRV_TL FILE* f = nullptr;
    return f;
}
inline long& self()      // number of the thread
{
    static DRV_TL long n = 0;
    return n;
}
// the result of looking at objects; with threads: of two that look at the same time
template <typename F>
std::string both(const F& f)
{
#ifdef DRV_THREADS
    struct Other
    {
        const F* f;
        char* r;
        size_t n;
        static void* go(void* p)
        {
            Other& o = *static_cast<Other*>(p);
            const std::string s = (*o.f)();
            o.r = static_cast<char*>(std::malloc(s.size() + 1));
            std::memcpy(o.r, s.data(), o.n = s.size());
            return nullptr;
        }
    } o{&f, nullptr, 0};
    pthread_t t;
    const bool two = pthread_create(&t, nullptr, &Other::go, &o) == 0;
    const std::string mine = f();
    if (!two)
        return mine;
    pthread_join(t, nullptr);
    const bool same = o.n == mine.size() && std::memcmp(o.r, mine.data(), o.n) == 0;
    std::free(o.r);
    return same ? mine : "\"threads see different things\"";
#else
    return f();
#endif
}
// with threads: do two that look at the same time see the same?
template <typename F>
bool agree(const F& f)
{
#ifdef DRV_THREADS
    return both(f) != "\"threads see different things\"";
#else
    return true;
#endif
}

struct Ev
{
    std::string s;
    explicit Ev(const std::string& op) : s("{\"op\":\"" + op + "\"") {}
    Ev& key(const char* k)
    {
        s += ",\"";
        s += k;
        s += "\":";
        return *this;
    }
    Ev& i(const char* k, long long v)
    {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    Ev& b(const char* k, bool v)
    {
        key(k);
        s += v ? "true" : "false";
        return *this;
    }
    Ev& name(const char* k, const std::string& v)   // plain ASCII identifier
    {
        key(k);
        s += '"' + v + '"';
        return *this;
    }
    Ev& raw(const char* k, const std::string& v)
    {
        key(k);
        s += v;
        return *this;
    }
    template <typename V>
    Ev& seq(const char* k, const V& v)
    {
        key(k);
        s += '[';
        bool first = true;
        for (auto x : v)
        {
            if (!first)
                s += ',';
            first = false;
            s += std::to_string(static_cast<long>(x));
        }
        s += ']';
        return *this;
    }
    Ev& text(const char* k, const std::string& utf8) { return seq(k, decode(utf8)); }
    Ev& bytes(const char* k, const std::string& v)
    {
        std::vector<long> r;
        for (unsigned char c : v)
            r.push_back(c);
        return seq(k, r);
    }
    void emit()
    {
        s += "}\n";
        fwrite(s.data(), 1, s.size(), out());
        fflush(out());
    }
};

// true if f threw
template <typename F>
bool throws(F f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}

// run(history) is called with the ops of one history
inline int main_loop(int argc, char** argv, const std::function<void(const std::vector<Op>&)>& run)
{
    if (argc < 5)
        return 97;
    std::vector<std::vector<Op>> hist;
    {
        std::ifstream in(argv[1], std::ios::binary);
        std::string line;
        while (std::getline(in, line))
        {
            if (line == "H")
            {
                hist.emplace_back();
                continue;
            }
            std::istringstream ss(line);
            Op op;
            ss >> op.name;
            std::string t;
            while (ss >> t)
                op.a.push_back(t);
            hist.back().push_back(op);
        }
    }
    out() = fopen(argv[2], "wb");
    if (!out())
        return 98;
    const size_t start = std::strtoul(argv[3], nullptr, 10);
    const unsigned limit = std::strtoul(argv[4], nullptr, 10);
#ifdef DRV_THREADS
    // limit: not used.  Batches of threads that start together
    const size_t width = 4;
    for (size_t k = start; k < hist.size(); k += width)
    {
        struct Job
        {
            const std::function<void(const std::vector<Op>&)>* run;
            const std::vector<Op>* ops;
            pthread_barrier_t* bar;
            long number;
            char* log;
            size_t size;
            pthread_t t;
            static void* go(void* p)
            {
                Job& j = *static_cast<Job*>(p);
                self() = j.number;
                FILE* f = open_memstream(&j.log, &j.size);
                out() = f;
                pthread_barrier_wait(j.bar);
                (*j.run)(*j.ops);
                fclose(f);
                return nullptr;
            }
        };
        const size_t n = std::min(width, hist.size() - k);
        std::vector<Job> jobs(n);
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, n);
        fprintf(out(), "H %zu\n", k);
        fflush(out());
        alarm(120);
        for (size_t i = 0; i < n; ++i)
        {
            jobs[i] = Job{&run, &hist[k + i], &bar, static_cast<long>(i + 1), nullptr, 0, {}};
            if (pthread_create(&jobs[i].t, nullptr, &Job::go, &jobs[i]))
                _exit(96);
        }
        for (Job& j : jobs)
            pthread_join(j.t, nullptr);
        alarm(0);
        pthread_barrier_destroy(&bar);
        for (size_t i = 0; i < n; ++i)
        {
            fprintf(out(), "H %zu\n", k + i);
            fwrite(jobs[i].log, 1, jobs[i].size, out());
            std::free(jobs[i].log);
        }
        fflush(out());
    }
    fprintf(out(), "END\n");
    fflush(out());
    return 0;
#endif
    for (size_t k = start; k < hist.size(); ++k)
    {
        fprintf(out(), "H %zu\n", k);
        fflush(out());
        alarm(limit);
        run(hist[k]);
        alarm(0);
    }
    fprintf(out(), "END\n");
    fflush(out());
    return 0;
}
} // namespace drv

namespace drv
{
// what happens before the first history must not take for ever either
static struct Startup
{
    Startup() { alarm(60); }
} startup __attribute__((init_priority(101)));
} // namespace drv

#ifdef DRV_COUNT_ALLOC
namespace drv
{
DRV_TL long live_blocks = 0;
}
void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++drv::live_blocks;
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    void* p = std::malloc(n ? n : 1);
    if (p)
        ++drv::live_blocks;
    return p;
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept
{
    if (p)
        --drv::live_blocks;
#ifndef DRV_THREADS     // drivers tell objects by address: freed ones must not come back
    std::free(p);
#endif
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#endif
