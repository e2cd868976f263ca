// Histories of the console streams; each in its own process with scratch files as standard output and error and a pipe as input.
#include "driver.h"
#include <iostream>
#include <sys/wait.h>
#include "Caitlyn/IO"
#include "Caitlyn/String"
using namespace Caitlyn;
using namespace drv;

struct WithStr
{
    std::string t;
    std::string str() const { return t; }
};
struct WithToString
{
    std::string t;
    std::string to_string() const { return t; }
};
struct WithCapital
{
    std::string t;
    String ToString() const { return String(t.c_str()); }
};
static std::string braces(const std::string& s)
{
    std::string r;
    for (char ch : s)
        r += ch == '{' || ch == '}' ? std::string(2, ch) : std::string(1, ch);
    return r;
}
static size_t cut(const std::string& s)
{
    size_t k = s.size() / 2;
    while (k > 0 && (static_cast<unsigned char>(s[k]) & 0xC0) == 0x80)
        --k;
    return k;
}
static bool number(const std::string& s)
{
    return !s.empty() && s.size() < 9 && s.find_first_not_of("0123456789") == std::string::npos && (s[0] != '0' || s.size() == 1);
}
#define PUT(Stream, Fn)                                                                                                \
    {                                                                                                                  \
        const std::string a = x.substr(0, cut(x)), b = x.substr(cut(x));                                               \
        switch (how % 10)                                                                                              \
        {                                                                                                              \
            case 0: Stream::Fn(x.c_str()); break;                                                                      \
            case 1: Stream::Fn(String(x.c_str())); break;                                                              \
            case 2: Stream::Fn(WithStr{x}); break;                                                                     \
            case 3: Stream::Fn(WithToString{x}); break;                                                                \
            case 4: Stream::Fn(WithCapital{x}); break;                                                                 \
            case 5: Stream::Fn("{}{}", String(a.c_str()), b.c_str()); break;                                           \
            case 6: Stream::Fn(String((braces(a) + "{}").c_str()), b.c_str()); break;                                  \
            case 7: Stream::Fn("{1}{0}", b, a); break;                                                                 \
            case 8: if (number(x)) Stream::Fn("{}", std::atoi(x.c_str())); else Stream::Fn(x); break;                  \
            default: Stream::Fn((braces(a) + "{0}").c_str(), b.c_str(), "unused"); break;                              \
        }                                                                                                              \
    }
static void put(const std::string& name, const std::string& w, const std::string& x, int how)
{
    if (name == "newLine")
        w == "out" ? OutputStream::WriteLine() : w == "err" ? ErrorStream::WriteLine() : LogStream::WriteLine();
    else if (name == "write")
    {
        if (w == "out")
            PUT(OutputStream, Write)
        else if (w == "err")
            PUT(ErrorStream, Write)
        else
            PUT(LogStream, Write)
    }
    else
    {
        if (w == "out")
            PUT(OutputStream, WriteLine)
        else if (w == "err")
            PUT(ErrorStream, WriteLine)
        else
            PUT(LogStream, WriteLine)
    }
}
static std::string get(const std::string& name, const std::string& x, int how)
{
    const std::string a = x.substr(0, cut(x)), b = x.substr(cut(x));
    if (name == "readLine")
        switch (how % 5)
        {
            case 0: return x.empty() ? InputStream::ReadLine().str() : InputStream::ReadLine(x.c_str()).str();
            case 1: return InputStream::ReadLine(String(x.c_str())).str();
            case 2: return InputStream::ReadLine("{}{}", String(a.c_str()), b).str();
            case 3: return InputStream::ReadLine(String((braces(a) + "{}").c_str()), b.c_str()).str();
            default: return InputStream::ReadLine("{1}{0}", b, a).str();
        }
    switch (how % 5)
    {
        case 0: return x.empty() ? InputStream::ReadChar().data() : InputStream::ReadChar(x.c_str()).data();
        case 1: return InputStream::ReadChar(String(x.c_str())).data();
        case 2: return InputStream::ReadChar("{}{}", String(a.c_str()), b).data();
        case 3: return InputStream::ReadChar(String((braces(a) + "{}").c_str()), b.c_str()).data();
        default: return InputStream::ReadChar("{1}{0}", b, a).data();
    }
}
static int fresh()
{
    char n[] = "stream-XXXXXX";
    const int fd = mkstemp(n);
    unlink(n);
    return fd;
}
struct Tail
{
    int fd;
    off_t at;
    std::string next() // what was added since
    {
        std::string r;
        char buf[8192];
        for (ssize_t n; (n = pread(fd, buf, sizeof buf, at)) > 0; at += n)
            r.append(buf, n);
        return r;
    }
};
static void child(const std::vector<Op>& ops)
{
    Tail o{fresh(), 0}, e{fresh(), 0};
    int p[2];
    if (pipe(p) != 0)
        _exit(96);
    dup2(p[0], 0);
    close(p[0]);
    dup2(o.fd, 1);
    const int realErr = dup(2);
    dup2(e.fd, 2);
    std::string pending; // given and not read
    bool shut = false;
    for (const Op& op : ops)
    {
        // name.how stream xtext
        const std::string name = op.name.substr(0, op.name.find('.'));
        const int how = op.name.size() > name.size() ? std::atoi(op.name.c_str() + name.size() + 1) : 0;
        const std::string w = op.s(0), x = bytes(op.s(1));
        const bool reads = name == "readLine" || name == "readChar";
        if ((reads && !shut && pending.find('\n') == std::string::npos) || ((name == "feed" || name == "shut") && shut))
        {
            Ev("skip").emit();
            continue;
        }
        std::string res;
        bool ex = false;
        try
        {
            if (name == "feed")
            {
                if (write(p[1], x.data(), x.size()) != static_cast<ssize_t>(x.size()))
                    _exit(95);
                pending += x;
            }
            else if (name == "shut")
            {
                close(p[1]);
                shut = true;
            }
            else if (reads)
            {
                const size_t k = pending.find('\n');
                pending = k == std::string::npos ? "" : pending.substr(k + 1);
                res = get(name, x, how);
            }
            else
                put(name, w, x, how);
        }
        catch (const std::exception&)
        {
            ex = true;
        }
        Ev(name).name("w", w).bytes("x", x).bytes("res", res).b("ex", ex).bytes("out", o.next()).bytes("err", e.next()).emit();
    }
    dup2(realErr, 2);
}
static void run(const std::vector<Op>& ops)
{
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0)
    {
        alarm(15);
        child(ops);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        _exit(99);
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, run);
}
