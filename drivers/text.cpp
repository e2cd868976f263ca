// Formatting, string builders and text utilities.
#include "driver.h"
#include <memory>
#include <type_traits>
#include <utility>
#include "Caitlyn/__Core/String.h"
#include "Caitlyn/__Core/String/StringBuilder.h"
#include "Caitlyn/__Core/String/Utility.h"
#include "Caitlyn/__Core/String/Algorithms/Kmp.h"
using namespace Caitlyn;
using namespace drv;

struct WithStr { std::string t; std::string str() const { return t; } };
struct WithToString { std::string t; String ToString() const { return String(t); } };

// an argument as given on the op line: kind:value; text() is what it must be shown as
struct Arg
{
    char k;
    std::string v;
    explicit Arg(const std::string& s) : k(s[0]), v(s.substr(2)) {}
    std::string raw() const { return bytes("x" + v); }
    std::string text() const
    {
        switch (k)
        {
            case 'f':
            {
                char b[400];
                snprintf(b, sizeof b, "%f", std::strtod(v.c_str(), nullptr));
                return b;
            }
            case 'b': return v == "1" ? "true" : "false";
            case 'i': case 'u': case 'l': case 'm': return v;
            default: return raw();
        }
    }
};

// calls f with a value of the kind of a
template <typename F>
void with(const Arg& a, F f)
{
    switch (a.k)
    {
        case 's': { const String s(a.raw()); f(s); break; }
        case 't': { f(String(a.raw())); break; }
        case 'c': { const std::string s = a.raw(); f(s.c_str()); break; }
        case 'd': { const std::string s = a.raw(); f(s); break; }
        case 'i': { int n = std::atoi(a.v.c_str()); f(n); break; }
        case 'u': { const unsigned n = std::strtoul(a.v.c_str(), nullptr, 10); f(n); break; }
        case 'l': { const Int64 n = std::strtoll(a.v.c_str(), nullptr, 10); f(n); break; }
        case 'm': { const UInt64 n = std::strtoull(a.v.c_str(), nullptr, 10); f(n); break; }
        case 'f': { const double n = std::strtod(a.v.c_str(), nullptr); f(n); break; }
        case 'b': { const bool n = a.v == "1"; f(n); break; }
        case 'w': { WithStr s{a.raw()}; f(s); break; }
        default: { WithToString s{a.raw()}; f(s); break; }
    }
}
template <typename G>
void two(const std::vector<Arg>& a, G g, std::true_type)
{
    with(a[0], [&](auto&& x) { with(a[1], [&](auto&& y) { g(x, y); }); });
}
template <typename G>
void two(const std::vector<Arg>& a, G g, std::false_type)
{
    with(a[0], [&](auto&& x) { g(x, a[1].text()); });
}
// many arguments: texts and things with a text in turn
inline std::string nth(const Arg& a, std::integral_constant<int, 0>) { return a.text(); }
inline String nth(const Arg& a, std::integral_constant<int, 1>) { return String(a.text()); }
inline WithStr nth(const Arg& a, std::integral_constant<int, 2>) { return WithStr{a.text()}; }
template <typename G, size_t... I>
void all(const std::vector<Arg>& a, G g, std::index_sequence<I...>)
{
    g(nth(a[I], std::integral_constant<int, I % 3>())...);
}
// one by one for two arguments, one type each position for more
template <bool Pairs = false, typename G>
void withArgs(const std::vector<Arg>& a, G g)
{
    switch (a.size())
    {
        case 0: g(); break;
        case 1: with(a[0], [&](auto&& x) { g(x); }); break;
        case 2: two(a, g, std::integral_constant<bool, Pairs>()); break;
        case 3: g(String(a[0].text()), a[1].text(), WithStr{a[2].text()}); break;
        case 4: g(WithToString{a[0].text()}, a[1].text().c_str(), String(a[2].text()), a[3].text()); break;
        case 7: all(a, g, std::make_index_sequence<7>()); break;
        case 10: all(a, g, std::make_index_sequence<10>()); break;
        case 11: all(a, g, std::make_index_sequence<11>()); break;
        case 12: all(a, g, std::make_index_sequence<12>()); break;
        case 17: all(a, g, std::make_index_sequence<17>()); break;
        case 33: all(a, g, std::make_index_sequence<33>()); break;
        default:
            g(a[0].text(), WithToString{a[1].text()}, String(a[2].text()), WithStr{a[3].text()}, a[4].text().c_str());
    }
}

static std::string textlist(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (const auto& t : v)
    {
        Ev q("");
        q.text("x", t);
        r += (r.size() > 1 ? "," : "") + q.s.substr(q.s.find('['));
    }
    return r + "]";
}

static void run(const std::vector<Op>& ops)
{
    std::unique_ptr<StringBuilder> b[4];
    for (const Op& op : ops)
    {
        const std::string name = op.name.substr(0, op.name.find('.'));
        const std::string how = op.name.size() > name.size() ? op.name.substr(name.size() + 1) : "";
        Ev e(name);
        bool ex = false;
        if (name == "fmt")
        {
            const std::string t = bytes(op.s(0));
            std::vector<Arg> args;
            std::vector<std::string> texts;
            for (size_t k = 1; k < op.a.size(); ++k)
                args.emplace_back(op.s(k)), texts.push_back(args.back().text());
            String r;
            const String tmpl(t);
            ex = throws([&] {
                withArgs<true>(args, [&](auto&&... x) {
                    r = String::Format(tmpl, x...);
                    if (!agree([&] { return String::Format(tmpl, x...).str(); }))
                        r = "threads see different things";
                });
            });
            e.text("t", t).raw("args", textlist(texts)).b("ex", ex).text("out", r.str()).emit();
            continue;
        }
        if (name == "split")
        {
            const std::string t = bytes(op.s(0));
            e.text("t", t).i("d", op.n(1)).raw("out", textlist(Split(t, static_cast<char>(op.n(1))))).emit();
            continue;
        }
        if (name == "repeat")
        {
            const std::string t = bytes(op.s(0));
            e.text("t", t).i("n", op.n(1)).text("out", Repeat(t, op.n(1))).emit();
            continue;
        }
        if (name == "kmp")
        {
            const std::string p = bytes(op.s(0)), t = bytes(op.s(1));
            e.text("p", p).text("t", t).b("r", kmp(p, t)).emit();
            continue;
        }
        if (name == "unesc")
        {
            const std::string t = bytes(op.s(0));
            e.text("t", t).text("out", EscapeString(String(t)).str()).emit();
            continue;
        }
        if (name == "space")
        {
            const String t(bytes(op.s(0)));
            e.text("t", t.str()).i("first", FindFirstNonSpace(t)).i("last", FindLastNonSpace(t)).b("num", IsNumber(t)).emit();
            continue;
        }
        const long d = op.n(0);
        e.i("d", d);
        if (name == "new")      // new.<how> d text
        {
            const std::string t = bytes(op.s(1));
            if (how == "h" && t.size() == 1)
                b[d].reset(new StringBuilder(t[0]));
            else if (how == "c")
                b[d].reset(new StringBuilder(t.c_str()));
            else if (how == "m")
                b[d].reset(new StringBuilder(MakeText(String(t))));
            else if (how == "mh" && t.size() == 1)
                b[d].reset(new StringBuilder(MakeText(t[0])));
            else if (t.empty())
                b[d].reset(how == "mh" ? new StringBuilder(MakeText()) : new StringBuilder());
            else
                b[d].reset(new StringBuilder(String(t)));
            e.text("text", t);
        }
        else if (name == "copy" || name == "move")
        {
            const long a = op.n(1);
            if (name == "copy")
                b[d].reset(new StringBuilder(*b[a]));
            else
            {
                b[d].reset(new StringBuilder(std::move(*b[a])));
                b[a].reset();
            }
            e.i("a", a);
        }
        else if (name == "drop")
            b[d].reset();
        else
        {
            const std::string t = bytes(op.s(1));
            std::vector<Arg> args;
            std::vector<std::string> texts;
            for (size_t k = 2; k < op.a.size(); ++k)
                args.emplace_back(op.s(k)), texts.push_back(args.back().text());
            ex = throws([&] {
                if (name == "append" && args.empty())
                    b[d]->Append(String(t));
                else if (name == "line" && args.empty())
                    b[d]->AppendLine(String(t));
                else
                    withArgs(args, [&](auto&&... x) {
                        if (name == "append")
                            b[d]->Append(String(t), x...);
                        else if (name == "line")
                            b[d]->AppendLine(t.c_str(), x...);
                        else
                        {
                            std::unique_ptr<StringBuilder> n(how == "m" ? new StringBuilder(MakeText(String(t), x...)) : new StringBuilder(String(t), x...));
                            b[d] = std::move(n);
                        }
                    });
            });
            e.text("text", t).raw("args", textlist(texts));
        }
        e.b("ex", ex);
        std::string all = "[";
        for (int k = 1; k <= 3; ++k)
            all += (k > 1 ? "," : "") + (b[k] ? textlist({both([&] { return b[k]->str().str(); })}) : std::string("[]"));
        e.raw("b", all + "]").emit();
    }
}

int main(int argc, char** argv) { return main_loop(argc, argv, run); }
