#include "driver.h"
#include <Caitlyn/Numeric>
#include "Caitlyn/__Numeric/Types.h"
#include <memory>
// Compiled once as it is and once with -DBIGFLOAT
#ifdef BIGFLOAT
using Num = Caitlyn::BigFloat;
static Num literal(const std::string& t) { return operator""_bigfloat(t.c_str(), t.size()); }
#else
using Num = Caitlyn::BigInteger;
static Num literal(const std::string& t) { return operator""_bigint(t.c_str(), t.size()); }
#endif
using Caitlyn::String;
using namespace drv;

static std::string str(const Num& v, long variant)
{
    if (variant & 1)
    {
        std::ostringstream o;
        o << v;
        return o.str();
    }
    return v.ToString().str();
}

static void run(const std::vector<Op>& ops)
{
    Num r[5];
    long n = 0;
    bool fine = true;
    for (const Op& op : ops)
    {
        if (!fine)
            std::abort();
        ++n;
        Ev e(op.name.substr(0, op.name.find('.')));
        const std::string& o = op.name;
        bool ex = false;
        if (o.compare(0, 4, "set.") == 0)      // set.<ctor> d text
        {
            const long d = op.n(0);
            const std::string t = bytes(op.s(1));
            ex = throws([&] {
                if (o == "set.c")
                    r[d] = Num(t.c_str());
                else if (o == "set.s")
                    r[d] = Num(String(t));
                else if (o == "set.l")
                    r[d] = literal(t);
#ifdef BIGFLOAT
                else
                    r[d] = Num(std::strtod(t.c_str(), nullptr));
#else
                else if (o == "set.i")
                    r[d] = Num(static_cast<int64_t>(std::strtoll(t.c_str(), nullptr, 10)));
                else
                    r[d] = Num(static_cast<uint64_t>(std::strtoull(t.c_str(), nullptr, 10)));
#endif
            });
            e.i("d", d).text("text", t).b("ex", ex).text("out", str(r[d], n)).emit();
            continue;
        }
        if (o == "cmp")
        {
            const Num &a = r[op.n(0)], &b = r[op.n(1)];
            e.i("a", op.n(0)).i("b", op.n(1)).b("lt", a < b).b("le", a <= b).b("gt", a > b).b("ge", a >= b).b("eq", a == b).b("ne", a != b).emit();
            continue;
        }
        if (o == "dump")
        {
            std::string s = "[";
            for (int k = 1; k <= 4; ++k)
            {
                Ev t("");
                t.text("x", r[k].ToString().str());
                s += (k > 1 ? "," : "") + t.s.substr(t.s.find('['));
            }
            e.raw("regs", s + "]").emit();
            continue;
        }
        const long d = op.n(0), a = op.n(1);
        e.i("d", d).i("a", a);
        if (o == "copy")
        {
            if (n & 1)
                r[d] = r[a];
            else
                r[d] = Num(r[a]);
        }
        else if (o == "move")
        {
            if (d != a && (n & 1))
            {
                Num tmp(std::move(r[a]));
                r[d] = std::move(tmp);
            }
            else
                r[d] = std::move(r[a]);
            e.text("src", r[a].ToString().str());
        }
        else if (o == "abs")
            r[d] = r[a].Abs();
        else if (o == "sqr")
            r[d] = r[a].Sqr();
        else if (o == "sqrt")
        {
            ex = throws([&] { r[d] = r[a].Sqrt(); });
            e.b("ex", ex);
        }
        else if (o == "pow")
        {
            const long x = op.n(2);
            ex = throws([&] { r[d] = r[a].Pow(static_cast<int>(x)); });
            e.i("e", x).b("ex", ex);
        }
        else
        {
            const long b = op.n(2);
            const bool m = n & 1;
            fine = agree([&] {
                const Num &x = r[a], &y = r[b];
                std::string s = x.ToString().str() + (x + y).ToString().str() + "," + (x - y).ToString().str() + "," + x.Abs().ToString().str();
                if (s.size() < 400)
                    s += (x * y).ToString().str() + "," + x.Sqr().ToString().str();
                return s + (x < y ? "<" : "") + (x == y ? "=" : "") + (x >= y ? "g" : "");
            });
            e.i("b", b);
            if (o == "add")
                r[d] = m ? r[a].Add(r[b]) : r[a] + r[b];
            else if (o == "sub")
                r[d] = m ? r[a].Subtract(r[b]) : r[a] - r[b];
            else if (o == "mul")
                r[d] = m ? r[a].Multiply(r[b]) : r[a] * r[b];
            else if (o == "div")
            {
                ex = throws([&] { r[d] = m ? r[a].Divide(r[b]) : r[a] / r[b]; });
                e.b("ex", ex);
            }
#ifndef BIGFLOAT
            else if (o == "mod")
            {
                Num q;
                ex = throws([&] {
                    q = r[a].Divide(r[b]);
                });
                const bool ex2 = throws([&] { r[d] = m ? r[a].Modulo(r[b]) : r[a] % r[b]; });
                e.b("ex", ex2);
                if (!ex2)
                    e.text("quot", ex ? std::string("?") : q.ToString().str());
            }
#endif
        }
        e.text("out", str(r[d], n)).emit();
    }
}

int main(int argc, char** argv) { return main_loop(argc, argv, run); }
