// Tables of the character functions over all code points; case mapped texts.
#include "driver.h"
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
using namespace drv;

static bool sur(long c) { return c == 0 || (c >= 0xD800 && c <= 0xDFFF); }

static void run(const std::vector<Op>& ops)
{
    for (const Op& op : ops)
    {
        if (op.name == "map")   // map upper|lower code|char|string
        {
            const bool up = op.s(0) == "upper";
            std::string pairs = "[";
            auto put = [&](long c, long d) {
                if (c != d)
                    pairs += std::string(pairs.size() > 1 ? "," : "") + "[" + std::to_string(c) + "," + std::to_string(d) + "]";
            };
            if (op.s(1) == "code")
                for (long c = 0; c <= 0x10FFFF; ++c)
                    put(c, up ? ToUppercase(static_cast<CodePoint>(c)) : ToLowercase(static_cast<CodePoint>(c)));
            else if (op.s(1) == "char")
            {
                for (long c = 1; c <= 0x10FFFF; ++c)
                    if (!sur(c))
                    {
                        const Char x{static_cast<CodePoint>(c)};
                        put(c, static_cast<long>((up ? ToUppercase(x) : ToLowercase(x)).GetCodePoint()));
                    }
            }
            else
                for (long lo = 0; lo <= 0x10FFFF; lo += 512)
                {
                    String t;
                    std::vector<long> cps;
                    for (long c = lo; c < lo + 512; ++c)
                        if (!sur(c))
                        {
                            t.PushBack(Char{static_cast<CodePoint>(c)});
                            cps.push_back(c);
                        }
                    const std::vector<long> got = decode((up ? t.ToUppercase() : t.ToLowercase()).str());
                    for (size_t k = 0; k < cps.size() || k < got.size(); ++k)
                        put(k < cps.size() ? cps[k] : -1, k < got.size() ? got[k] : -2);
                }
            Ev("map").name("fn", op.s(0)).name("via", op.s(1)).raw("pairs", pairs + "]").emit();
        }
        else if (op.name == "class")
        {
            std::vector<long> sp, dg, up, lo, le;
            std::string val = "[";
            for (long k = 0; k <= 0x10FFFF; ++k)
            {
                const auto c = static_cast<CodePoint>(k);
                if (IsSpace(c))
                    sp.push_back(k);
                if (IsDigit(c))
                    dg.push_back(k);
                if (IsUppercase(c))
                    up.push_back(k);
                if (IsLowercase(c))
                    lo.push_back(k);
                if (IsLetter(c))
                    le.push_back(k);
                const int v = ToDigit(c);
                if (v != -1)
                    val += std::string(val.size() > 1 ? "," : "") + "[" + std::to_string(k) + "," + std::to_string(v) + "]";
            }
            Ev("class").seq("space", sp).seq("digit", dg).seq("upper", up).seq("lower", lo).seq("letter", le).raw("values", val + "]").emit();
        }
        else                    // str upper|lower text
        {
            const std::string t = bytes(op.s(1));
            const String s(t);
            const String o = op.s(0) == "upper" ? s.ToUppercase() : s.ToLowercase();
            Ev("str").name("fn", op.s(0)).text("t", t).text("out", both([&] { return (op.s(0) == "upper" ? s.ToUppercase() : s.ToLowercase()).str(); }) == o.str() ? o.str() : "?").text("left", s.str()).emit();
        }
    }
}

int main(int argc, char** argv) { return main_loop(argc, argv, run); }
