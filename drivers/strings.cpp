// C01, C02, C03: histories of Caitlyn::String edits and queries; text and characters from bytes.
#include "driver.h"
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
using namespace drv;

// C string in a buffer of exactly its size
struct CStr
{
    char* p;
    explicit CStr(const std::string& s) : p(static_cast<char*>(std::malloc(s.size() + 1)))
    {
        std::memcpy(p, s.data(), s.size());
        p[s.size()] = 0;
    }
    ~CStr() { std::free(p); }
    operator const char*() const { return p; }
    CStr(const CStr&) = delete;
};

static std::string enc(long cp)
{
    std::string r;
    if (cp < 0x80)
        r += static_cast<char>(cp);
    else if (cp < 0x800)
    {
        r += static_cast<char>(0xC0 | (cp >> 6));
        r += static_cast<char>(0x80 | (cp & 63));
    }
    else if (cp < 0x10000)
    {
        r += static_cast<char>(0xE0 | (cp >> 12));
        r += static_cast<char>(0x80 | ((cp >> 6) & 63));
        r += static_cast<char>(0x80 | (cp & 63));
    }
    else
    {
        r += static_cast<char>(0xF0 | (cp >> 18));
        r += static_cast<char>(0x80 | ((cp >> 12) & 63));
        r += static_cast<char>(0x80 | ((cp >> 6) & 63));
        r += static_cast<char>(0x80 | (cp & 63));
    }
    return r;
}

static Char chr(long cp) { return Char(static_cast<CodePoint>(cp)); }

// do the indexed, iterated, reverse iterated and copied views of s show the same characters as its byte form?
static bool views(String& s)
{
    const String& c = s;
    const std::vector<long> want = decode(c.str());
    const size_t n = want.size();
    bool ok = c.size() == n && c.Length() == n && c.IsEmpty() == (n == 0) && c.NotEmpty() == (n != 0) && c.data().size() == n;
    if (!ok)
        return false;
    size_t k = 0;
    for (const auto& ch : c)
        ok = ok && k < n && static_cast<long>(ch.GetCodePoint()) == want[k++];
    ok = ok && k == n;
    k = 0;
    for (auto& ch : s)
        ok = ok && k < n && static_cast<long>(ch.GetCodePoint()) == want[k++];
    ok = ok && k == n;
    k = n;
    for (auto it = c.rbegin(); it != c.rend(); ++it)
        ok = ok && k > 0 && static_cast<long>(it->GetCodePoint()) == want[--k];
    ok = ok && k == 0;
    k = n;
    for (auto it = s.rbegin(); it != s.rend(); ++it)
        ok = ok && k > 0 && static_cast<long>(it->GetCodePoint()) == want[--k];
    ok = ok && k == 0 && c.cend() - c.cbegin() == static_cast<long>(n) && c.crend() - c.crbegin() == static_cast<long>(n);
    size_t bytes = 0;
    const auto d = c.data();
    for (k = 0; k < n && ok; ++k)
    {
        const long cp = want[k];
        ok = static_cast<long>(c[k].GetCodePoint()) == cp && static_cast<long>(s[k].GetCodePoint()) == cp &&
             static_cast<long>(c.At(k).GetCodePoint()) == cp && static_cast<long>(d[k].GetCodePoint()) == cp && c[k].str() == enc(cp);
        bytes += c[k].size();
    }
    std::ostringstream o;
    o << c;
    ok = ok && agree([&] {
        std::string x = c.str() + std::to_string(c.Length()) + ":" + std::to_string(c.ByteCount()) + (c.IsEmpty() ? "e" : "n");
        for (const auto& ch : c)
            x += ch.str() + std::to_string(ch.GetCodePoint()) + std::to_string(ch.size());
        const String copy(c);
        x += (copy == c ? "=" : "#") + (c + copy).str() + c.Substring(n / 2).str() + c.ToUppercase().str() + c.ToLowercase().str();
        x += std::to_string(c.Find(copy)) + "," + std::to_string(c.ReverseFind(copy)) + (c.Contains(copy) ? "c" : "-") + (c < copy ? "<" : ">") + (c.StartsWith(copy) ? "s" : "-") + (c.EndsWith(copy) ? "e" : "-");
        return x + String::Format("{}{0:>5}", c).str();
    });
    return ok && c.ByteCount() == bytes && bytes == c.str().size() && o.str() == c.str();
}

static void run(const std::vector<Op>& ops)
{
    String r[4];
    for (const Op& op : ops)
    {
        const std::string name = op.name.substr(0, op.name.find('.'));
        const std::string how = op.name.size() > name.size() ? op.name.substr(name.size() + 1) : "";
        Ev e(name);
        bool ex = false;
        if (name == "build")     // build.<how> bytes
        {
            const std::string b = bytes(op.s(0));
            String t;
            ex = throws([&] {
                if (how == "c")
                    t = String(CStr(b).p);
                else if (how == "s")
                    t = String(std::string(b));
                else if (how == "l")
                    t = operator""_str(CStr(b), b.size());
                else if (how == "append")
                    t.Append(CStr(b));
                else if (how == "insert")
                    t.Insert(0, CStr(b));
                else if (how == "pluseq")
                    t += String(CStr(b));
                else if (how == "in")
                {
                    std::istringstream in(b);
                    in >> t;
                }
            });
            e.bytes("bytes", b).b("ex", ex);
            std::vector<long> cps;
            std::string chars = "[";
            if (!ex)
                for (const auto& c : t)
                {
                    cps.push_back(static_cast<long>(c.GetCodePoint()));
                    Ev q("");
                    q.bytes("x", c.str());
                    chars += (chars.size() > 1 ? "," : "") + q.s.substr(q.s.find('['));
                }
            e.seq("cps", cps).raw("chars", chars + "]").bytes("out", ex ? std::string() : t.str());
            e.i("len", ex ? 0 : t.Length()).i("size", ex ? 0 : t.ByteCount()).emit();
            continue;
        }
        if (name == "char")
        {
            const std::string b = bytes(op.s(0));
            Char c;
            ex = throws([&] {
                if (how == "c")
                    c = Char(CStr(b).p);
                else if (how == "s")
                    c = Char(std::string(b));
                else if (how == "ac")
                    c = static_cast<const char*>(CStr(b));
                else if (how == "as")
                    c = std::string(b);
                else
                    c = operator""_char(CStr(b), b.size());
            });
            e.bytes("bytes", b).b("ex", ex).i("cp", ex ? 0 : static_cast<long>(c.GetCodePoint()));
            e.bytes("out", ex ? std::string() : c.str()).i("len", ex ? 0 : c.size()).emit();
            continue;
        }
        if (name == "codes")     // codes lo hi step
        {
            std::vector<long> cps, back;
            std::string out = "[";
            long n = 0;
            for (long cp = op.n(0); cp <= op.n(1); cp += op.n(2))
            {
                if (cp <= 0 || (cp >= 0xD800 && cp <= 0xDFFF) || cp > 0x10FFFF)
                    continue;
                Char c = chr(cp);
                if (++n % 3 == 0)
                {
                    c = 'x';
                    c = static_cast<CodePoint>(cp);
                }
                else if (n % 3 == 1 && cp < 128)
                    c = Char(static_cast<char>(cp));
                cps.push_back(cp);
                back.push_back(static_cast<long>(c.GetCodePoint()));
                Ev q("");
                q.bytes("x", (n & 1) ? c.str() : std::string(c.data()));
                out += (out.size() > 1 ? "," : "") + q.s.substr(q.s.find('['));
            }
            e.seq("cps", cps).seq("back", back).raw("out", out + "]").emit();
            continue;
        }
        if (name == "query" || name == "look")     // look: only at the given positions
        {
            const long a = op.n(0), b = op.n(1);
            const String &t = r[a], &n = r[b];
            e.i("a", a).i("b", b).b("contains", t.Contains(n)).b("starts", t.StartsWith(n)).b("ends", t.EndsWith(n));
            std::vector<long> f, g, fi, fn;
            auto idx = [](SizeType p) { return p == String::NPosition ? -1L : static_cast<long>(p); };
            std::vector<long> ps;
            for (size_t k = 2; k < op.a.size(); ++k)
                ps.push_back(op.n(k));
            for (size_t p = 0; name == "query" && p <= t.size() + 1; ++p)
                ps.push_back(p);
            for (size_t p : ps)
            {
                f.push_back(p == 0 ? idx(t.Find(n)) : idx(t.Find(n, p)));
                g.push_back(idx(t.ReverseFind(n, p)));
            }
            g.push_back(idx(t.ReverseFind(n)));
            if (n.NotEmpty())
            {
                const Char c = n[0];
                for (size_t p : ps)
                {
                    if (p > t.size())
                        continue;
                    fi.push_back(idx(t.FindIf([&](const Char& x) { return x == c; }, p)));
                    fn.push_back(idx(t.FindIfNot([&](const Char& x) { return x == c; }, p)));
                }
            }
            if (name == "look")
                e.seq("ps", ps);
            e.seq("find", f).seq("rfind", g).seq("fi", fi).seq("fn", fn);
            const std::string cs = n.str();
            const CStr p(cs);
            const char* q = p;
            auto six = [](bool l, bool le, bool gt, bool ge, bool eq, bool ne) {
                std::string x = "[";
                for (bool v : {l, le, gt, ge, eq, ne})
                    x += std::string(x.size() > 1 ? "," : "") + (v ? "true" : "false");
                return x + "]";
            };
            e.raw("cmp", six(t < n, t <= n, t > n, t >= n, t == n, t != n));
            e.raw("ccmp", six(t < q, t <= q, t > q, t >= q, t == q, t != q)).emit();
            continue;
        }
        if (name == "subs")
        {
            const long a = op.n(0);
            const String& t = r[a];
            std::string out = "[";
            std::vector<long> ps, ns;
            const long L = static_cast<long>(t.size());
            for (long p = 0; p <= L + 1; ++p)
                if (L <= 6 || p < 2 || p >= L - 1 || p % (L > 40 ? L / 8 : 3) == 0)
                    ps.push_back(p);
            for (long n = -1; n <= L + 1; ++n)
                if (L <= 6 || n < 3 || n >= L - 1 || n % (L > 40 ? L / 8 : 3) == 1 || (n & (n - 1)) == 0)
                    ns.push_back(n);
            for (long p : ps)
                for (long n : ns)
                {
                    Ev q("x");
                    String u;
                    const bool x = throws([&] { u = n < 0 ? t.Substring(p) : t.Substring(p, n); });
                    q.i("pos", p).i("n", n).b("ex", x).text("text", u.str());
                    out += (out.size() > 1 ? "," : "") + q.s + "}";
                }
            e.i("a", a).raw("out", out + "]").emit();
            continue;
        }
        const long d = op.n(0);
        e.i("d", d);
        if (name == "set")
        {
            const std::string b = bytes(op.s(1));
            if (b.empty() && how != "a")
                r[d] = String::Empty();
            else if (how == "c")
                r[d] = String(CStr(b).p);
            else if (how == "s")
                r[d] = std::string(b);
            else if (how == "a")
            {
                r[d].Clear();
                r[d].Append(CStr(b));
            }
            else if (how == "v")
                r[d] = String(String(b).data());
            else
                r[d] = static_cast<const char*>(CStr(b));
            e.text("text", b);
        }
        else if (name == "setn")
        {
            const long n = op.n(1), cp = op.n(2);
            if (cp < 128 && how == "p")
                r[d] = String(n, static_cast<char>(cp));
            else
                r[d] = String(n, chr(cp));
            e.i("n", n).i("cp", cp);
        }
        else if (name == "append")
        {
            const std::string b = bytes(op.s(1));
            if (how == "p")
                r[d] += CStr(b).p;
            else
                r[d].Append(CStr(b));
            e.text("text", b);
        }
        else if (name == "pluseq")
        {
            r[d] += r[op.n(1)];
            e.i("a", op.n(1));
        }
        else if (name == "cat")
        {
            r[d] = r[op.n(1)] + r[op.n(2)];
            e.i("a", op.n(1)).i("b", op.n(2));
        }
        else if (name == "cats")
        {
            const std::string b = bytes(op.s(2));
            r[d] = r[op.n(1)] + CStr(b).p;
            e.i("a", op.n(1)).text("text", b);
        }
        else if (name == "push")
        {
            r[d].PushBack(chr(op.n(1)));
            e.i("cp", op.n(1));
        }
        else if (name == "pushown")
        {
            r[d].PushBack(r[d][op.n(1)]);
            e.i("pos", op.n(1));
        }
        else if (name == "appendn")
        {
            const long n = op.n(1), cp = op.n(2);
            if (how == "p")
                r[d].Append(n, CStr(enc(cp)));
            else
                r[d].Append(n, chr(cp));
            e.i("n", n).i("cp", cp);
        }
        else if (name == "appendown")
        {
            r[d].Append(op.n(1), r[d][op.n(2)]);
            e.i("n", op.n(1)).i("pos", op.n(2));
        }
        else if (name == "insert")
        {
            const std::string b = bytes(op.s(2));
            ex = throws([&] { r[d].Insert(op.n(1), CStr(b)); });
            e.i("pos", op.n(1)).text("text", b);
        }
        else if (name == "inserts")
        {
            ex = throws([&] { r[d].Insert(op.n(1), r[op.n(2)]); });
            e.i("pos", op.n(1)).i("a", op.n(2));
        }
        else if (name == "insertn")
        {
            ex = throws([&] { r[d].Insert(op.n(1), op.n(2), chr(op.n(3))); });
            e.i("pos", op.n(1)).i("n", op.n(2)).i("cp", op.n(3));
        }
        else if (name == "insertown")
        {
            ex = throws([&] { r[d].Insert(op.n(1), op.n(2), r[d][op.n(3)]); });
            e.i("pos", op.n(1)).i("n", op.n(2)).i("k", op.n(3));
        }
        else if (name == "setat")    // setat.<a|i|b|r> d pos cp
        {
            const size_t pos = op.n(1);
            const Char c = chr(op.n(2));
            ex = throws([&] {
                if (pos >= r[d].size() || how == "a" || how == "")
                    r[d].At(pos) = c;
                else if (how == "i")
                    r[d][pos] = c;
                else if (how == "b")
                    *(r[d].begin() + pos) = c;
                else
                    *(r[d].rbegin() + (r[d].size() - 1 - pos)) = c;
            });
            e.i("pos", pos).i("cp", op.n(2));
        }
        else if (name == "at")
        {
            long cp = 0;
            const String& t = r[d];
            const size_t pos = op.n(1);
            ex = throws([&] { cp = how == "m" ? r[d].At(pos).GetCodePoint() : t.At(pos).GetCodePoint(); });
            e.i("pos", pos).i("cp", cp);
        }
        else if (name == "substr")
        {
            const long a = op.n(1), pos = op.n(2), n = op.n(3);
            ex = throws([&] { r[d] = n < 0 ? r[a].Substring(pos) : r[a].Substring(pos, n); });
            e.i("a", a).i("pos", pos).i("n", n);
        }
        else if (name == "clear")
            r[d].Clear();
        else if (name == "copy")
        {
            const long a = op.n(1);
            if (how == "c")
            {
                String t(r[a]);
                r[d] = t;
            }
            else
                r[d] = r[a];
            e.i("a", a);
        }
        else if (name == "swap")
        {
            const long a = op.n(1);
            String t(std::move(r[a]));
            r[a] = std::move(r[d]);
            r[d] = std::move(t);
            e.i("a", a);
        }
        else if (name == "move")
        {
            const long a = op.n(1);
            if (how == "c")
            {
                String t(std::move(r[a]));
                r[d] = std::move(t);
            }
            else
                r[d] = std::move(r[a]);
            e.i("a", a).text("left", r[a].str());
        }
        else
            std::abort();
        e.b("ex", ex);
        bool v = true;
        std::string all = "[";
        for (int k = 1; k <= 3; ++k)
        {
            v = v && views(r[k]);
            Ev q("");
            q.text("x", r[k].str());
            all += (k > 1 ? "," : "") + q.s.substr(q.s.find('['));
        }
        e.b("views", v).raw("s", all + "]").emit();
    }
}

int main(int argc, char** argv) { return main_loop(argc, argv, run); }
