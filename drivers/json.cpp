// JSON: texts (parse), trees (print) and histories of documents and detached values (tree).
#define DRV_COUNT_ALLOC
#include "driver.h"
#include <cmath>
#include <memory>
#include <unistd.h>
#include "Caitlyn/__Serializing/Json.h"
using namespace Caitlyn;
using namespace drv;
using Data = JsonDocument::DataType;
using Json::JsonClass;

static std::string seqOf(const std::vector<long>& v)
{
    std::string r = "[";
    for (long x : v)
        r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}
static std::string textOf(const std::string& s) { return seqOf(decode(s)); }
static std::string digitsOf(std::string d)
{
    std::string r = "[";
    for (char c : d)
        r += (r.size() > 1 ? "," : "") + std::string(1, c);
    return r + "]";
}
static std::string intOf(long long v)
{
    std::string d = std::to_string(v);
    const bool neg = d[0] == '-';
    return std::string("{\"t\":\"int\",\"neg\":") + (neg ? "true" : "false") + ",\"d\":" + digitsOf(neg ? d.substr(1) : d) + "}";
}
static std::string fltOf(double v)
{
    std::string head = std::string("{\"t\":\"flt\",\"neg\":") + (std::signbit(v) ? "true" : "false") + ",\"m\":";
    if (!std::isfinite(v))
        return head + "-1,\"e\":0}";
    if (v == 0)
        return head + "0,\"e\":0}";
    char b[64];
    snprintf(b, sizeof b, "%.6e", std::fabs(v));
    std::string m = std::string(1, b[0]) + std::string(b + 2, 6);
    return head + m + ",\"e\":" + std::to_string(std::atoi(b + 9)) + "}";
}
static std::string bad(const char* why) { return std::string("{\"t\":\"") + why + "\"}"; }

// the tree as its accessors show it
static std::string walk(Data& d)
{
    const int kinds = d.IsNull() + d.IsObject() + d.IsArray() + d.IsString() + d.IsFloating() + d.IsIntegral() + d.IsBoolean();
    if (kinds != 1)
        return bad("several kinds");
    const JsonClass t = d.GetType();
    if (d.IsNull() != (t == JsonClass::Null) || d.IsObject() != (t == JsonClass::Object) || d.IsArray() != (t == JsonClass::Array) ||
        d.IsString() != (t == JsonClass::String) || d.IsFloating() != (t == JsonClass::Floating) || d.IsIntegral() != (t == JsonClass::Integral) ||
        d.IsBoolean() != (t == JsonClass::Boolean))
        return bad("kind and predicates differ");
    if ((!d.IsString() && !d.GetString().IsEmpty()) || (!d.IsFloating() && d.GetFloating() != 0) || (!d.IsIntegral() && d.GetIntegral() != 0) ||
        (!d.IsBoolean() && d.GetBoolean()))
        return bad("getter of another kind");
    if (!d.IsObject() && !throws([&] { d.GetData(); }))
        return bad("members of another kind");
    const Data& c = d;
    switch (t)
    {
        case JsonClass::Null:
            return "{\"t\":\"null\"}";
        case JsonClass::Boolean:
            return std::string("{\"t\":\"bool\",\"b\":") + (d.GetBoolean() ? "true}" : "false}");
        case JsonClass::Integral:
            return intOf(d.GetIntegral());
        case JsonClass::Floating:
            return fltOf(d.GetFloating());
        case JsonClass::String:
            return "{\"t\":\"str\",\"s\":" + textOf(d.GetString().str()) + "}";
        case JsonClass::Array:
        {
            std::string r = "{\"t\":\"arr\",\"a\":[";
            if (d.Size() != d.Length() || !throws([&] { c.At(d.Size()); }))
                return bad("size");
            for (SizeType k = 0; k < d.Size(); ++k)
            {
                if (&c.At(k) != &d[k])
                    return bad("two elements at one index");
                r += (k ? "," : "") + walk(d[k]);
            }
            return r + "]}";
        }
        case JsonClass::Object:
        {
            std::string k = "[", v = "[";
            if (d.Size() != d.GetData().size() || d.Size() != d.Length())
                return bad("size");
            for (auto& m : d.GetData())
            {
                if (!m.second || !c.HasMember(m.first) || &c.At(m.first) != m.second)
                    return bad("member not found");
                k += (k.size() > 1 ? "," : "") + textOf(m.first.str());
                v += (v.size() > 1 ? "," : "") + walk(*m.second);
            }
            return "{\"t\":\"obj\",\"k\":" + k + "],\"v\":" + v + "]}";
        }
        default:
            return bad("unknown kind");
    }
}

// values of scripts: prefix code, tokens separated by commas
struct Value
{
    char t = 'n';
    std::string s;          // text of scalars
    std::vector<std::string> k;
    std::vector<Value> v;
    std::string echo() const
    {
        switch (t)
        {
            case 'n': return "{\"t\":\"null\"}";
            case 't': return "{\"t\":\"bool\",\"b\":true}";
            case 'f': return "{\"t\":\"bool\",\"b\":false}";
            case 'i': return intOf(std::strtoll(s.c_str(), nullptr, 10));
            case 'd': return fltOf(std::strtod(s.c_str(), nullptr));
            case 's': return "{\"t\":\"str\",\"s\":" + textOf(s) + "}";
            case 'a':
            {
                std::string r = "{\"t\":\"arr\",\"a\":[";
                for (size_t j = 0; j < v.size(); ++j)
                    r += (j ? "," : "") + v[j].echo();
                return r + "]}";
            }
            default:
            {
                std::string a = "[", b = "[";
                for (size_t j = 0; j < v.size(); ++j)
                {
                    a += (j ? "," : "") + textOf(k[j]);
                    b += (j ? "," : "") + v[j].echo();
                }
                return "{\"t\":\"obj\",\"k\":" + a + "],\"v\":" + b + "]}";
            }
        }
    }
};
static Value decodeValue(const std::vector<std::string>& tok, size_t& i)
{
    Value r;
    const std::string x = tok.at(i++);
    r.t = x[0];
    if (r.t == 's')
        r.s = drv::bytes(x);
    else if (r.t == 'i' || r.t == 'd')
        r.s = x.substr(1);
    else if (r.t == 'a' || r.t == 'o')
        for (long n = std::atol(x.c_str() + 1); n > 0; --n)
        {
            if (r.t == 'o')
                r.k.push_back(drv::bytes(tok.at(i++)));
            r.v.push_back(decodeValue(tok, i));
        }
    return r;
}
static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r(1);
    for (char x : s)
        if (x == c)
            r.emplace_back();
        else
            r.back() += x;
    return r;
}
static Value valueOf(const std::string& s)
{
    size_t i = 0;
    return decodeValue(split(s, ','), i);
}

static void assignTo(Data& d, const Value& v, int how);
static Data build(const Value& v, int how)
{
    switch (v.t)
    {
        case 'n': return how % 2 ? Json::MakeNull() : Data();
        case 't': return how % 2 ? Json::MakeBoolean(true) : Data(true);
        case 'f': return how % 2 ? Json::MakeBoolean(false) : Data(false);
        case 'i':
        {
            const long long n = std::strtoll(v.s.c_str(), nullptr, 10);
            if (how % 4 == 0)
                return Json::MakeIntegral(n);
            if (how % 4 == 1 && n >= 0 && n <= 127)
                return Data(static_cast<unsigned char>(n));
            if (how % 4 == 2 && n >= -2147483647 && n <= 2147483647)
                return Data(static_cast<int>(n));
            return Data(static_cast<Int64>(n));
        }
        case 'd':
        {
            const double x = std::strtod(v.s.c_str(), nullptr);
            return how % 3 == 0 ? Json::MakeFloating(static_cast<Float>(x)) : how % 3 == 1 ? Data(x) : Data(static_cast<float>(x));
        }
        case 's':
            return how % 3 == 0 ? Json::MakeString(v.s) : how % 3 == 1 ? Data(v.s) : Data(v.s.c_str());
        case 'a':
        {
            if (how % 5 == 0 && v.v.size() == 2)
                return Json::MakeArray(build(v.v[0], how / 5), build(v.v[1], how / 2));
            Data d = how % 2 ? Json::MakeArray() : Json::Make(JsonClass::Array);
            if (how % 3 == 0)
                for (size_t j = v.v.size(); j-- > 0;)
                    d[j] = build(v.v[j], how / 3);
            else
                for (auto& x : v.v)
                    d.Append(build(x, how / 3));
            return d;
        }
        default:
        {
            Data d = how % 2 ? Json::MakeObject() : Json::Make(JsonClass::Object);
            for (size_t j = 0; j < v.v.size(); ++j)
                if ((how + j) % 3 == 0)
                    d.At(String(v.k[j])) = build(v.v[j], how / 3);
                else if ((how + j) % 3 == 1)
                    d[String(v.k[j])] = build(v.v[j], how / 2);
                else
                    assignTo(d[String(v.k[j])], v.v[j], how / 2);
            return d;
        }
    }
}
static void assignTo(Data& d, const Value& v, int how)
{
    if (how % 2)
    {
        d = build(v, how / 2);
        return;
    }
    switch (v.t)
    {
        case 't': d = true; break;
        case 'f': d = false; break;
        case 'i':
        {
            const long long n = std::strtoll(v.s.c_str(), nullptr, 10);
            if (how % 4 == 0 && n >= -32768 && n <= 32767)
                d = static_cast<short>(n);
            else
                d = static_cast<Int64>(n);
            break;
        }
        case 'd':
            if (how % 4)
                d = std::strtod(v.s.c_str(), nullptr);
            else
                d = static_cast<float>(std::strtod(v.s.c_str(), nullptr));
            break;
        case 's':
            if (how % 4)
                d = v.s;
            else
                d = v.s.c_str();
            break;
        default:
            d = build(v, how / 2);
    }
}

static std::string scratch()
{
    static DRV_TL std::string p = "json-input." + std::to_string(getpid()) + "." + std::to_string(self());
    return p;
}
// documents written in the source
struct Literal
{
    const char* text;
    JsonDocument (*doc)();
};
#define LITERAL(...)                                                                                                   \
    {                                                                                                                  \
        #__VA_ARGS__, [] { return JSON_STRING(__VA_ARGS__); }                                                          \
    }
static const Literal literals[] = {LITERAL({}), LITERAL({"a" : 1}), LITERAL({"b" : [ 1, "x" ], "a" : null}), LITERAL({"a" : {"b" : [ [], {} ]}, "c" : -2.5e1}),
                                   LITERAL({"k" : "x\ty\u00e4\"", "t" : true, "f" : false}), LITERAL({"a" : }), LITERAL([ 1, 2 ]), LITERAL({"a" : 1, }), LITERAL()};

static void parseInto(std::unique_ptr<JsonDocument>& doc, const std::string& s, int how)
{
    if (how == 10)
        for (const Literal& l : literals)
            if (s == l.text)
            {
                *doc = l.doc();
                return;
            }
    switch (how % 10)
    {
        case 0: doc.reset(new JsonDocument(String(s))); break;
        case 1: doc->Parse(String(s)); break;
        case 2: *doc = String(s); break;
        case 3:
        {
            std::istringstream is(s);
            is >> *doc;
            break;
        }
        case 4: *doc = Json::MakeDocument(String(s)); break;
        case 5:
        case 6:
        case 7:
        case 8:
        {
            {
                std::ofstream o(scratch(), std::ios::binary);
                o << s;
            }
            std::ifstream f(scratch(), std::ios::binary);
            if (how % 10 == 5)
                doc->Parse(f);
            else if (how % 10 == 6)
                *doc = f;
            else if (how % 10 == 7)
                doc.reset(new JsonDocument(f));
            else
                f >> *doc;
            f.close();
            unlink(scratch().c_str());
            break;
        }
        default:
        {
            const JsonDocument t{String(s)};
            *doc = Json::MakeDocument(t);
        }
    }
}
static const char* kindName(JsonClass t)
{
    switch (t)
    {
        case JsonClass::Null: return "null";
        case JsonClass::Object: return "obj";
        case JsonClass::Array: return "arr";
        case JsonClass::String: return "str";
        case JsonClass::Floating: return "flt";
        case JsonClass::Integral: return "int";
        case JsonClass::Boolean: return "bool";
        default: return "?";
    }
}

static void parse(const std::string& s, int how)
{
    std::unique_ptr<JsonDocument> doc(new JsonDocument());
    if (how % 3 == 0)
        (*doc)["old"] = 1;
    if (how % 7 == 0)
        doc->Parse(String("{\"old\":"));
    parseInto(doc, s, how);
    Ev e("parse");
    e.text("s", s).b("err", doc->HasError()).b("code", (doc->GetError() != Json::JsonError::NoError) == doc->HasError());
    e.text("msg", doc->GetErrorString().str()).name("t", kindName(doc->GetType()));
    if (!doc->HasError())
    {
        JsonDocument outer(String("{\"r\":" + s + "}"));
        if (outer.HasError())
            e.raw("tree", bad("not accepted as member"));
        else
        {
            Data& r = outer["r"];
            const std::string c = r.ToString().str();
            long depth = 0, most = 0;
            bool in = false;
            for (size_t k = 0; k < c.size(); ++k)
                if (in)
                    c[k] == '\\' ? void(++k) : void(in = c[k] != '"');
                else if (c[k] == '"')
                    in = true;
                else if (c[k] == '[' || c[k] == '{')
                    most = std::max(most, ++depth);
                else if (c[k] == ']' || c[k] == '}')
                    --depth;
            if (most > 80)
                e.raw("tree", "{\"t\":\"deep\"}").text("c", c);      // (TLC reads 255 levels only)
            else
                e.raw("tree", walk(r));
            e.b("same", r.ToString() == doc->ToString() && r.Size() == doc->Size());
        }
    }
    else
        e.raw("tree", "{\"t\":\"none\"}").b("same", true);
    e.emit();
}

static std::string asMember(const String& text)     // parsed by the library again, wrapped in an object
{
    JsonDocument outer(String("{\"r\":" + text.str() + "}"));
    return outer.HasError() ? bad("refused") : walk(outer["r"]);
}
static void print(const Value& v, int width, int how)
{
    std::unique_ptr<JsonDocument> doc(new JsonDocument());
    for (size_t j = 0; j < v.v.size(); ++j)
        if ((how + j) % 2)
            doc->AddMember(String(v.k[j]), build(v.v[j], how));
        else
            assignTo((*doc)[String(v.k[j])], v.v[j], how);
    const String c = doc->ToString(), ind = doc->ToString(true, width), def = doc->ToString(true);
    std::ostringstream os, os2;
    os << *doc;
    os2.width(0);
    const JsonDocument copy(*doc);
    os2 << copy;
    Ev e("print");
    e.raw("v", v.echo()).i("w", width).text("c", c.str()).text("ind", ind.str()).text("def", def.str()).text("st", os.str());
    e.b("same", os.str() == os2.str() && c == copy.ToString(false) && c == doc->ToString(false, width));
    e.raw("back", asMember(c)).raw("backind", asMember(ind));
    std::string sub = "[", subi = "[";
    for (size_t j = 0; j < v.v.size(); ++j)
    {
        sub += (j ? "," : "") + textOf((*doc)[String(v.k[j])].ToString().str());
        subi += (j ? "," : "") + textOf((*doc)[String(v.k[j])].ToString(true, width).str());
    }
    e.raw("sub", sub + "]").raw("subi", subi + "]").emit();
}

// ---- histories -------------------------------------------------------------------------------------------------
enum { Docs = 3, Vars = 2 };
struct Place
{
    int p = 0;
    std::vector<std::string> path;
    std::string s;
    explicit Place(const std::string& t)
    {
        path = split(t, '/');
        p = std::atoi(path[0].c_str());
        path.erase(path.begin());
    }
    std::string echo() const
    {
        std::string r = "{\"p\":" + std::to_string(p) + ",\"path\":[";
        for (size_t j = 0; j < path.size(); ++j)
            r += std::string(j ? "," : "") + (path[j][0] == 'k' ? "{\"k\":" + textOf(drv::bytes(path[j])) + "}" : "{\"n\":" + path[j].substr(1) + "}");
        return r + "]}";
    }
    bool strictlyInside(const Place& o) const
    {
        return p == o.p && path.size() > o.path.size() && std::equal(o.path.begin(), o.path.end(), path.begin());
    }
};
struct World
{
    std::unique_ptr<JsonDocument> doc[Docs + 1];
    std::unique_ptr<Data> var[Vars + 1];
};
static Data& ref(World& w, const Place& l, int how)
{
    size_t j = 0;
    Data* d;
    if (l.p <= Docs)
    {
        d = &(*w.doc[l.p])[String(drv::bytes(l.path.at(0)))];
        j = 1;
    }
    else
        d = w.var[l.p - Docs].get();
    for (; j < l.path.size(); ++j)
    {
        if (l.path[j][0] == 'k')
            d = how % 2 ? &(*d)[String(drv::bytes(l.path[j]))] : &d->At(String(drv::bytes(l.path[j])));
        else
        {
            const SizeType n = std::atol(l.path[j].c_str() + 1);
            d = how % 2 ? &(*d)[n] : &d->At(n);
        }
    }
    return *d;
}
static const Data& cref(const World& w, const Place& l)
{
    size_t j = 0;
    const Data* d;
    if (l.p <= Docs)
    {
        const JsonDocument& c = *w.doc[l.p];
        d = &c[String(drv::bytes(l.path.at(0)))];
        j = 1;
    }
    else
        d = w.var[l.p - Docs].get();
    for (; j < l.path.size(); ++j)
        if (l.path[j][0] == 'k')
            d = &d->At(String(drv::bytes(l.path[j])));
        else
            d = &d->At(static_cast<SizeType>(std::atol(l.path[j].c_str() + 1)));
    return *d;
}
static const char* Universe[] = {"", "a", "b", "k\"\\\n", "\xC3\xA9\xF0\x9F\x98\x80"};

static void observe(World& w, Ev& e)
{
    std::string d = "[", v = "[";
    for (int k = 1; k <= Docs; ++k)
    {
        JsonDocument& x = *w.doc[k];
        const JsonDocument& c = x;
        Ev o("doc");
        o.b("err", x.HasError()).b("code", (x.GetError() != Json::JsonError::NoError) == x.HasError()).text("msg", x.GetErrorString().str());
        if (!agree([&] {
                std::ostringstream s;
                s << c;
                const JsonDocument copy(c);
                std::string r = c.ToString().str() + s.str() + kindName(c.GetType()) + (copy.ToString() == c.ToString() ? "=" : "#") + (c.HasError() ? "e" : "-") + c.GetErrorString().str();
                for (const char* u : Universe)
                    if (c.HasMember(String(u)))
                        r += kindName(c[String(u)].GetType());
                return r;
            }))
            std::abort();   // threads see different things
        o.name("t", kindName(x.GetType())).i("size", x.GetType() == JsonClass::Object ? static_cast<long>(x.Size()) : -1).text("text", x.ToString().str());
        std::string m = "[";
        for (const char* u : Universe)
        {
            const bool has = c.HasMember(String(u));
            bool got = false;
            throws([&] { got = c[String(u)].GetType() == c[String(u)].GetType(); });
            m += (m.size() > 1 ? "," : "") + std::string("{\"k\":") + textOf(u) + ",\"has\":" + (has ? "true" : "false") + ",\"got\":" + (got ? "true" : "false") +
                 ",\"v\":" + (has ? walk(x[String(u)]) : "{\"t\":\"none\"}") + "}";
        }
        o.raw("mem", m + "]");
        d += (k > 1 ? "," : "") + o.s + "}";
    }
    for (int k = 1; k <= Vars; ++k)
        v += (k > 1 ? "," : "") + walk(*w.var[k]);
    e.raw("docs", d + "]").raw("vars", v + "]");
}

static long tree(const std::vector<Op>& ops)
{
    const long base = live_blocks;
    {
        World w;
        for (int k = 1; k <= Docs; ++k)
            w.doc[k].reset(new JsonDocument());
        for (int k = 1; k <= Vars; ++k)
            w.var[k].reset(new Data());
        for (const Op& op : ops)
        {
            const std::string name = op.name.substr(0, op.name.find('.'));
            const int how = op.name.size() > name.size() ? std::atoi(op.name.c_str() + name.size() + 1) : 0;
            if (name == "end")
                break;
            Ev e(name);
            bool ex = false;
            if (name == "copydoc" || name == "movedoc" || name == "clear" || name == "parse")
            {
                const long d = op.n(0);
                e.i("d", d);
                if (name == "clear")
                {
                    if (how % 2)
                        w.doc[d].reset(new JsonDocument());
                    else
                        *w.doc[d] = Json::MakeDocument();
                }
                else if (name == "parse")
                {
                    const std::string s = how == 10 ? literals[op.n(1)].text : drv::bytes(op.s(1));
                    e.text("s", s);
                    parseInto(w.doc[d], s, how);
                }
                else
                {
                    const long s = op.n(1);
                    e.i("s", s);
                    if (name == "copydoc")
                    {
                        if (how % 3 == 0)
                            *w.doc[d] = *w.doc[s];
                        else if (how % 3 == 1)
                        {
                            std::unique_ptr<JsonDocument> t(new JsonDocument(*w.doc[s]));
                            w.doc[d] = std::move(t);
                        }
                        else
                            *w.doc[d] = Json::MakeDocument(static_cast<const JsonDocument&>(*w.doc[s]));
                    }
                    else
                    {
                        if (d == s || how % 3 == 0)
                            *w.doc[d] = std::move(*w.doc[s]);
                        else if (how % 3 == 1)
                            w.doc[d].reset(new JsonDocument(std::move(*w.doc[s])));
                        else
                            *w.doc[d] = Json::MakeDocument(std::move(*w.doc[s]));
                    }
                }
            }
            else if (name == "remove" || name == "add" || name == "addfrom")
            {
                const long d = op.n(0);
                const std::string key = drv::bytes(op.s(1));
                e.i("d", d).text("k", key);
                if (name == "remove")
                    w.doc[d]->RemoveMember(String(key));
                else if (name == "add")
                {
                    const Value v = valueOf(op.s(2));
                    e.raw("v", v.echo());
                    w.doc[d]->AddMember(String(key), build(v, how));
                }
                else
                {
                    const Place s(op.s(2));
                    e.raw("s", s.echo());
                    ex = throws([&] { w.doc[d]->AddMember(String(key), cref(w, s)); });
                }
            }
            else
            {
                const Place d(op.s(0));
                e.raw("d", d.echo());
                if (name == "set")
                {
                    const Value v = valueOf(op.s(1));
                    e.raw("v", v.echo());
                    assignTo(ref(w, d, how), v, how / 2);
                }
                else if (name == "append")
                {
                    const Value v = valueOf(op.s(1));
                    e.raw("v", v.echo());
                    Data& x = ref(w, d, how);
                    if (v.t == 'i' && how % 2)
                        x.Append(static_cast<Int64>(std::strtoll(v.s.c_str(), nullptr, 10)));
                    else if (v.t == 's' && how % 2)
                        x.Append(v.s.c_str());
                    else if (v.t == 't')
                        x.Append(true);
                    else
                        x.Append(build(v, how / 2));
                }
                else if (name == "append2")
                {
                    const Value v = valueOf(op.s(1)), u = valueOf(op.s(2));
                    e.raw("v", v.echo()).raw("u", u.echo());
                    ref(w, d, how).Append(build(v, how / 2), build(u, how / 3));
                }
                else if (name == "touch")
                    ref(w, d, how);
                else if (name == "at")
                {
                    std::string got = "{\"t\":\"none\"}";
                    ex = throws([&] { const Data copy = cref(w, d); Data again; again = copy; got = walk(again); });
                    e.raw("v", got);
                }
                else
                {
                    const Place s(op.s(1));
                    e.raw("s", s.echo());
                    if (name == "move" && d.strictlyInside(s))
                        continue;
                    Data& x = ref(w, d, how);
                    ex = throws([&] {
                        const Data& y = cref(w, s);
                        if (name == "assign")
                        {
                            if (how % 4 == 3)
                            {
                                const Data t(y);
                                x = t;
                            }
                            else
                                x = y;
                        }
                        else if (name == "appendfrom")
                            x.Append(y);
                        else if (name == "move")
                        {
                            if (how % 4 == 3)
                            {
                                Data t(std::move(const_cast<Data&>(y)));
                                if (&x == &y)
                                    x = t;
                                else
                                    x = std::move(t);
                            }
                            else
                                x = std::move(const_cast<Data&>(y));
                        }
                        else
                            std::abort();
                    });
                }
            }
            e.b("ex", ex);
            observe(w, e);
            e.emit();
        }
    }
    return live_blocks - base;
}

int main(int argc, char** argv)
{
    {   // anything the library allocates once
        JsonDocument d(String("{\"a\":[1,1.5,\"x\\n\",true,null,{}]}"));
        d.ToString(true);
        JsonDocument f(String("{"));
        f.GetErrorString();
        std::ostringstream os;
        os << d;
    }
    return main_loop(argc, argv, [](const std::vector<Op>& ops) {
        if (ops.empty())
            return;
        const std::string first = ops[0].name.substr(0, ops[0].name.find('.'));
        if (first == "text" || first == "print")
            for (const Op& op : ops)
            {
                const size_t dot = op.name.find('.');
                const int how = dot == std::string::npos ? 0 : std::atoi(op.name.c_str() + dot + 1);
                if (op.name.substr(0, dot) == "text")
                    parse(drv::bytes(op.s(0)), how);
                else
                    print(valueOf(op.s(1)), op.n(0), how);
            }
        else
        {
            long blocks = tree(ops);
            if (blocks != 0)
            {   // perhaps something allocated once and for all: measure again
                FILE* const log = out();
                out() = fopen("/dev/null", "w");
                blocks = tree(ops);
                fclose(out());
                out() = log;
            }
            Ev("end").i("blocks", blocks).emit();
        }
    });
}
