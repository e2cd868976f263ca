// Histories of File objects on two paths in a scratch directory (the working directory of the driver).
#include "driver.h"
#include <memory>
#include <sys/stat.h>
#include "Caitlyn/__Core/File.h"
#include "Caitlyn/__Core/String.h"
using namespace Caitlyn;
using namespace drv;

enum { Paths = 2, Objects = 3 };
static DRV_TL const char* names[Paths] = {"first.txt", "zweite \xC3\xA4.txt"};
static DRV_TL std::string own[Paths];

struct WithStr
{
    std::string t;
    std::string str() const { return t; }
};
struct WithToString
{
    std::string t;
    std::string to_string() const { return t; }
};
struct WithCapital
{
    std::string t;
    String ToString() const { return String(t.c_str()); }
};

static std::string slurp(const char* name)
{
    FILE* f = fopen(name, "rb");
    if (!f)
        return "[-1]";
    std::string r = "[";
    int ch;
    while ((ch = fgetc(f)) != EOF)
        r += (r.size() > 1 ? "," : "") + std::to_string(ch);
    fclose(f);
    return r + "]";
}
static std::string braces(const std::string& s)
{
    std::string r;
    for (char ch : s)
        r += ch == '{' || ch == '}' ? std::string(2, ch) : std::string(1, ch);
    return r;
}
// characters of the text before which it can be split
static size_t cut(const std::string& s)
{
    size_t k = s.size() / 2;
    while (k > 0 && (static_cast<unsigned char>(s[k]) & 0xC0) == 0x80)
        --k;
    return k;
}

#define PUT(Fn)                                                                                                        \
    static void put##Fn(File& f, const std::string& x, int how)                                                        \
    {                                                                                                                  \
        const std::string a = x.substr(0, cut(x)), b = x.substr(cut(x));                                               \
        switch (how % 8)                                                                                               \
        {                                                                                                              \
            case 0: f.Fn(x.c_str()); break;                                                                            \
            case 1: f.Fn(String(x.c_str())); break;                                                                    \
            case 2: f.Fn(WithStr{x}); break;                                                                           \
            case 3: f.Fn(WithToString{x}); break;                                                                      \
            case 4: f.Fn(WithCapital{x}); break;                                                                       \
            case 5: f.Fn(String("{}{}"), String(a.c_str()), String(b.c_str())); break;                                 \
            case 6: f.Fn(String((braces(a) + "{}").c_str()), b.c_str()); break;                                        \
            default: f.Fn(String((std::string("{1}") + "{0}").c_str()), b, a); break;                                  \
        }                                                                                                              \
    }
PUT(Write)
PUT(WriteLine)
PUT(Append)
PUT(AppendLine)

static File* make(const std::string& name, int how)
{
    switch (how % 5)
    {
        case 0: return new File(String(name.c_str()));
        case 3: return new File(MakeFile(String(name.c_str())));
        case 4: return new File(operator""_file(name.c_str(), name.size()));
        case 1: return new File(String("{}{}"), String(name.substr(0, 2).c_str()), String(name.substr(2).c_str()));
        default: return new File{name.c_str()};
    }
}

static void run(const std::vector<Op>& ops)
{
    std::unique_ptr<File> obj[Objects];
    for (int k = 0; k < Paths && self() && own[k].empty(); ++k)    // every thread has files of its own
        names[k] = (own[k] = std::to_string(self()) + names[k]).c_str();
    for (const char* n : names)
        unlink(n);
    for (const Op& op : ops)
    {
        const std::string name = op.name.substr(0, op.name.find('.'));
        const int how = op.name.size() > name.size() ? std::atoi(op.name.c_str() + name.size() + 1) : 0;
        // name o v x
        const long o = op.n(0), v = op.n(1);
        const std::string x = op.a.size() > 2 ? bytes(op.s(2)) : std::string();
        std::unique_ptr<File>& f = obj[o - 1];
        static DRV_TL bool open[Objects];
        static DRV_TL long path[Objects];
        if (&op == &ops[0])
            for (bool& b : open)
                b = false;
        bool fine = true;
        if (name == "make")
            fine = !f;
        else if (name == "copy")
            fine = !f && obj[v - 1];
        else if (name == "setPos")
            fine = f && open[o - 1];
        else if (name == "prefill" || name == "vanish")
        {
            for (int k = 0; k < Objects; ++k)
                fine = fine && !(obj[k] && open[k] && path[k] == v);
        }
        else if (name != "refuse")
            fine = f != nullptr;
        if (!fine)
        {
            Ev("skip").raw("e", "{\"op\":\"" + name + "\",\"o\":" + std::to_string(o) + ",\"b\":" + std::to_string(v) + ",\"p\":" + std::to_string(v) + "}").emit();
            continue;
        }
        Ev ev(name);
        ev.i("o", o);
        std::string res;
        bool ex = false;
        try
        {
            if (name == "make")
            {
                ev.i("p", v);
                f.reset(make(names[v - 1], how));
            }
            else if (name == "copy")
            {
                ev.i("b", v);
                f.reset(new File(static_cast<const File&>(*obj[v - 1])));
            }
            else if (name == "refuse")
            {
                static const char* const bad[] = {"", "sub", "missing/x.txt", "first.txt/x", ".", "sub/", "missing/missing/x"};
                if (v == 3)
                    fclose(fopen("other.txt", "ab"));
                if (how % 2)
                    File g{String(v == 3 ? "other.txt/x" : bad[v])};
                else
                    std::unique_ptr<File>(make(v == 3 ? "other.txt/x" : bad[v], how));
            }
            else if (name == "prefill")
            {
                ev.i("p", v).bytes("x", x);
                FILE* g = fopen(names[v - 1], "wb");
                fwrite(x.data(), 1, x.size(), g);
                fclose(g);
            }
            else if (name == "vanish")
            {
                ev.i("p", v);
                unlink(names[v - 1]);
            }
            else if (name == "del")
                f.reset();
            else if (name == "open")
                f->Open();
            else if (name == "close")
                f->Close();
            else if (name == "erase")
                f->Erase();
            else if (name == "write" || name == "writeLine" || name == "append" || name == "appendLine")
            {
                ev.bytes("x", x);
                if (name == "write")
                    putWrite(*f, x, how);
                else if (name == "writeLine")
                    putWriteLine(*f, x, how);
                else if (name == "append")
                    putAppend(*f, x, how);
                else
                    putAppendLine(*f, x, how);
            }
            else if (name == "read")
                res = f->Read().str();
            else if (name == "readLine")
            {
                ev.i("delim", v);
                res = v == 10 && how % 2 ? f->ReadLine().str() : f->ReadLine(static_cast<char>(v)).str();
            }
            else if (name == "setPos")
            {
                ev.i("pos", v);
                f->SetPosition(v);
            }
        }
        catch (const std::exception&)
        {
            ex = true;
        }
        if (name == "close" || name == "del")
            open[o - 1] = false;
        else if (name != "refuse" && name != "prefill" && name != "vanish")
            open[o - 1] = f != nullptr;
        if (name == "make")
            path[o - 1] = v;
        else if (name == "copy")
            path[o - 1] = path[v - 1];
        std::string os = "[", ds = "[";
        for (int k = 0; k < Objects; ++k)
        {
            os += k ? ",[" : "[";
            if (obj[k])
                os += std::to_string(static_cast<long>(static_cast<std::streamoff>(obj[k]->GetPosition()))) + "," + std::to_string(obj[k]->IsEof()) + "," +
                      std::to_string(*obj[k] ? 1 : 0);
            os += "]";
        }
        for (int k = 0; k < Paths; ++k)
            ds += (k ? "," : "") + slurp(names[k]);
        ev.b("ex", ex).bytes("res", res).raw("disk", ds + "]").raw("objs", os + "]").emit();
    }
}

int main(int argc, char** argv)
{
    mkdir("sub", 0700);
    return main_loop(argc, argv, run);
}
