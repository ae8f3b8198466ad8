// P22: input_file_validator.
// @bounds one path of 0..6 (thorough 0..8) arbitrary non-NUL bytes (also with slashes and dots) or of 0..4 (6) bytes behind "d/." or "d.txt/"; 9 extension sets (none; one arbitrary extension of 1..2 bytes; one; upper case; with and without leading dot; two, one a suffix of the other; double extension; empty extension); the path is missing, inaccessible, a regular file (readable or not), a directory (readable or not) or a FIFO
// @assume the file system is an in-memory model (harness/env.h, fsmodel.h); tolower is that of the "C" locale
// @cover accept, accept-any, reject-ext, missing, inaccessible, unreadable, directory, unreadable-directory, fifo, case, hidden-only, wrong-boundary
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
static int kind;
static char lower(char c)
{
    return (c >= 'A') & (c <= 'Z') ? c + 32 : c;
}
// ends with `.ext` in whatever case
static bool ends(std::string const & s, std::string e)
{
    if (!e.empty() && e[0] != '.')
        e = "." + e;
    if (e.size() > s.size())
        return false;
    bool r = true;
    for (size_t i = 0; i < e.size(); ++i)
        r = r & (lower(s[s.size() - e.size() + i]) == lower(e[i]));
    return r;
}
static bool same(std::string const & s, std::string e)
{
    if (!e.empty() && e[0] != '.')
        e = "." + e;
    return e.size() > s.size() || memcmp(s.data() + s.size() - e.size(), e.data(), e.size()) == 0;
}
extern "C" void harness_main()
{
    env_begin(env);
    static std::string name;
    if (unsigned c = sym_choice(3); c >= 1)
        name = c == 1 ? "d/." : "d.txt/";
    name += any(0, (name.empty() ? 6 : 4) + 2 * VP_TIER);
    static std::vector<std::vector<std::string>> sets{{}, {"txt"}, {".TXT"}, {"gz", "t"}, {"tar.gz"}, {"a", "b.a"}, {"Ab"}, {"x", ""}};
    kind = sym_choice(7);
    unsigned k = kind == 2 ? sym_choice(9) : sym_choice(2);
    if (k == 8) // an arbitrary extension
        sets.push_back({any(1, 2)});
    auto const & exts = sets[k]; // 0 missing, 1 inaccessible, 2 file, 3 unreadable file, 4 directory, 5 unreadable directory, 6 fifo
    if (kind >= 2)
        add_node("target", kind <= 3 ? 'f' : kind <= 5 ? 'd' : 'p', kind != 3 && kind != 5);
    resolve = [](char const *) { return kind == 0 ? -1 : kind == 1 ? -2 : (int)env.nodes.size() - 1; };
    size_t before = env.nodes.size();
    // the file name and its extensions
    size_t b = name.rfind('/');
    std::string fn = b == std::string::npos ? name : name.substr(b + 1);
    bool ok = exts.empty();
    bool empty_ext = false;
    for (auto & e : exts)
        empty_ext = empty_ext | e.empty();
    std::string stem = fn;
    if (!stem.empty() && stem[0] == '.')
        stem.erase(0, 1);
    bool has_ext = stem.find('.') != std::string::npos && fn != "..";
    bool cased = false, boundary = false;
    if (!exts.empty() && has_ext)
        for (auto & e : exts)
        {
            if (ends(stem, e))
            {
                ok = true;
                cased = cased | !same(stem, e);
            }
            else if (!e.empty() && e[0] != '.' && stem.size() > e.size() && ends("." + stem.substr(stem.size() - e.size()), e))
                boundary = true;
        }
    note("path [" + name + "] set " + std::to_string(k) + " kind " + std::to_string(kind));
    static std::filesystem::path path{name};
    int o;
    if (k != 1 || sym_choice(2))
    {
        sharg::input_file_validator v{exts};
        o = classify([&] { v(path); });
    }
    else // as an element of a list
    {
        std::vector<std::filesystem::path> l{path};
        sharg::input_file_validator v{exts};
        o = classify([&] { v(l); });
    }
    bool want = kind == 2 && ok;
    sym_assert(o == (want ? OK : VALIDATION), "accepted exactly if it is a readable regular file with an allowed extension");
    bool same_fs = env.nodes.size() == before && !env.destructive;
    for (auto & n : env.nodes)
        same_fs = same_fs && !n.truncated;
    sym_assert(same_fs, "the file system is left unchanged");
    sym_cover(want ? exts.empty() ? "accept-any" : "accept" : kind == 2 ? "reject-ext" : kind == 0 ? "missing" : kind == 1 ? "inaccessible" : kind == 3 ? "unreadable" : kind == 4 ? "directory" : kind == 5 ? "unreadable-directory" : "fifo");
    if (want && cased)
        sym_cover("case");
    if (boundary && !ok)
        sym_cover("wrong-boundary");
    if (kind == 2 && fn.size() > 1 && fn[0] == '.' && !has_ext && !exts.empty())
        sym_cover("hidden-only");
    sym_end();
}
