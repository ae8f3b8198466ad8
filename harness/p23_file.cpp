// P23: output_file_validator.
// @bounds file name of 1..3 (thorough 5) arbitrary bytes without '/', alone, with ".txt" appended, or below a directory; modes create_new, open_or_create, default; extension sets none, {txt}, one arbitrary extension of 1..2 bytes; the target is missing, inaccessible, a regular file (writable or not), a directory (empty or not) or a FIFO; its directory is missing, a file, not writable or writable; a neighbour whose name extends the target's name or is a prefix of it; the OS may refuse to remove the probe
// @assume the file system is an in-memory model without symbolic links (harness/env.h, fsmodel.h); tolower is that of the "C" locale
// @cover created-new, reused, exists, bad-extension, directory, no-parent, no-permission, inaccessible, remove-refused, fifo, list
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
static char lower(char c)
{
    return (c >= 'A') & (c <= 'Z') ? c + 32 : c;
}
static bool ends(std::string const & s, std::string e) // ends with `.ext` in whatever case
{
    if (!e.empty() && e[0] != '.')
        e = "." + e;
    if (e.size() > s.size())
        return false;
    bool r = true;
    for (size_t i = 0; i < e.size(); ++i)
        r = r & (lower(s[s.size() - e.size() + i]) == lower(e[i]));
    return r;
}
extern "C" void harness_main()
{
    env_begin(env);
    static std::string base = any(1, 3 + 2 * VP_TIER);
    for (char c : base)
        sym_assume(c != '/');
    sym_assume(base != "." && base != "..");
    unsigned form = sym_choice(3);
    std::string name = base;
    if (form == 1)
        name += ".txt";
    static std::string dir;
    unsigned parent = form == 2 ? sym_choice(4) : 3; // 0 missing, 1 a file, 2 not writable, 3 writable
    if (form == 2)
    {
        dir = "out/";
        if (parent)
            add_node("out", parent == 1 ? 'f' : 'd', true, parent == 3);
    }
    static std::string path;
    path = dir + name;
    // the target: 0 missing, 1 inaccessible, 2 writable file, 3 write-protected file, 4 directory, 5 directory with content, 6 fifo
    static unsigned kind;
    kind = parent == 0 || parent == 1 ? 0 : sym_choice(7);
    int target = -1;
    if (kind >= 2)
        target = add_node(path, kind <= 3 ? 'f' : kind <= 5 ? 'd' : 'p', true, kind != 3, kind <= 3 ? "data" : "");
    if (kind == 5)
        add_node(path + "/f", 'f', true, true, "inner");
    if (form != 0 && kind != 5 && parent > 1 && sym_choice(2)) // neighbours
    {
        add_node(path + ".txt", 'f', true, true, "n1");
        add_node(path + "0", 'd', true, true);
    }
    resolve = [](char const * p) { return kind == 1 && path == p ? -2 : find_node(p); };
    static std::vector<std::string> exts;
    unsigned es = sym_choice(3);
    if (es == 1)
        exts = {"txt"};
    else if (es == 2)
        exts = {any(1, 2)};
    static unsigned mode;
    mode = sym_choice(3); // create_new, open_or_create, default
    env.unlink_fails = es == 0 && form == 1 && sym_choice(2);
    std::vector<inode> before = env.nodes;
    // oracle
    std::string stem = name;
    if (stem[0] == '.')
        stem.erase(0, 1);
    bool has_ext = stem.find('.') != std::string::npos;
    bool ok_ext = exts.empty();
    for (auto & e : exts)
        ok_ext = ok_ext | (has_ext && ends(stem, e));
    bool ok = parent == 3 && ok_ext && (kind == 0 || (mode == 1 && (kind == 2 || kind == 6))) && !env.unlink_fails;
    note("path [" + path + "] kind " + std::to_string(kind) + " parent " + std::to_string(parent) + " mode " + std::to_string(mode));
    static std::filesystem::path fp{path};
    using m = sharg::output_file_open_options;
    auto go = [&](sharg::output_file_validator v, bool list)
    {
        if (!list)
            return classify([&] { v(fp); });
        std::vector<std::filesystem::path> l{fp};
        return classify([&] { v(l); });
    };
    bool list = es == 1 && form == 1 && sym_choice(2);
    int o = mode == 0 ? go(sharg::output_file_validator{m::create_new, exts}, list)
          : mode == 1 ? go(sharg::output_file_validator{m::open_or_create, exts}, list)
                      : go(sharg::output_file_validator{exts}, list);
    sym_observe(o);
    bool lost = ok && target >= 0 && env.nodes[target].kind == '-';
    if (lost)
        sym_finding("open-or-create-deletes"); // the accepted existing file is gone
    if (kind == 6 && mode == 1 && parent == 3 && ok_ext && !env.unlink_fails)
        sym_end(); // what to do with an existing FIFO is not specified
    sym_assert(o == (ok ? OK : VALIDATION), "accepted exactly if mode, extension and permissions allow it");
    // the file system is as before
    if (!env.unlink_fails)
    {
        bool same = true;
        for (size_t i = 0; i < env.nodes.size(); ++i)
        {
            inode const & n = env.nodes[i];
            if (i >= before.size())
                same = same && n.kind == '-';
            else if (!lost || (int)i != target)
                same = same && n.kind == before[i].kind && n.truncated == 0 && n.data == before[i].data;
        }
        sym_assert(same, "validation leaves the file system as it was");
    }
    else // the probe cannot be removed: only what existed before matters
        for (size_t i = 0; i < before.size(); ++i)
            sym_assert(env.nodes[i].kind == before[i].kind && !env.nodes[i].truncated && env.nodes[i].data == before[i].data, "existing entries survive");
    sym_cover(o == OK ? (kind == 0 ? "created-new" : "reused") : env.unlink_fails ? "remove-refused" : parent < 2 ? "no-parent" : kind == 1 ? "inaccessible" : kind == 4 || kind == 5 ? "directory"
              : kind == 6 ? "fifo" : kind >= 2 && mode != 1 ? "exists" : !ok_ext ? "bad-extension" : "no-permission");
    if (list && o == OK)
        sym_cover("list");
    sym_end();
}
