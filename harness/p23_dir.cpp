// P23: output_directory_validator.
// @bounds directory name of 1..3 (thorough 5) arbitrary bytes without '/', optionally below another directory, optionally with a trailing slash; the path is missing, inaccessible, a file, an empty or non-empty directory (writable or not) that may already contain dummy.txt, dummy0.txt, dummy1.txt, a file and a subdirectory with a file; its parent is missing, a file, writable or not; the OS may refuse to remove the probe, to remove directories, or create new directories without write permission; neighbours whose names extend the directory's name
// @assume the file system is an in-memory model without symbolic links (harness/env.h, fsmodel.h)
// @cover created, existing, with-dummies, file, inaccessible, no-parent, no-permission, refused, restricted, list
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
extern "C" void harness_main()
{
    env_begin(env);
    static std::string base = any(1, 3 + 2 * VP_TIER);
    for (char c : base)
        sym_assume(c != '/');
    sym_assume(base != "." && base != "..");
    bool below = sym_choice(2);
    unsigned parent = below ? sym_choice(4) : 3; // 0 missing, 1 a file, 2 not writable, 3 writable
    if (below && parent)
        add_node("out", parent == 1 ? 'f' : 'd', true, parent == 3);
    static std::string path;
    path = (below ? "out/" : "") + base;
    // 0 missing, 1 inaccessible, 2 file, 3 directory, 4 write-protected directory
    static unsigned kind;
    kind = parent < 2 ? 0 : sym_choice(5);
    if (kind >= 2)
        add_node(path, kind == 2 ? 'f' : 'd', true, kind != 4);
    unsigned content = kind >= 3 ? sym_choice(5) : 0;
    if (content >= 1)
        add_node(path + "/dummy.txt", 'f', true, true, "mine");
    if (content == 2 || content == 3)
        add_node(path + "/dummy0.txt", 'd');
    if (content == 3)
        add_node(path + "/dummy1.txt", 'f', true, true, "mine too");
    if (content == 4)
    {
        add_node(path + "/sub", 'd');
        add_node(path + "/sub/f", 'f', true, true, "inner");
        add_node(path + "/dummy1.txt", 'f', true, true, "inner");
    }
    if (below && parent > 1 && sym_choice(2))
    {
        add_node(path + "0", 'd');
        add_node(path + "0/dummy.txt", 'f', true, true, "n");
        add_node("out/dummy.txt", 'f', true, true, "n");
    }
    resolve = [](char const * p)
    {
        size_t n = path.size();
        return kind == 1 && !strncmp(path.c_str(), p, n) && (p[n] == 0 || p[n] == '/') ? -2 : find_node(p);
    };
    unsigned refuse = sym_choice(4); // 1 removal of files, 2 of directories, 3 new directories are write-protected
    env.unlink_fails = refuse == 1;
    env.rmdir_fails = refuse == 2;
    env.mkdir_protected = refuse == 3;
    bool slash = kind != 2 && refuse == 0 && sym_choice(2);
    std::vector<inode> before = env.nodes;
    bool reach = parent == 3 || (kind >= 2 && parent == 2);
    bool ok = reach && (kind == 0 || kind == 3) && refuse != 1 && !(refuse && kind == 0);
    std::string given = path + (slash ? "/" : "");
    note("path [" + given + "] kind " + std::to_string(kind) + " parent " + std::to_string(parent) + " content " + std::to_string(content) + " refuse " + std::to_string(refuse));
    static std::filesystem::path fp{given};
    sharg::output_directory_validator v{};
    bool list = refuse == 0 && !below && sym_choice(2);
    int o;
    if (list)
    {
        std::vector<std::filesystem::path> l{fp, fp};
        o = classify([&] { v(l); });
    }
    else
        o = classify([&] { v(fp); });
    sym_observe(o);
    sym_assert(o == (ok ? OK : VALIDATION), "accepted exactly if it is a writable directory or can be created");
    bool same = true, left = false;
    for (size_t i = 0; i < env.nodes.size(); ++i)
    {
        inode const & n = env.nodes[i];
        if (i >= before.size())
            left = left || n.kind != '-';
        else
            same = same && n.kind == before[i].kind && n.truncated == 0 && n.data == before[i].data;
    }
    sym_assert(same, "existing entries survive validation with their content");
    sym_assert(!left || refuse == 1 || refuse == 2, "validation leaves no new entry behind");
    sym_cover(o == OK ? (kind == 0 ? "created" : content ? "with-dummies" : "existing") : kind == 2 ? "file" : kind == 1 ? "inaccessible" : parent < 2 ? "no-parent"
              : !reach || kind == 4 ? "no-permission" : refuse == 3 ? "restricted" : "refused");
    if (list && o == OK)
        sym_cover("list");
    sym_end();
}
