// P31: safe_filesystem_entry and symbolic links.
// @bounds a guarded path that is a symbolic link with a name of 1..2 (thorough 3) arbitrary bytes (in the working directory or below a directory, itself possibly reached through a link), to a file, an empty directory, a directory tree or to nothing, directly or through another link; or a directory tree that contains links to a file and to a directory outside; ended by scope exit, an exception, remove, remove_no_throw, remove_all or after a move
// @assume the file system is an in-memory model (harness/env.h, fsmodel.h)
// @cover link, dangling, tree, through-directory-link, remove, no-throw, remove-all, exception, moved
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
#include <optional>
using namespace vp;
static env_state env;
extern "C" void harness_main()
{
    env_begin(env);
    static std::string base = any(1, 2 + VP_TIER);
    for (char c : base)
        sym_assume(c != '/');
    sym_assume(base != "." && base != "..");
    // the guarded entry: in the working directory, below a directory, below a link to that directory
    unsigned place = sym_choice(3);
    std::string dir = place ? "out/" : "";
    if (place)
        add_node("out", 'd');
    if (place == 2)
        add_node("via", 'l', true, true, "out");
    // what it leads to: 0 file, 1 empty directory, 2 tree, 3 nothing; 4: not a link, but a tree with links
    unsigned kind = sym_choice(5);
    std::string goal = dir + "goal", link = dir + base;
    if (kind != 3)
        add_node(goal, kind == 0 ? 'f' : 'd', true, true, kind == 0 ? "data" : "");
    if (kind == 2 || kind == 4)
    {
        add_node(goal + "/f", 'f', true, true, "1");
        add_node(goal + "/sub", 'd');
        add_node(goal + "/sub/g", 'f', true, true, "2");
    }
    std::string leads = "goal";
    if (sym_choice(2))
    {
        add_node(dir + "second", 'l', true, true, leads);
        leads = "second";
    }
    size_t own = env.nodes.size();
    if (kind == 4)
    {
        add_node(link, 'd');
        add_node(link + "/d", 'l', true, true, "../" + leads);
        add_node(link + "/f", 'l', true, true, "../goal/f");
        add_node(link + "/n", 'l', true, true, "none");
        add_node(link + "/own", 'f', true, true, "own");
    }
    else
        add_node(link, 'l', true, true, leads);
    std::vector<inode> before = env.nodes;
    static std::string path;
    path = (place == 2 ? "via/" : dir) + base;
    unsigned end = sym_choice(6); // scope, exception, remove, remove_no_throw, remove_all, move
    note("path [" + path + "] kind " + std::to_string(kind) + " end " + std::to_string(end));
    bool wrong = false;
    int o = classify(
        [&]
        {
            std::optional<sharg::detail::safe_filesystem_entry> keep;
            sharg::detail::safe_filesystem_entry g{std::filesystem::path{path}};
            if (end == 1)
                throw 7;
            if (end == 2)
            {
                bool r = false;
                int c = classify([&] { r = g.remove(); });
                wrong = kind == 4 ? c == OK : c != OK || !r || env.nodes[own].kind != '-';
            }
            if (end == 3)
            {
                bool r = g.remove_no_throw();
                wrong = r != (kind != 4) || r != (env.nodes[own].kind == '-');
            }
            if (end == 4)
            {
                auto n = g.remove_all();
                wrong = n != (kind == 4 ? 5 : 1) || env.nodes[own].kind != '-';
            }
            if (end == 5)
                keep.emplace(std::move(g));
        });
    sym_assert(!wrong, "remove, remove_no_throw and remove_all do what they report");
    bool others = true, gone = true;
    for (size_t i = 0; i < env.nodes.size(); ++i)
        if (i < own)
            others = others && env.nodes[i].kind == before[i].kind && env.nodes[i].data == before[i].data && !env.nodes[i].truncated;
        else
            gone = gone && env.nodes[i].kind == '-';
    sym_assert(others, "nothing but the guarded entry is removed: what a link leads to stays");
    sym_assert(gone, "the guarded entry is gone at scope exit");
    sym_assert(o == (end == 1 ? FOREIGN : OK), "leaving the scope does not throw");
    sym_cover(kind == 4 ? "tree" : kind == 3 ? "dangling" : "link");
    if (place == 2)
        sym_cover("through-directory-link");
    char const * ends[] = {"", "exception", "remove", "no-throw", "remove-all", "moved"};
    if (end)
        sym_cover(ends[end]);
    sym_end();
}
