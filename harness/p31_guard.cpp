// P31: safe_filesystem_entry.
// @bounds entry name of 1..3 (thorough 5) arbitrary bytes without '/', plain or below a directory; the entry is missing, a file, an empty directory or a directory tree (two levels); neighbours whose names extend the entry's name; 0..2 operations (remove, remove_no_throw, remove_all, move construction, move assignment onto another guard, an exception), created before or after the guard; the n-th unlink fails for every n with EBUSY or EACCES (or none does)
// @assume the file system is an in-memory model without symbolic links (harness/env.h, fsmodel.h)
// @cover scope-exit, exception, remove, remove-refused, remove-all, no-throw-true, no-throw-false, moved, assigned, faulted, missing
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
#include <optional>
using namespace vp;
static env_state env;
static bool any_below(std::string const & p)
{
    for (auto & n : env.nodes)
        if (n.kind != '-' && (n.path == p || (n.path.size() > p.size() && n.path.compare(0, p.size(), p) == 0 && n.path[p.size()] == '/')))
            return true;
    return false;
}
extern "C" void harness_main()
{
    env_begin(env);
    static std::string path = any(1, 3 + 2 * VP_TIER);
    for (char c : path)
        sym_assume(c != '/');
    sym_assume(path != "." && path != ".." && path != "other");
    if (sym_choice(2))
    {
        add_node("out", 'd');
        path = "out/" + path;
    }
    unsigned kind = sym_choice(4);
    bool late = sym_choice(2); // the guard is set up before the entry exists
    size_t first = env.nodes.size();
    add_node(path + "x", 'd');
    add_node(path + "x/f", 'f', true, true, "neighbour");
    add_node("other", 'f', true, true, "other");
    size_t own = env.nodes.size();
    auto create = [&]
    {
        if (kind >= 1)
            add_node(path, kind == 1 ? 'f' : 'd', true, true, kind == 1 ? "data" : "");
        if (kind == 3)
        {
            add_node(path + "/f", 'f', true, true, "1");
            add_node(path + "/sub", 'd');
            add_node(path + "/sub/g", 'f', true, true, "2");
        }
    };
    if (!late)
        create();
    bool faulty = sym_choice(2);
    if (faulty)
    {
        env.fault_op = 'u';
        env.fault_nth = sym_byte();
        env.fault_errno = sym_byte();
        sym_assume(env.fault_errno == EBUSY || env.fault_errno == EACCES);
    }
    bool wrong = false, threw = false, assigned = false, moved = false;
    unsigned op[2] = {sym_choice(7), 0};
    if (op[0])
        op[1] = sym_choice(7);
    note("path [" + path + "] kind " + std::to_string(kind) + " late " + std::to_string(late) + " ops " + std::to_string(op[0]) + std::to_string(op[1]));
    int o = classify(
        [&]
        {
            std::optional<sharg::detail::safe_filesystem_entry> keep;
            sharg::detail::safe_filesystem_entry g{path};
            if (late)
                create();
            for (unsigned k : op)
            {
                auto & guard = keep ? *keep : g;
                bool here = any_below(path), full = kind == 3 && here;
                if (k == 1)
                {
                    bool r = false;
                    threw = classify([&] { r = guard.remove(); }) != OK;
                    if (!env.faults_hit)
                        wrong = wrong || threw != full || (!threw && r != here);
                    wrong = wrong || any_below(path) != (here && threw);
                    sym_cover(threw ? "remove-refused" : "remove");
                }
                else if (k == 2)
                {
                    bool r = guard.remove_no_throw();
                    wrong = wrong || r != (here && !any_below(path)) || (!env.faults_hit && r != (here && !full));
                    sym_cover(r ? "no-throw-true" : "no-throw-false");
                }
                else if (k == 3)
                {
                    size_t n = 0, alive = 0;
                    for (size_t i = own; i < env.nodes.size(); ++i)
                        alive += env.nodes[i].kind != '-';
                    bool t = classify([&] { n = guard.remove_all(); }) != OK;
                    if (!env.faults_hit)
                        wrong = wrong || t || n != alive;
                    wrong = wrong || (!t && any_below(path));
                    sym_cover("remove-all");
                }
                else if (k == 4)
                    throw 7;
                else if (k == 5 && !keep)
                {
                    keep.emplace(std::move(g));
                    moved = true;
                }
                else if (k == 6 && !keep)
                {
                    keep.emplace(std::filesystem::path{"other"});
                    *keep = std::move(g);
                    assigned = true;
                }
            }
        });
    sym_assert(!wrong, "remove, remove_no_throw and remove_all do what they report");
    bool others = true;
    for (size_t i = 0; i < own; ++i)
        others = others && (env.nodes[i].kind != '-' || (assigned && env.nodes[i].path == "other")) && (assigned || !env.nodes[i].truncated);
    sym_assert(others, "nothing but the guarded entry is removed");
    if (!env.faults_hit)
    {
        sym_assert(!any_below(path), "the guarded entry is gone at scope exit");
        sym_assert(!assigned || find_node("other") < 0, "the entry guarded before an assignment is removed as well");
    }
    sym_assert(o == (op[0] == 4 || op[1] == 4 ? FOREIGN : OK), "leaving the scope does not throw");
    sym_cover(o == FOREIGN ? "exception" : "scope-exit");
    if (moved)
        sym_cover("moved");
    if (assigned)
        sym_cover("assigned");
    if (env.faults_hit)
        sym_cover("faulted");
    if (!kind)
        sym_cover("missing");
    sym_end();
}
