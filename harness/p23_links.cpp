// P23: output validators and symbolic links.
// @bounds output_file_validator (both modes, extension set none or {txt}) and output_directory_validator on a path whose last or first component is a symbolic link with a name of 1..2 (thorough 3) arbitrary bytes before ".txt"; the link leads (directly, through another link, from the working directory or from below a directory) to a file, to a directory without and with content (writable or not), to nothing in an existing directory, or to nothing in a missing one
// @assume the file system is an in-memory model (harness/env.h, fsmodel.h)
// @cover file-exists, file-reused, dangling, directory-through-link, dir-accepted, dir-rejected, below-new, below-exists, not-writable
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
extern "C" void harness_main()
{
    env_begin(env);
    static std::string base = any(1, 2 + VP_TIER);
    for (char c : base)
        sym_assume(c != '/');
    bool below = sym_choice(2); // the link itself is below a directory
    std::string dir = below ? "out/" : "";
    if (below)
        add_node("out", 'd');
    // what it leads to: 0 a file, 1 an empty directory, 2 a directory with content, 3 a write-protected directory, 4 nothing, 5 nothing in a missing directory
    unsigned kind = sym_choice(6);
    std::string goal = dir + "goal";
    if (kind < 4)
        add_node(goal, kind ? 'd' : 'f', true, kind != 3, kind ? "" : "data");
    if (kind == 2)
    {
        add_node(goal + "/dummy.txt", 'f', true, true, "mine");
        add_node(goal + "/x.txt", 'f', true, true, "x");
    }
    std::string leads = kind == 5 ? "none/goal" : "goal";
    if (sym_choice(2))
    {
        add_node(dir + "second", 'l', true, true, leads);
        leads = "second";
    }
    std::string link = dir + base + ".txt";
    int l = add_node(link, 'l', true, true, leads);
    unsigned which = sym_choice(3); // create_new, open_or_create, directory
    unsigned form = sym_choice(3);  // the link, the link with a slash, something below
    if (form == 1)
        sym_assume(which == 2);
    std::string path = link + (form == 1 ? "/" : form == 2 ? "/x.txt" : "");
    bool exts = sym_choice(2);
    std::vector<inode> before = env.nodes;
    note("path [" + path + "] kind " + std::to_string(kind) + " which " + std::to_string(which));
    static std::filesystem::path fp{path};
    using m = sharg::output_file_open_options;
    std::vector<std::string> e;
    if (exts)
        e.push_back("txt");
    int o = classify(
        [&]
        {
            if (which == 2)
                sharg::output_directory_validator{}(fp);
            else if (which == 1)
                sharg::output_file_validator{m::open_or_create, e}(fp);
            else
                sharg::output_file_validator{m::create_new, e}(fp);
        });
    bool exists = form < 2 ? kind < 4 : kind == 2;
    bool reach = form == 2 ? kind == 1 || kind == 2 : true; // where an entry could be created
    int want = form < 2 ? which == 2 ? (kind == 1 || kind == 2 ? OK : VALIDATION)
                        : which == 0 ? VALIDATION
                        : kind == 0 ? OK : kind < 4 ? VALIDATION : -1 /* a dangling link may be rejected or not */
             : which == 2 ? (kind == 1 ? OK : VALIDATION)
             : which == 1 ? (kind == 1 || kind == 2 ? OK : VALIDATION)
                          : (kind == 1 ? OK : VALIDATION);
    (void)exists;
    (void)reach;
    if (form == 2 && kind == 0)
        want = VALIDATION;
    bool lost = which == 1 && o == OK && env.nodes[l].kind == '-' ;
    for (size_t i = 0; i < before.size(); ++i) // x.txt below the link
        lost = lost || (which == 1 && o == OK && form == 2 && before[i].kind == 'f' && env.nodes[i].kind == '-' && before[i].path == goal + "/x.txt");
    if (lost)
        sym_finding("open-or-create-deletes");
    sym_assert(want < 0 ? o == OK || o == VALIDATION : o == want, "accepted exactly if mode and permissions allow it");
    bool same = true, left = false;
    for (size_t i = 0; i < env.nodes.size(); ++i)
    {
        inode const & n = env.nodes[i];
        if (i >= before.size())
            left = left || n.kind != '-';
        else
            same = same && ((n.kind == before[i].kind && n.truncated == 0 && n.data == before[i].data) || (lost && ((int)i == l || n.path == goal + "/x.txt")));
    }
    sym_assert(same, "existing entries survive with their content");
    sym_assert(!left, "no new entry is left behind");
    if (form < 2)
        sym_cover(which == 2 ? o == OK ? "dir-accepted" : "dir-rejected" : kind >= 4 ? "dangling" : kind ? "directory-through-link" : o == OK ? "file-reused" : "file-exists");
    else
        sym_cover(kind == 3 ? "not-writable" : kind == 1 && o == OK ? "below-new" : kind == 2 && o != OK ? "below-exists" : "below");
    sym_end();
}
