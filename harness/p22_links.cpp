// P22: input validators and symbolic links.
// @bounds input_file_validator (extension set none, {txt}, {dat}) and input_directory_validator on a path whose last or first component is a symbolic link with a name of 1..3 (thorough 4) arbitrary bytes, also before ".txt"; the link leads (directly, through another link, from the working directory or from below a directory) to a file goal.dat (readable or not), a directory (readable or not, with a file), a FIFO, or nothing
// @assume the file system is an in-memory model (harness/env.h, fsmodel.h)
// @cover file-accepted, file-rejected, bad-extension, dir-accepted, dir-rejected, dangling, below-accepted, below-rejected
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
extern "C" void harness_main()
{
    env_begin(env);
    static std::string base = any(1, 3 + VP_TIER);
    for (char c : base)
        sym_assume(c != '/');
    sym_assume(base != "." && base != "..");
    bool named = sym_choice(2);
    if (named)
        base += ".txt";
    std::string dir;
    if (sym_choice(2))
    {
        add_node("out", 'd');
        dir = "out/";
    }
    // 0 file, 1 unreadable file, 2 directory, 3 unreadable directory, 4 FIFO, 5 nothing
    unsigned kind = sym_choice(6);
    std::string goal = dir + "goal.dat";
    if (kind < 5)
        add_node(goal, kind < 2 ? 'f' : kind < 4 ? 'd' : 'p', kind != 1 && kind != 3);
    if (kind == 2 || kind == 3)
        add_node(goal + "/x.txt", 'f');
    std::string leads = "goal.dat";
    if (sym_choice(2))
    {
        add_node(dir + "second.dat", 'l', true, true, leads);
        leads = "second.dat";
    }
    std::string link = dir + base;
    sym_assume(base != "second.dat" && base != "goal.dat");
    add_node(link, 'l', true, true, leads);
    bool below = (kind == 2 || kind == 3) && sym_choice(2);
    std::string path = link + (below ? "/x.txt" : "");
    unsigned which = sym_choice(4); // file without, with {txt}, with {dat}; directory
    if (which == 1 || which == 2)
        sym_assume(named || below || base.find('.') == std::string::npos);
    std::vector<inode> before = env.nodes;
    note("path [" + path + "] kind " + std::to_string(kind) + " which " + std::to_string(which));
    static std::filesystem::path fp{path};
    int o = classify(
        [&]
        {
            if (which == 3)
                sharg::input_directory_validator{}(fp);
            else if (which == 0)
                sharg::input_file_validator{}(fp);
            else
                sharg::input_file_validator{std::vector<std::string>{which == 1 ? "txt" : "dat"}}(fp);
        });
    bool is_txt = below || (named && base != ".txt");
    bool ok = which == 3 ? kind == 2 && !below : (below ? kind == 2 || kind == 3 : kind == 0) && (which == 0 || (which == 1 && is_txt));
    sym_assert(o == (ok ? OK : VALIDATION), "accepted exactly if what the path leads to is readable and of the right kind, and the given name has the extension");
    bool same = env.nodes.size() == before.size();
    for (size_t i = 0; i < before.size() && same; ++i)
        same = env.nodes[i].kind == before[i].kind && !env.nodes[i].truncated && env.nodes[i].data == before[i].data;
    sym_assert(same, "the file system is left unchanged");
    sym_cover(kind == 5 ? "dangling" : below ? ok ? "below-accepted" : "below-rejected" : which == 3 ? ok ? "dir-accepted" : "dir-rejected"
              : ok ? "file-accepted" : kind == 0 ? "bad-extension" : "file-rejected");
    sym_end();
}
