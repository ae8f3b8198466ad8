// P22: input_directory_validator.
// @bounds one path of 0..6 arbitrary non-NUL bytes, which is missing, inaccessible, a regular file (readable or not), a directory (readable or not; empty or not) or a FIFO; alone or in a list of two
// @assume the file system is an in-memory model (harness/env.h, fsmodel.h)
// @cover accept, missing, inaccessible, file, unreadable-directory, fifo
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
static int kind;
extern "C" void harness_main()
{
    env_begin(env);
    static std::string name = any(0, 6);
    kind = sym_choice(7); // 0 missing, 1 inaccessible, 2 file, 3 unreadable file, 4 directory, 5 unreadable directory, 6 fifo
    if (kind >= 2)
        add_node("target", kind <= 3 ? 'f' : kind <= 5 ? 'd' : 'p', kind != 3 && kind != 5);
    resolve = [](char const *) { return kind == 0 ? -1 : kind == 1 ? -2 : (int)env.nodes.size() - 1; };
    size_t before = env.nodes.size();
    note("path [" + name + "] kind " + std::to_string(kind));
    static std::filesystem::path path{name};
    sharg::input_directory_validator v{};
    int o;
    if (sym_choice(2))
        o = classify([&] { v(path); });
    else
    {
        std::vector<std::filesystem::path> l{path, path};
        o = classify([&] { v(l); });
    }
    sym_assert(o == (kind == 4 ? OK : VALIDATION), "accepted exactly if it is a readable directory");
    sym_assert(env.nodes.size() == before && !env.destructive, "the file system is left unchanged");
    sym_cover(kind == 4 ? "accept" : kind == 0 ? "missing" : kind == 1 ? "inaccessible" : kind <= 3 ? "file" : kind == 5 ? "unreadable-directory" : "fifo");
    sym_end();
}
