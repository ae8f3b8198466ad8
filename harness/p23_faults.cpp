// P23: a failing system call in the middle of a validation.
// @bounds all four file validators and both output modes; the path is missing, a file, an empty directory or a directory with content, in a directory or not; the n-th stat, mkdir, open or unlink call fails, for every n and with every error number (stat: except ENOENT, ENOTDIR, EOVERFLOW)
// @assume the file system is an in-memory model without symbolic links (harness/env.h, fsmodel.h)
// @cover stat, mkdir, open, unlink, accepted, rejected
// @budget 60 600
#include "nofmt.h"
#include "fsmodel.h"
using namespace vp;
static env_state env;
extern "C" void harness_main()
{
    env_begin(env);
    std::string path = sym_choice(2) ? "out/a.txt" : "a.txt";
    if (path.size() > 5)
        add_node("out", 'd');
    unsigned kind = sym_choice(4); // missing, file, directory, directory with content
    int target = kind ? add_node(path, kind == 1 ? 'f' : 'd', true, true, kind == 1 ? "data" : "") : -1;
    if (kind == 3)
    {
        add_node(path + "/dummy.txt", 'f', true, true, "mine");
        add_node(path + "/x", 'f', true, true, "x");
    }
    std::vector<inode> before = env.nodes;
    char op = "smou"[sym_choice(4)];
    env.fault_op = op;
    env.fault_nth = sym_byte(); // any call
    env.fault_errno = sym_byte(); // any error
    sym_assume(env.fault_errno > 0 && env.fault_errno < 134);
    if (op == 's') // "there is no such file" is not a failure of stat
        sym_assume(env.fault_errno != ENOENT && env.fault_errno != ENOTDIR && env.fault_errno != EOVERFLOW);
    unsigned which = sym_choice(5);
    note("validator " + std::to_string(which) + " kind " + std::to_string(kind) + " path " + path + " fault " + op);
    static std::filesystem::path fp{path};
    using m = sharg::output_file_open_options;
    int o = classify(
        [&]
        {
            if (which == 0)
                sharg::input_file_validator{}(fp);
            else if (which == 1)
                sharg::input_directory_validator{}(fp);
            else if (which == 2)
                sharg::output_file_validator{m::create_new, std::vector<std::string>{"txt"}}(fp);
            else if (which == 3)
                sharg::output_file_validator{m::open_or_create, std::vector<std::string>{"txt"}}(fp);
            else
                sharg::output_directory_validator{}(fp);
        });
    sym_assert(o == OK || o == VALIDATION, "an operating system error surfaces as validation_error");
    bool lost = false, same = true, left = false;
    for (size_t i = 0; i < env.nodes.size(); ++i)
    {
        inode const & n = env.nodes[i];
        if (i >= before.size())
            left = left || n.kind != '-';
        else if (which == 3 && (int)i == target && n.kind == '-')
            lost = true;
        else
            same = same && n.kind == before[i].kind && n.truncated == 0 && n.data == before[i].data;
    }
    if (lost)
        sym_finding("open-or-create-deletes");
    sym_assert(same, "existing entries survive with their content");
    sym_assert(!left || (op == 'u' && env.faults_hit), "no new entry is left behind");
    if (which == 0 && o == OK)
        sym_assert(kind == 1, "an input file is accepted only if it is one");
    if (which == 1 && o == OK)
        sym_assert(kind >= 2, "an input directory is accepted only if it is one");
    if (which == 2 && o == OK && !env.faults_hit)
        sym_assert(kind == 0, "an existing file is rejected");
    if (env.faults_hit)
        sym_cover(op == 's' ? "stat" : op == 'm' ? "mkdir" : op == 'o' ? "open" : "unlink");
    sym_cover(o == OK ? "accepted" : "rejected");
    sym_end();
}
