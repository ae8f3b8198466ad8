// P28: the file system fails in the middle of the version check.
// @bounds the first to sixth call of one kind (stat, mkdir, open, unlink) fails with EACCES, EIO, ENOENT, ELOOP, ENAMETOOLONG, ENOSPC or EROFS, or no write succeeds, or none fails; stored decision absent, NEVER, ALWAYS or ASK, an arbitrary time (0..2^18 s) ago; terminal with an arbitrary byte as answer, or none; --version-check 0, 1 or absent; directories existing or not; wget present or not
// @assume operating system calls are served by an in-memory model (harness/env.h); the detached thread runs at once
// @cover stat, mkdir, open, unlink, write, no-fault, performed
// @variant debug -UNDEBUG
// @variant release -DNDEBUG
// @budget 60 600
#include "update.h"
using namespace vp;
static int user;
static bool hit_possible;
static std::string stored;
static char op;
static void check(int o)
{
    if (E->faults_hit)
        sym_cover(op == 's' ? "stat" : op == 'm' ? "mkdir" : op == 'o' ? "open" : "unlink");
    else if (op == 'w')
        sym_cover("write");
    else
        sym_cover("no-fault");
    sym_assert(o == OK, "a failing file system never fails the parse");
    bool performed = requests() > 0;
    if (performed)
        sym_cover("performed");
    sym_assert(!performed || user != 0, "no check against the will of the user");
    bool asked = cap->err.data.find("Automatic Update Notifications") != std::string::npos;
    sym_assert(!asked || (user < 0 && E->tty), "nobody is asked who decided or cannot answer");
    // nothing but the stored decision, its directories and the version file exists in the end
    for (auto & n : E->nodes)
    {
        if (n.path == "/home/u/data" && n.kind != '-')
        {
            sym_assert(n.data == "precious" && n.kind == 'f', "other files are left alone");
        }
        else if (n.kind == 'f')
        {
            bool leftover = n.path == "/home/u/.config/seqan/dummy.txt" || n.path == "/tmp/dummy.txt";
            sym_assert(leftover ? op == 'u' && E->faults_hit : n.path == cookie_name("/home/u/.config/seqan") || n.path == cookie_name("/tmp"),
                       "no other file is left behind");
        }
        else if (n.kind == '-')
            sym_assert(n.path != "/home/u/data" && n.path != cookie_name("/home/u/.config/seqan"), "nothing that existed is removed");
    }
    int c = find_node(cookie_name("/home/u/.config/seqan").c_str());
    if (user >= 0 && !stored.empty())
        sym_assert(c >= 0 && E->nodes[c].data == stored, "an explicit decision stores nothing");
}
extern "C" void harness_main()
{
    env_begin(uenv);
    uenv.nodes.reserve(32);
    add_node("/home/u/data", 'f', true, true, "precious");
    unsigned dirs = sym_choice(3);
    if (dirs)
        add_node("/home/u/.config", 'd');
    if (dirs == 2)
    {
        add_node("/home/u/.config/seqan", 'd');
        unsigned d = sym_choice(4);
        char const * dec[] = {"", "NEVER", "ALWAYS", "ASK"};
        if (d)
        {
            stored = std::string("1700000000\n") + dec[d];
            now_s += (long)(sym_u32() & 0x3ffff);
            add_node(cookie_name("/home/u/.config/seqan"), 'f', true, true, stored);
        }
    }
    user = (int)sym_choice(3) - 1;
    if (user < 0 && sym_choice(2))
    {
        E->tty = true;
        set_stdin(any(1) + "\n");
    }
    op = "smouw-"[sym_choice(6)];
    E->fault_op = op;
    if (op == 'w')
        E->write_fails = true;
    else if (op != '-')
    {
        E->fault_nth = sym_choice(6);
        int const errs[] = {EACCES, EIO, ENOENT, ELOOP, ENAMETOOLONG, ENOSPC, EROFS};
        E->fault_errno = errs[sym_choice(7)];
    }
    E->system_result = sym_choice(2) ? 256 : 0;
    note(std::string("fault ") + op + " call " + std::to_string(E->fault_nth) + " errno " + std::to_string(E->fault_errno) + " user " + std::to_string(user) + " stored [" + stored + "]");
    std::vector<std::string> args{"app"};
    if (user >= 0)
    {
        args.push_back("--version-check");
        args.push_back(user ? "1" : "0");
    }
    args.push_back("x");
    static std::vector<std::string> pos;
    static sharg::parser * p;
    p = new sharg::parser{"app", args};
    p->add_positional_option(pos, sharg::config{});
    cap = new captured;
    run([] { p->parse(); }, check);
}
