// P28: one run of a parser: is the check performed, is the user asked, what is stored.
// @bounds every combination of: developer on/off, SHARG_NO_VERSION_CHECK set or not, `--version-check` 0/1 or absent (also with -h), home directory usable / unset / write-protected / its .config a file, temporary directory usable / write-protected / missing, stored file absent / present / unreadable / write-protected, terminals on standard input and error, the user's answer 0..2 arbitrary bytes or end of input; the stored file holds up to 10 (thorough 11) arbitrary bytes that are no number other than an integer, and a decision (NEVER, ALWAYS, ASK or 0..2 arbitrary bytes)
// @assume the clock shows a fixed time (the time stamp is arbitrary); operating system calls are served by an in-memory model (harness/env.h); the detached thread runs at once; std::from_chars for double (libstdc++.so) is a stub for integers; system() records its argument
// @cover dev-off, env, no-dir, user-1, user-0, recent, never, always, asked-y, asked-a, asked-n, asked-s, not-asked, first, unreadable, write-protected, tmp
// @variant debug -UNDEBUG
// @variant release -DNDEBUG
// @budget 60 600
#include "update.h"
using namespace vp;
static bool dev, env, help;
static int user; // -1 none, 0, 1
static int home, tmp, stored; // see harness_main
static std::string line1, line2, answer, dir;
static bool eof;
static int cookie = -1;
static long digits()
{
    char const *p = line1.data(), *d;
    return integer(p, p + line1.size(), d);
}
static bool is(std::string const & a, char const * b)
{
    return a == b;
}
static void check(int o)
{
    sym_assert(o == EXITED || o == OK, "the version check never fails the parse");
    bool performed = requests() > 0;
    bool asked = cap->err.data.find("Automatic Update Notifications") != std::string::npos;
    int c = find_node(cookie_name(dir).c_str());
    std::string const before = line1 + "\n" + line2;
    std::string const now = c >= 0 ? E->nodes[c].data : "";
    std::string const stamp = stamp_text();
    bool want = false, want_asked = false;
    std::string want_stored = stored == 0 ? "" : before; // what the next run finds
    char const * label;
    bool on_disk = stored != 0;
    if (!dev)
        label = "dev-off";
    else if (env)
        label = "env";
    else if (dir.empty())
        label = "no-dir";
    else if (user >= 0)
    {
        want = user == 1;
        label = want ? "user-1" : "user-0";
    }
    else if (stored && stored != 2 && now_s - digits() < 86400)
        label = "recent";
    else if (stored && stored != 2 && is(line2, "NEVER"))
        label = "never";
    else if (stored && stored != 2 && is(line2, "ALWAYS"))
    {
        want = true;
        label = "always";
    }
    else
    {
        sym_cover(stored == 0 ? "first" : stored == 2 ? "unreadable" : stored == 3 ? "write-protected" : dir == "/tmp" ? "tmp" : "old");
        std::string d = "ASK";
        if (E->tty && E->tty_in && E->tty_err)
        {
            want_asked = true;
            char a = answer.empty() ? 's' : answer[0];
            want = (a == 'y') | (a == 'a');
            if (a == 'a')
                d = "ALWAYS";
            else if (a == 'n')
                d = "NEVER";
            label = a == 'y' ? "asked-y" : a == 'a' ? "asked-a" : a == 'n' ? "asked-n" : "asked-s";
        }
        else
            label = "not-asked";
        if (stored != 3)
        {
            on_disk = true;
            want_stored = stamp + "\n" + d;
        }
    }
    note(std::string(label) + ": performed " + (performed ? "yes" : "no") + ", asked " + (asked ? "yes" : "no") + ", stored [" + now + "]");
    sym_assert(performed == want, "the check runs exactly when it may");
    sym_assert(asked == want_asked, "the user is asked exactly when there is no decision");
    sym_assert((c >= 0) == on_disk, "the decision is stored when it is made");
    sym_assert(now == want_stored, "what the next run finds is what was decided");
    for (auto & n : E->nodes)
        sym_assert(n.kind != 'f' || !n.created_now || n.path == cookie_name(dir), "no other file stays");
    sym_cover(label);
}
extern "C" void harness_main()
{
    env_begin(uenv);
    uenv.nodes.reserve(32);
    dev = sym_choice(2);
    unsigned mode = dev ? sym_choice(5) : 0; // which part of the state varies
    env = false;
    user = -1;
    stored = 0;
    E->system_result = 0;
    if (!dev || mode == 0)
    {
        env = sym_choice(2);
        user = (int)sym_choice(3) - 1;
        help = sym_choice(2);
    }
    home = tmp = 0;
    if (mode == 1 || mode == 0)
    {
        home = (int)sym_choice(4);
        tmp = (int)sym_choice(3);
    }
    if (home == 1)
        E->home_set = false;
    if (home == 2)
        E->nodes[find_node("/home/u")].writable = false;
    if (home == 3)
        add_node("/home/u/.config", 'f');
    if (tmp == 1)
        E->nodes[find_node("/tmp")].writable = false;
    if (tmp == 2)
        E->nodes[find_node("/tmp")].kind = '-';
    dir = home == 0 ? "/home/u/.config/seqan" : tmp == 0 ? "/tmp" : "";
    if (!dir.empty())
        stored = (int)sym_choice(4); // none, present, unreadable, write-protected
    if (stored)
    {
        if (home == 0 && sym_choice(1) == 0)
        {
            add_node("/home/u/.config", 'd');
            add_node("/home/u/.config/seqan", 'd');
        }
        if (mode == 2)
            line1 = any(0, 10 + VP_TIER);
        else
            line1 = sym_choice(2) ? "1699999999" : "1600000000";
        for (char c : line1)
            sym_assume((c != '.') & (c != 'e') & (c != 'E') & (c != 'i') & (c != 'I') & (c != 'n') & (c != 'N') & (c != '\n'));
        switch (sym_choice(4))
        {
        case 0: line2 = "NEVER"; break;
        case 1: line2 = "ALWAYS"; break;
        case 2: line2 = "ASK"; break;
        default: line2 = mode == 3 ? any(0, 2) : ""; break;
        }
        for (char c : line2)
            sym_assume(c != '\n');
        cookie = add_node(cookie_name(dir), 'f', stored != 2, stored != 3, line1 + "\n" + line2);
    }
    if (mode == 4 || mode == 1)
    {
        E->tty = sym_choice(2);
        if (E->tty && mode == 4)
        {
            E->tty_in = sym_choice(2);
            E->tty_err = sym_choice(2);
        }
        answer = any(0, mode == 4 ? 2 : 1);
        for (char c : answer)
            sym_assume(c != '\n');
        eof = answer.empty() && sym_choice(2);
    }
    set_stdin(eof ? "" : answer + "\n");
    E->no_version_check = env;
    std::vector<std::string> args{"app"};
    if (user >= 0)
    {
        args.push_back("--version-check");
        args.push_back(user ? "1" : "0");
    }
    if (help)
        args.push_back("-h");
    note_args(args);
    note("stored [" + line1 + "\\n" + line2 + "] answer [" + answer + "] dir " + dir);
    static sharg::parser p{"app", args, dev ? sharg::update_notifications::on : sharg::update_notifications::off};
    cap = new captured;
    run([&] { p.parse(); }, check);
}
