// P15: the command line is split at the first subcommand.
// @bounds 0..3 (thorough 4) tokens, each 0..3 (of four tokens: 0..2) arbitrary non-NUL bytes or one of `-h`, `--in`, `--version-check`, `--export-help`; top-level parser with an option, a flag and the subcommands su, sub and a; sub parser with an option of the same name and a list positional
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover su, sub, a, no-subcommand, unknown-subcommand, top-exit, sub-ok, sub-exit, sub-error, top-error, short-help
// @budget 60 600
#include "spec.h"
#include "pathmodel.h"
using namespace vp;
static std::vector<std::string> all, rest;
static std::string sub;
static bool unknown;
static sharg::parser * top;

static void sub_done(int o)
{
    sym_cover(o == OK ? "sub-ok" : o == EXITED ? "sub-exit" : "sub-error");
    check(o);
}
static void top_done(int o)
{
    spec_sub = !sub.empty();
    want = spec_parse(decls, args, 0, false, o);
    if (unknown)
    {
        sym_cover("unknown-subcommand");
        bool fatal = want.fatal && ((want.errs >> o) & 1u);
        bool page = o == EXITED && !want.pages.empty() && want.page != 's';
        sym_assert(o == USER_INPUT || fatal || page, "an unknown subcommand is rejected");
        return;
    }
    check(o);
    if (o == EXITED)
        sym_cover(want.page == 's' ? "short-help" : "top-exit");
    if (o != OK && o != EXITED)
        sym_cover("top-error");
    if (o != OK || (want.ambiguous && !want.page))
        return;
    if (sub.empty())
    {
        sym_cover("no-subcommand");
        sym_assert(classify([] { top->get_sub_parser(); }) == DESIGN, "without a subcommand there is no sub parser");
        return;
    }
    sym_cover(sub.size() == 3 ? "sub" : sub.size() == 2 ? "su" : "a");
    int og = classify([] { parser = &top->get_sub_parser(); });
    sym_assert(og == OK, "the subcommand gives a sub parser");
    sym_assert(eq(parser->info.app_name, "app-" + sub), "the sub parser is named after application and subcommand");
    // the sub parser gets exactly the tokens behind the subcommand
    spec_sub = false;
    decls = {{INT, 'i', "in"}};
    slots = std::vector<slot>(1);
    list_pos = true;
    args = rest;
    what.clear();
    declare(*parser, decls[0], slots[0]);
    parser->add_positional_option(pos_list, sharg::config{});
    run([] { parser->parse(); }, sub_done);
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    decls = {{INT, 'i', "in"}, {FLAG, 'f', "fl"}};
    unsigned n = sym_choice(4 + VP_TIER);
    for (unsigned k = 0; k < n; ++k)
        switch (sym_choice(5))
        {
        case 0: all.push_back(any(0, n == 4 ? 2 : 3)); break;
        case 1: all.push_back("-h"); break;
        case 2: all.push_back("--in"); break;
        case 3: all.push_back("--version-check"); break;
        case 4: all.push_back("--export-help"); break;
        }
    bool end = false;
    for (size_t i = 0; i < all.size(); ++i)
    {
        std::string const & t = all[i];
        if (!end && eq(t, "--"))
        {
            end = true;
            args.push_back(t);
            continue;
        }
        if (!end && (eq(t, "-i") || eq(t, "--in")))
        {
            args.push_back(t);
            if (i + 1 < all.size() && !eq(all[i + 1], "--"))
                args.push_back(all[++i]);
            continue;
        }
        if (eq(t, "su") || eq(t, "sub") || eq(t, "a"))
        {
            sub = t;
            rest.assign(all.begin() + (long)i + 1, all.end());
            break;
        }
        if (t.empty() || t[0] != '-')
        {
            unknown = true;
            break;
        }
        args.push_back(t);
        if (!end && (eq(t, "--export-help") || eq(t, "--version-check")) && i + 1 < all.size())
            args.push_back(all[++i]);
    }
    std::vector<std::string> full{"app"};
    full.insert(full.end(), all.begin(), all.end());
    note_args(full);
    slots.resize(2);
    top = parser = new sharg::parser{"app", full, sharg::update_notifications::off, {"sub", "a", "su", "sub"}};
    declare(*parser, decls[0], slots[0]);
    declare(*parser, decls[1], slots[1]);
    run([] { top->parse(); }, top_done);
}
