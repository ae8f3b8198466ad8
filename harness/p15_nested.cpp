// P15: subcommands of subcommands.
// @bounds 1..4 (thorough 5) tokens, each one arbitrary byte, `ab`, `-x`, `-f`, `-h`, `--` (quick: the first of four is a subcommand); parser with the flag f and subcommands a and ab, whose parsers have the flag f and the subcommands a and c, whose parsers have a flag x and a list positional
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover level-0, level-1, level-2, ok-0, ok-1, ok-2, unknown-0, unknown-1, page-h, page-s
// @budget 60 600
#include "spec.h"
#include "pathmodel.h"
using namespace vp;
static std::vector<std::string> all;
static unsigned level;
static std::string sub, full_name{"app"};
static bool unknown;
static sharg::parser * levels[3];
static void enter();
static void done(int o)
{
    static char l[] = "level- ", ok[] = "ok- ", un[] = "unknown- ";
    l[6] = ok[3] = un[8] = (char)('0' + level);
    sym_cover(l);
    spec_sub = !sub.empty();
    want = spec_parse(decls, args, 0, list_pos, o);
    if (unknown)
    {
        sym_cover(un);
        bool page = o == EXITED && !want.pages.empty() && want.page != 's';
        sym_assert(o == USER_INPUT || page, "an unknown subcommand is rejected");
        return;
    }
    check(o);
    if (o != OK)
        return;
    sym_cover(ok);
    if (sub.empty())
    {
        sym_assert(classify([] { levels[level]->get_sub_parser(); }) == DESIGN, "without a subcommand there is no sub parser");
        return;
    }
    sym_assert(classify([] { levels[level + 1] = &levels[level]->get_sub_parser(); }) == OK, "the subcommand gives a sub parser");
    full_name += "-" + sub;
    sym_assert(eq(levels[level + 1]->info.app_name, full_name), "the sub parser is named after application and subcommands");
    ++level;
    enter();
}
static void enter()
{
    std::vector<std::string> a = all;
    all.clear();
    args.clear();
    sub.clear();
    slots = std::vector<slot>(1);
    decls = {{FLAG, level == 2 ? 'x' : 'f', ""}};
    list_pos = level == 2;
    parser = levels[level];
    if (level == 1)
        parser->add_subcommands({"a", "c"});
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (level < 2 && (eq(a[i], "a") || eq(a[i], level ? "c" : "ab")))
        {
            sub = a[i];
            all.assign(a.begin() + (long)i + 1, a.end());
            break;
        }
        if (level < 2 && a[i][0] != '-')
        {
            unknown = true;
            break;
        }
        args.push_back(a[i]);
    }
    declare(*parser, decls[0], slots[0]);
    if (list_pos)
        parser->add_positional_option(pos_list, sharg::config{});
    run([] { parser->parse(); }, done);
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    check_page = true;
    unsigned n = 1 + sym_choice(4 + VP_TIER);
    for (unsigned k = 0; k < n; ++k)
        switch (sym_choice(n >= 4 && !VP_TIER && k == 0 ? 2 : 6))
        {
        case 0: all.push_back(any(1)); break;
        case 1: all.push_back("ab"); break;
        case 2: all.push_back("-x"); break;
        case 3: all.push_back("-f"); break;
        case 4: all.push_back("-h"); break;
        case 5: all.push_back("--"); break;
        }
    std::vector<std::string> full{"app"};
    full.insert(full.end(), all.begin(), all.end());
    note_args(full);
    levels[0] = new sharg::parser{"app", full, sharg::update_notifications::off, {"ab", "a"}};
    enter();
}
