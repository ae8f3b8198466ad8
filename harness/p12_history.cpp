// P12: the life cycle of a parser.
// @bounds all histories of 3 (thorough 4) calls out of parse, the ten add_* calls, get_sub_parser, is_option_set (declared and undeclared id), get_sub_parser().parse() on a parser with an option or with subcommands; command lines with one arbitrary value, so that parse() succeeds or fails
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover parse-ok, parse-failed, late-add, late-parse, sub-ok, sub-missing, set-true, set-false, set-early
// @budget 40 400
#include "spec.h"
using namespace vp;
static int i1 = 1, i2 = 2;
static bool f1;
static unsigned steps, used_names;
static bool called, subs, parsed_ok, given, sub_called;
static int sub_out = NONE;
static void step(int);
static void next()
{
    if (steps++ == 3 + VP_TIER)
        sym_end();
    unsigned k = sym_choice(15);
    auto & p = *parser;
    after = nullptr;
    int o = classify(
        [&]
        {
            static int i3;
            static bool f3;
            switch (k)
            {
            case 0: sym_on_exit(&on_exit_handler); after = [](int) { sym_cover("exit"); }; p.parse(); break;
            case 1: f3 = false; p.add_option(i3, sharg::config{.short_id = (char)('A' + used_names++)}); break;
            case 2: f3 = false; p.add_flag(f3, sharg::config{.short_id = (char)('A' + used_names++)}); break;
            case 3: p.add_positional_option(i3, sharg::config{}); break;
            case 4: p.add_section("s"); break;
            case 5: p.add_subsection("s"); break;
            case 6: p.add_line("s"); break;
            case 7: p.add_list_item("k", "s"); break;
            case 8: p.add_subcommands({}); break;
            case 9: p.get_sub_parser(); break;
            case 10: sym_observe(p.is_option_set('o')); break;
            case 11: sym_observe(p.is_option_set("opt")); break;
            case 12: sym_observe(p.is_option_set("other")); break;
            case 13: sym_observe(p.is_option_set("o")); break;
            case 14: p.get_sub_parser().parse(); break;
            }
        });
    step((int)(k << 8) | o);
}
static void step(int ko)
{
    unsigned k = (unsigned)ko >> 8;
    int o = ko & 255;
    static bool extra_pos;
    switch (k)
    {
    case 0:
        if (called)
        {
            sym_cover("late-parse");
            sym_assert(o == DESIGN, "parse() a second time is a design error");
        }
        else
        {
            called = true;
            sym_assert(o != DESIGN && o != FOREIGN, "the first parse() is no design error");
            parsed_ok = o == OK;
            sym_cover(o == OK ? "parse-ok" : "parse-failed");
        }
        break;
    case 1: case 2: case 4: case 5: case 6: case 7: case 8:
        if (called)
            sym_cover("late-add");
        sym_assert(o == (called ? DESIGN : OK), "add_* calls are accepted exactly before parse()");
        break;
    case 3:
        sym_assert(o == (called || subs ? DESIGN : OK), "add_positional_option is accepted exactly before parse() and without subcommands");
        break;
    case 9: case 14:
        if (called && given && subs)
        {
            sym_cover("sub-ok");
            if (k == 9)
                sym_assert(o == OK, "get_sub_parser gives the chosen sub parser");
            else
            {
                sym_assert((o == DESIGN) == sub_called, "a sub parser is parsed exactly once");
                sub_called = true;
            }
        }
        else
        {
            sym_cover("sub-missing");
            sym_assert(o == DESIGN, "get_sub_parser without a subcommand is a design error");
        }
        break;
    case 10: case 11:
        if (!called)
            sym_cover("set-early");
        sym_assert(o == (called ? OK : DESIGN), "is_option_set is available exactly after parse()");
        if (called)
            sym_cover("set-true");
        break;
    case 12: case 13:
        sym_assert(o == DESIGN, "is_option_set of an undeclared or one-character long identifier is a design error");
        sym_cover("set-false");
        break;
    }
    next();
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    std::vector<std::string> full{"app"};
    subs = sym_choice(2);
    if (subs)
    {
        std::string sub = any(1);
        given = eq(sub, "s") || eq(sub, "t");
        full.insert(full.end(), {"-o", "1", sub, "-x"});
        sym_assume(sub[0] != '-');
    }
    else
        full.insert(full.end(), {"-o", any(1)});
    note_args(full);
    parser = new sharg::parser{"app", full, sharg::update_notifications::off, subs ? std::vector<std::string>{"s", "t"} : std::vector<std::string>{}};
    parser->add_option(i1, sharg::config{.short_id = 'o', .long_id = "opt"});
    next();
}
