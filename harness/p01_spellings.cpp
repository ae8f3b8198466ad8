// P01: the five spellings of an option, with an arbitrary value, in different neighbourhoods.
// @bounds value: 0..5 arbitrary non-NUL bytes (thorough 0..8); option with short id, long id or both; next to an option whose ids extend or share the option's ids, a flag and a list positional; other tokens before and after; up to two options given
// @assume operating system calls are served by an in-memory model (harness/env.h); version notifications off
// @cover short-detached, short-attached, short-equals, long-detached, long-equals, long-attached, ok, too_few_arguments, unknown_option, ambiguous, exact
// @budget 40 400
#include "spec.h"
using namespace vp;
static std::string v;
static bool exact_expected = false;
static void more(int o)
{
    // independent of the reference pass: a value that cannot be mistaken for anything else
    if (exact_expected && v.size() > 0 && v[0] != '-')
    {
        sym_assert(o == OK, "an option with an ordinary value is accepted");
        sym_assert(eq(slots[0].t, v), "every spelling delivers exactly the user's text");
        sym_cover("exact");
    }
}
extern "C" void harness_main()
{
    unsigned ids = sym_choice(3);
    decls = {{STR, ids == 1 ? '\0' : 'o', ids == 0 ? "" : "opt"}, {STR, 'p', "opts"}, {FLAG, 'f', "op"}};
    list_pos = true;
    unsigned pre = sym_choice(4), post = sym_choice(3);
    if (pre == 1)
        args.push_back("-f");
    if (pre == 2)
        args.push_back("pos");
    if (pre == 3)
        args.insert(args.end(), {"--opts", "-5"});
    unsigned sp = sym_choice(6);
    v = any(0, VP_TIER ? 8 : 5);
    bool has_s = ids != 1, has_l = ids != 0;
    switch (sp)
    {
    case 0: args.push_back("-o"); args.push_back(v); exact_expected = has_s; sym_cover("short-detached"); break;
    case 1: args.push_back("-o" + v); exact_expected = has_s && !v.empty() && v[0] != '='; sym_cover("short-attached"); break;
    case 2: args.push_back("-o=" + v); exact_expected = has_s; sym_cover("short-equals"); break;
    case 3: args.push_back("--opt"); args.push_back(v); exact_expected = has_l; sym_cover("long-detached"); break;
    case 4: args.push_back("--opt=" + v); exact_expected = has_l; sym_cover("long-equals"); break;
    case 5: args.push_back("--opt" + v); sym_cover("long-attached"); break;
    }
    if (post == 1)
        args.push_back("q");
    if (post == 2)
        args.insert(args.end(), {"--", "-o", "x"});
    if (post == 0 && pre != 2)
        exact_expected = false; // no positional
    extra = &more;
    go();
}
