// P03: at most once, at least once if required, default otherwise.
// @bounds 0..3 occurrences of two single-value options (one required or not) in any spelling and order, mixed with a flag and a positional; values of one arbitrary non-NUL byte, a second spelling may also lack its value
// @cover ok, option_declared_multiple_times, required_option_missing, twice-by-both-ids, default-kept
// @budget 45 400
#include "spec.h"
using namespace vp;
static unsigned cnt[2] = {0, 0};
static bool safe = true;
static void more(int o)
{
    if (!safe)
        return;
    // stated without the reference pass
    if (cnt[0] > 1 || cnt[1] > 1)
    {
        sym_assert(o != OK, "a single-value option given twice is rejected");
        if (decls[0].required ? cnt[0] >= 1 : true)
            sym_assert(o == MULTIPLE || o == USER_INPUT, "a single-value option given twice raises option_declared_multiple_times");
        sym_cover("twice-by-both-ids");
    }
    else if (decls[0].required && cnt[0] == 0)
        sym_assert(o == REQUIRED || o == USER_INPUT, "an absent required option raises required_option_missing");
    else
    {
        sym_assert(o == OK || o == USER_INPUT, "options given at most once are accepted");
        if (cnt[0] == 0 && o == OK)
        {
            sym_assert(eq(slots[0].t, "def"), "an option that is not given keeps its value");
            sym_cover("default-kept");
        }
        if (cnt[1] == 0 && o == OK)
            sym_assert(slots[1].i == 7, "an option that is not given keeps its value");
    }
}
extern "C" void harness_main()
{
    bool req = sym_choice(2);
    decls = {{STR, 'o', "opt", req}, {INT, 'i', "opti"}, {FLAG, 'f', ""}};
    list_pos = true;
    if (sym_choice(2))
        order = {1, 2, 0};
    unsigned n = sym_choice(4);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = sym_choice(n == 3 ? 8 : 11);
        std::string v = k >= 8 ? "" : any(1);
        if (k == 0 || k == 3)
            safe = safe && v[0] != '-';
        if (k == 1)
            sym_assume(v[0] != '=');
        switch (k)
        {
        case 0: args.push_back("-o"); args.push_back(v); ++cnt[0]; break;
        case 1: args.push_back("-o" + v); ++cnt[0]; break;
        case 2: args.push_back("-o=" + v); ++cnt[0]; break;
        case 3: args.push_back("--opt"); args.push_back(v); ++cnt[0]; break;
        case 4: args.push_back("--opt=" + v); ++cnt[0]; break;
        case 5: args.push_back("-i" + v); safe = safe && v[0] != '='; ++cnt[1]; break;
        case 6: args.push_back("--opti=" + v); ++cnt[1]; break;
        case 7: args.push_back("q" + v); break;
        case 8: args.push_back("-o="); safe = false; break;
        case 9: args.push_back("--opt="); safe = false; break;
        case 10: args.push_back("-f"); safe = false; break;
        }
    }
    args.push_back("p");
    if (sym_choice(2))
    {
        args.push_back("--");
        args.push_back("-o=x"); // behind the end of the options: text
    }
    extra = &more;
    go();
}
