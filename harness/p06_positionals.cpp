// P06: every token is consumed exactly once, positionals in order.
// @bounds 0..2 single positionals and optionally a list positional; 1..3 tokens of 0..3 (thorough 4) arbitrary non-NUL bytes mixed with option groups; an option, a list option, a flag
// @cover ok, too_many_arguments, too_few_arguments, unknown_option, list, two
// @budget 45 500
#include "spec.h"
using namespace vp;
static void more(int o)
{
    if (o != OK)
        return;
    if (list_pos && pos_list.size() > 1)
        sym_cover("list");
    if (npos == 2)
        sym_cover("two");
}
extern "C" void harness_main()
{
    decls = {{STR, 's', "st"}, {FLAG, 'f', "fl"}};
    npos = sym_choice(3);
    list_pos = sym_choice(2);
    unsigned n = 1 + sym_choice(3);
    unsigned where = sym_choice(n + 1), what_ = sym_choice(4);
    for (unsigned i = 0; i <= n; ++i)
    {
        if (i == where)
            switch (what_)
            {
            case 0: break;
            case 1: args.push_back("-f"); break;
            case 2: args.insert(args.end(), {"--st", ""}); break;
            case 3: args.push_back("--"); break;
            }
        if (i < n)
            args.push_back(n == 3 ? any(0, 1 + VP_TIER) : any(0, (n == 1 ? 5 : 3) + VP_TIER));
    }
    extra = &more;
    go();
}
