// P04: flags, alone and in clusters.
// @bounds 1..2 (thorough 3) tokens of 0..4 (thorough up to 5) arbitrary non-NUL bytes, optional '--' at every position, three flags (both ids, short only, long only), optional positional
// @cover ok, unknown_option, repeated-flag, all-set, behind-the-end, cluster
// @budget 45 500
#include "spec.h"
using namespace vp;
static void more(int o)
{
    if (o != OK)
        return;
    if (slots[0].f && slots[1].f && slots[2].f)
        sym_cover("all-set");
    if (want.dashdash && !want.rest.empty() && eq(want.rest.back(), "-a"))
    {
        sym_cover("behind-the-end");
        sym_assert(slots[0].f == (want.flag_count[0] != 0), "text behind the end of the options sets no flag");
    }
    if (args.size() == 2 && args[0].size() == 3 && args[0][0] == '-' && args[0][1] != '-' && slots[0].f && slots[1].f)
        sym_cover("cluster");
}
extern "C" void harness_main()
{
    decls = {{FLAG, 'a', "al"}, {FLAG, 'b', ""}, {FLAG, '\0', "ga"}};
    list_pos = true;
    unsigned n = 1 + sym_choice(2 + VP_TIER);
    unsigned dash = sym_choice(n + 2); // n + 1: no '--'
    for (unsigned i = 0; i < n; ++i)
    {
        if (dash == i)
            args.push_back("--");
        args.push_back(any(0, n == 3 ? 3 : n == 2 ? 4 : 6));
    }
    if (dash == n)
        args.push_back("--");
    args.push_back(dash <= n && sym_choice(2) ? "-a" : "p");
    extra = &more;
    go();
}
