// P02: list options.
// @bounds 1..4 option groups (each: list of strings by short/long id, detached/attached/'=', list of integers, a single-value option, a positional); every value has one (thorough: up to two) arbitrary non-NUL bytes; default lists non-empty
// @cover ok, none, mixed, user_input_error, three-of-a-kind
// @budget 45 500
#include "spec.h"
using namespace vp;
static unsigned nl = 0, ns = 0;
static std::vector<std::string> shorts, longs;
static bool simple = true;
static void more(int o)
{
    if (nl + ns == 0 && o == OK)
    {
        sym_cover("none");
        sym_assert(slots[0].tl.size() == 2 && eq(slots[0].tl[0], "d1") && eq(slots[0].tl[1], "d2"), "an unused list option keeps its default");
    }
    if (o == OK && nl && ns)
        sym_cover("mixed");
    if (o == OK && ns == 3)
        sym_cover("three-of-a-kind");
    if (o == OK && simple && nl + ns)
    {
        std::vector<std::string> all{shorts};
        all.insert(all.end(), longs.begin(), longs.end());
        sym_assert(slots[0].tl.size() == all.size(), "a list option collects every occurrence and drops its default");
        for (size_t i = 0; i < all.size(); ++i)
            sym_assert(eq(slots[0].tl[i], all[i]), "a list option collects the values in order");
    }
}
extern "C" void harness_main()
{
    decls = {{SLIST, 'l', "li"}, {ILIST, 'n', "nu"}, {STR, 's', ""}};
    list_pos = true;
    unsigned n = 1 + sym_choice(3 + VP_TIER);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = sym_choice(n == 4 ? 5 : 8);
        std::string v = any(1, VP_TIER && n < 3 ? 2 : 1);
        if (v[0] == '-' && (k == 0 || k == 1 || k == 5))
            simple = false; // the value may be mistaken for an option
        switch (k)
        {
        case 0: args.push_back("-l"); args.push_back(v); shorts.push_back(v); ++ns; break;
        case 1: args.push_back("--li"); args.push_back(v); longs.push_back(v); ++nl; break;
        case 2: args.push_back("-l=" + v); shorts.push_back(v); ++ns; break;
        case 3: args.push_back("--li=" + v); longs.push_back(v); ++nl; break;
        case 4: args.push_back("-n" + v); break;
        case 5: args.push_back("--nu"); args.push_back(v); break;
        case 6: args.push_back("-l" + v); sym_assume(v[0] != '='); shorts.push_back(v); ++ns; break;
        case 7: args.push_back("-s" + v); break;
        }
    }
    args.push_back("p");
    extra = &more;
    go();
}
