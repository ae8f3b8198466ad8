// P05: the end of the options.
// @bounds any of 7 command line beginnings or one token of 0..3 (thorough 4) arbitrary bytes, then '--', then 1..3 tokens: arbitrary (0..4, thorough 6 bytes) or one of the special requests / option spellings; single positionals or a list positional
// @cover ok, verbatim, special-as-text, second-end, too_many_arguments, too_few_arguments
// @budget 45 400
#include "spec.h"
using namespace vp;
static std::vector<std::string> behind;
static bool plain = false;
static bool anything = false;
static unsigned before = 0;
static void more(int o)
{
    sym_assert(o != EXITED || anything, "nothing behind '--' is a special request");
    if (!plain)
        return;
    if (list_pos)
    {
        sym_assert(o == OK, "text behind '--' is accepted");
        sym_assert(pos_list.size() == before + behind.size(), "every token behind '--' is a positional argument");
        for (size_t i = 0; i < behind.size(); ++i)
            sym_assert(eq(pos_list[before + i], behind[i]), "tokens behind '--' are delivered verbatim");
        sym_cover("verbatim");
    }
}
extern "C" void harness_main()
{
    decls = {{STR, 's', "st"}, {FLAG, 'f', "fl"}, {INT, 'i', "in"}};
    if (sym_choice(2))
        list_pos = true;
    else
        npos = 2;
    switch (sym_choice(8))
    {
    case 0: plain = true; break;
    case 1: args = {"-f"}; plain = true; break;
    case 2: args = {"-s", "x"}; plain = true; break;
    case 3: args = {"-s"}; break;           // lacks its value
    case 4: args = {"pos"}; plain = true; before = 1; break;
    case 5: args = {"--st"}; break;
    case 6: args = {"--in=4", "-f"}; plain = true; break;
    case 7: args = {any(0, 3 + VP_TIER)}; anything = true; break;
    }
    args.push_back("--");
    static char const * const special[] = {"--help", "-h", "-hh", "--version", "--copyright", "--export-help", "--export-help=html", "--version-check",
                                           "-s", "-sx", "--st=x", "-f", "--fl", "--", "-i", "-i3", "1", ""};
    unsigned n = 1 + sym_choice(2 + VP_TIER);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = sym_choice(n == 1 ? 19 : i ? 9 : 15);
        if (k == 0)
            behind.push_back(any(0, (n == 1 ? 5 : 3) + VP_TIER));
        else
        {
            behind.push_back(special[k - 1]);
            if (k <= 8)
                sym_cover("special-as-text");
            if (k == 14)
                sym_cover("second-end");
        }
    }
    for (auto & b : behind)
        args.push_back(b);
    extra = &more;
    go();
}
