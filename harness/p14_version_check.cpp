// P14: --version-check VALUE at any position of a command line.
// @bounds command lines of 0..2 tokens of 0..2 arbitrary bytes (or the option / the option with its value / `--`), `--version-check` inserted at every position, its value 0..5 (thorough 6) arbitrary bytes or missing
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover ok, page-s, too_few_arguments, validation_error, unknown_option, user_input_error, consumed, positional
// @budget 60 600
#include "spec.h"
using namespace vp;
static void more(int o)
{
    if (o == OK && want.version_check >= 0)
        sym_cover("consumed");
    if (o == OK && !pos_list.empty() && eq(pos_list[0], "--version-check"))
        sym_cover("positional");
}
extern "C" void harness_main()
{
    check_page = true;
    decls = {{INT, 'i', "in"}, {FLAG, 'f', "fl"}};
    list_pos = true;
    extra = more;
    unsigned n = sym_choice(3);
    for (unsigned k = 0; k < n; ++k)
        switch (sym_choice(4))
        {
        case 0: args.push_back(any(0, 2)); break;
        case 1: args.push_back("-i"); break;
        case 2: args.push_back("--"); break;
        case 3: args.push_back("--in=4"); break;
        }
    std::vector<std::string> ins{"--version-check"};
    if (sym_choice(2))
        ins.push_back(any(0, 5 + VP_TIER));
    args.insert(args.begin() + sym_choice(n + 1), ins.begin(), ins.end());
    go();
}
