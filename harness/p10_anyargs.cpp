// P10: arbitrary command lines against a parser with every kind of declaration.
// @bounds command lines of 1..2 tokens of 0..5 and 3 tokens of 0..3 arbitrary non-NUL bytes (thorough: 6 bytes, 4 tokens); 6 declarations (int, string, list<string>, list<int> options, two flags) and one positional
// @assume operating system calls are served by an in-memory model (harness/env.h); version notifications off
// @cover ok, exit, too_many_arguments, too_few_arguments, option_declared_multiple_times, unknown_option, user_input_error
// @budget 45 600
// @asan
#include "spec.h"
extern "C" void harness_main()
{
    using namespace vp;
    decls = {{INT, 'i', "in"}, {STR, 's', "st"}, {FLAG, 'f', "fl"}, {FLAG, 'g', ""}, {SLIST, 'l', "li"}, {ILIST, 'n', ""}};
    npos = 1;
    unsigned n = 1 + sym_choice(3 + VP_TIER);
    for (unsigned i = 0; i < n; ++i)
        args.push_back(any(0, n == 4 ? 2 : n == 3 ? 3 : 5 + VP_TIER));
    go();
}
