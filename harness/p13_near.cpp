// P13/P14: tokens that are or only resemble a special request.
// @bounds one token of 0..18 arbitrary non-NUL bytes; before it nothing, an option waiting for a value, a flag, `--`, `--version-check`, `--export-help`, a help request; after it nothing or one token of 0..4 (thorough 5) arbitrary bytes
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off; the page is told apart by its content
// @cover page-h, page-H, page-v, page-c, page-w, page-m, page-s, ok, too_few_arguments, validation_error, unknown_option
// @budget 60 600
#include "spec.h"
using namespace vp;
extern "C" void harness_main()
{
    check_page = true;
    decls = {{STR, 'i', "in"}, {FLAG, 'f', "fl"}};
    list_pos = true;
    switch (sym_choice(8))
    {
    case 0: break;
    case 1: args.push_back("-i"); break;
    case 2: args.push_back("--in"); break;
    case 3: args.push_back("-f"); break;
    case 4: args.push_back("--"); break;
    case 5: args.push_back("--version-check"); break;
    case 6: args.push_back("--export-help"); break;
    case 7: args.push_back("--version"); break;
    }
    args.push_back(any(0, 18));
    if (sym_choice(2))
        args.push_back(any(0, 4 + VP_TIER));
    go();
}
