// P13/P14: sequences of special requests, options, flags and text.
// @bounds command lines of 0..3 (thorough 4) tokens from a table of 24; up to 2 of them followed by an optional token of 1 arbitrary byte
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off; the page is told apart by its content
// @cover page-h, page-H, page-v, page-c, page-w, page-m, page-s, ok, too_few_arguments, validation_error, unknown_option
// @budget 60 600
#include "spec.h"
using namespace vp;
static char const * const table[] = {"-h", "-i", "--", "--version-check", "--export-help", "html", "1", "-f", "p",
                                     "--help", "-hh", "--advanced-help", "--version", "--copyright", "--export-help=html", "--export-help=man",
                                     "--export-help=x", "man", "0", "true", "false", "--in", "--in=3", "-i3"};
extern "C" void harness_main()
{
    check_page = true;
    decls = {{INT, 'i', "in"}, {FLAG, 'f', "fl"}};
    list_pos = true;
    unsigned n = sym_choice(4 + VP_TIER);
    bool small = n == 4;
    for (unsigned k = 0; k < n; ++k)
        args.push_back(table[sym_choice(small && (k == 0 || k == 3) ? 9 : 24)]);
    if (n && n < 3 && sym_choice(2))
        args.push_back(any(1));
    go();
}
