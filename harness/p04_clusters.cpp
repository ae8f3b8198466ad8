// P04: a group of short flags is the same as the flags one by one.
// @bounds groups of 1..5 arbitrary bytes over four flags whose identifiers are arbitrary distinct characters of the alphabet (fixed characters in the longer groups); a second group or long id behind it
// @cover ok, unknown_option, two-groups, four
// @budget 40 400
#include "spec.h"
using namespace vp;
static void more(int o)
{
    if (o == OK && slots[0].f && slots[1].f && slots[2].f && slots[3].f)
        sym_cover("four");
    if (o == OK && args.size() == 3 && args[1][0] == '-')
        sym_cover("two-groups");
}
extern "C" void harness_main()
{
    unsigned n = 1 + sym_choice(5);
    char id[4] = {'a', '_', '0', 'Z'};
    if (n <= 2)
    {
        id[0] = (char)sym_byte();
        bool alpha = ((id[0] >= 'a') & (id[0] <= 'z')) | ((id[0] >= 'A') & (id[0] <= 'Z')) | ((id[0] >= '0') & (id[0] <= '9')) | (id[0] == '_') | (id[0] == '@');
        sym_assume(alpha);
        sym_assume((id[0] != '_') & (id[0] != '0') & (id[0] != 'Z') & (id[0] != 'h'));
    }
    decls = {{FLAG, id[0], "xx"}, {FLAG, id[1], "yy"}, {FLAG, id[2], ""}, {FLAG, id[3], ""}};
    list_pos = true;
    args.push_back("-" + any(n));
    switch (sym_choice(4))
    {
    case 0: break;
    case 1: args.push_back("-" + any(1, 2)); break;
    case 2: args.push_back("--xx"); break;
    case 3: args.push_back("-Z0"); break;
    }
    args.push_back("p");
    extra = &more;
    go();
}
