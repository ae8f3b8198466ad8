// P17: is_option_set after a successful parse.
// @bounds command lines of an optional first token from a table of 6, 1..2 tokens of 0..4 (with the first token: 0..3; thorough: 0..4) arbitrary bytes and a positional against an int, a string and a list option, a flag and a list positional; queried: every declared identifier, an arbitrary character, an arbitrary text of 0..3 bytes, every reserved identifier
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off; identifiers of flags are not queried
// @cover true-short, true-long, false-short, false-long, undeclared-char, undeclared-text, other
// @budget 60 600
#include "spec.h"
using namespace vp;
static void more(int o)
{
    if (o != OK)
    {
        sym_cover("other");
        return;
    }
    static bool r;
    static char c;
    static std::string t;
    auto ask_c = [](char x) { c = x; return classify([] { r = parser->is_option_set(c); }); };
    auto ask_t = [](std::string const & x) { t = x; return classify([] { r = parser->is_option_set(t); }); };
    unsigned q = sym_choice(9);
    if (q < 3)
    {
        int e = ask_c(decls[q].s);
        note(std::string("is_option_set('") + decls[q].s + "') = " + (r ? "true" : "false"));
        sym_assert(e == OK, "a declared identifier can be queried");
        bool w = !want.by_short[q].empty();
        sym_cover(w ? "true-short" : "false-short");
        sym_assert(r == w, "is_option_set(short) is true exactly when the short identifier was used");
    }
    else if (q < 6)
    {
        int e = ask_t(decls[q - 3].l);
        note("is_option_set(\"" + decls[q - 3].l + "\") = " + (r ? "true" : "false"));
        sym_assert(e == OK, "a declared identifier can be queried");
        bool w = !want.by_long[q - 3].empty();
        sym_cover(w ? "true-long" : "false-long");
        sym_assert(r == w, "is_option_set(long) is true exactly when the long identifier was used");
    }
    else if (q == 6)
    {
        char x = (char)sym_byte();
        sym_assume((x != 'i') & (x != 's') & (x != 'l') & (x != 'f') & (x != 'h'));
        sym_assert(ask_c(x) == DESIGN, "an undeclared identifier is a design error");
        sym_cover("undeclared-char");
    }
    else if (q == 7)
    {
        std::string x = any(0, 3);
        bool declared = eq(x, "in") || eq(x, "st") || eq(x, "li") || eq(x, "fl");
        sym_assume(!declared && !eq(x, "hh"));
        sym_assert(ask_t(x) == DESIGN, "an undeclared or one-character identifier is a design error");
        sym_cover("undeclared-text");
    }
    else
    {
        static char const * const reserved[] = {"hh", "help", "version", "version-check", "copyright", "export-help", "advanced-help"};
        unsigned k = sym_choice(8);
        int e = k == 7 ? ask_c('h') : ask_t(reserved[k]);
        sym_assert(e == DESIGN || (e == OK && !r), "a reserved identifier is never reported as set");
        if (e == OK)
            sym_finding("reserved-identifier");
    }
}
extern "C" void harness_main()
{
    decls = {{INT, 'i', "in"}, {STR, 's', "st"}, {SLIST, 'l', "li"}, {FLAG, 'f', "fl"}};
    list_pos = true;
    extra = more;
    static char const * const table[] = {"--st", "-l", "--li=q", "-i1", "--", "--li"};
    if (sym_choice(2))
        args.push_back(table[sym_choice(6)]);
    unsigned n = 1 + sym_choice(2), first = (unsigned)args.size();
    for (unsigned k = 0; k < n; ++k)
        args.push_back(any(0, n + first == 3 && !VP_TIER ? 3 : 4));
    args.push_back("p");
    go();
}
