// P01: identifiers over the whole alphabet of identifiers.
// @bounds short id: any character of the alphabet; long id: 2..4 arbitrary characters of the alphabet; value of 1..2 arbitrary non-NUL bytes; all five spellings
// @cover ok, user-text
// @budget 30 300
#include "spec.h"
using namespace vp;
static std::string v;
static void more(int o)
{
    if (v[0] != '-')
    {
        sym_assert(o == OK, "an option with an ordinary value is accepted");
        sym_assert(eq(slots[0].t, v), "every spelling delivers exactly the user's text");
        sym_cover("user-text");
    }
}
static bool alpha(unsigned char c)
{
    return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '@');
}
extern "C" void harness_main()
{
    std::string s = any(1), l = any(2, 3 + VP_TIER);
    sym_assume(alpha(s[0]));
    sym_assume((s[0] != 'h'));
    bool good = alpha(l[0]);
    for (size_t i = 1; i < l.size(); ++i)
        good = good & (alpha(l[i]) | (l[i] == '-'));
    sym_assume(good);
    sym_assume(!eq(l, "hh") && !eq(l, "help"));
    decls = {{STR, s[0], l}};
    v = any(1, 2);
    switch (sym_choice(5))
    {
    case 0: args = {"-" + s, v}; break;
    case 1: args = {"-" + s + v}; sym_assume(v[0] != '='); break;
    case 2: args = {"-" + s + "=" + v}; break;
    case 3: args = {"--" + l, v}; break;
    case 4: args = {"--" + l + "=" + v}; break;
    }
    extra = &more;
    go();
}
