// P07: neither the order of the declarations nor the order of independent groups matters.
// @bounds all orders of three declarations and of up to four groups (option, integer option or list element, flag, positional) in two spellings each; values of 1..2 arbitrary non-NUL bytes that do not start with '-'
// @cover ok, user_input_error
// @budget 45 400
#include "spec.h"
using namespace vp;
static std::string vs, vi, vp_;
static bool has[4];
static void more(int o)
{
    int n = 7;
    bool good = !has[1] || spec_i32(vi, n);
    if (!good)
    {
        sym_assert(o == USER_INPUT, "an invalid number is rejected in every order");
        return;
    }
    if (!has[3])
        return;
    sym_assert(o == OK, "independent groups are accepted in every order");
    sym_assert(eq(slots[0].t, has[0] ? vs : std::string{"def"}), "the order does not change the value of an option");
    sym_assert(slots[1].i == n, "the order does not change the value of an integer option");
    sym_assert(slots[2].f == has[2], "the order does not change a flag");
    sym_assert(eq(pos[0], vp_), "the order does not change the positional argument");
}
extern "C" void harness_main()
{
    decls = {{STR, 's', "st"}, {INT, 'i', "sti"}, {FLAG, 'f', "s-f"}};
    npos = 1;
    static unsigned const perm3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    unsigned p = sym_choice(6);
    order = {perm3[p][0], perm3[p][1], perm3[p][2]};
    std::vector<unsigned> left{0, 1, 2, 3};
    unsigned skip = sym_choice(5); // one group may be missing
    if (skip < 4)
        left.erase(left.begin() + skip);
    unsigned spell = sym_choice(3);
    auto val = [](unsigned n)
    {
        std::string s = any(n);
        sym_assume((s[0] != '-') & (s[0] != '='));
        return s;
    };
    vs = val(1 + VP_TIER);
    vi = val(1 + VP_TIER);
    vp_ = val(1);
    while (!left.empty())
    {
        unsigned k = sym_choice((unsigned)left.size());
        unsigned g = left[k];
        left.erase(left.begin() + k);
        has[g] = true;
        switch (g)
        {
        case 0:
            if (spell == 0) args.insert(args.end(), {"-s", vs});
            else if (spell == 1) args.push_back("--st=" + vs);
            else args.push_back("-s" + vs);
            break;
        case 1:
            if (spell == 0) args.push_back("-i" + vi);
            else if (spell == 1) args.insert(args.end(), {"--sti", vi});
            else args.push_back("-i=" + vi);
            break;
        case 2: args.push_back(spell ? "-f" : "--s-f"); break;
        case 3: args.push_back(vp_); break;
        }
    }
    extra = &more;
    go();
}
