// P07: neither the order of the declarations nor the order of independent groups matters: flags in clusters, lists.
// @bounds all orders of four declarations (three flags or two, one of them with a long id only; list option, option) and of up to four groups (a cluster of two flags in either order or the flags one by one, a third flag, an option, the elements of a list, a positional); values of 1..2 arbitrary non-NUL bytes that do not start with '-'
// @cover ok, cluster, list, single
// @budget 60 400
#include "spec.h"
using namespace vp;
static std::string vs, v1, v2, vp_;
static bool has[5];
static bool opt;
static void more(int o)
{
    if (!has[4])
        return;
    sym_assert(o == OK, "independent groups are accepted in every order");
    for (unsigned d : {0u, 1u})
        sym_assert(slots[d].f == has[0], "the order does not change the flags of a group");
    if (opt)
    {
        sym_assert(eq(slots[2].t, has[1] ? vs : std::string{"def"}), "the order does not change the value of an option");
        sym_cover("single");
    }
    else
        sym_assert(slots[2].f == has[1], "the order does not change a flag");
    auto & l = slots[3].tl;
    sym_assert(l.size() == 2, "the order does not change the size of a list");
    sym_assert(sym_and(eq(l[0], has[3] ? v1 : std::string{"d1"}), eq(l[1], has[3] ? v2 : std::string{"d2"})), "the order does not change a list");
    sym_assert(eq(pos[0], vp_), "the order does not change the positional argument");
}
extern "C" void harness_main()
{
    opt = sym_choice(2);
    decls = {{FLAG, 'a', "aa"}, {FLAG, 'b', ""}, opt ? decl{STR, 'c', "aab"} : decl{FLAG, 'c', "aab"}, {SLIST, 'l', "li"}};
    npos = 1;
    std::vector<unsigned> rest{0, 1, 2, 3};
    while (!rest.empty())
    {
        unsigned k = sym_choice((unsigned)rest.size());
        order.push_back(rest[k]);
        rest.erase(rest.begin() + k);
    }
    unsigned spell = sym_choice(3);
    auto val = [](unsigned n)
    {
        std::string s = any(n);
        sym_assume((s[0] != '-') & (s[0] != '='));
        return s;
    };
    vs = val(1);
    v1 = val(1);
    v2 = VP_TIER ? val(2) : std::string{"y"};
    vp_ = val(1);
    std::vector<unsigned> left{0, 1, 3, 4};
    unsigned skip = sym_choice(4); // one group may be missing
    if (skip < 3)
        left.erase(left.begin() + skip);
    while (!left.empty())
    {
        unsigned k = left.size() > 1 ? sym_choice((unsigned)left.size()) : 0;
        unsigned g = left[k];
        left.erase(left.begin() + k);
        has[g] = true;
        switch (g)
        {
        case 0:
            if (spell == 2)
                args.insert(args.end(), {"--aa", "-b"});
            else
                args.push_back(spell ? "-ab" : "-ba");
            sym_cover("cluster");
            break;
        case 1:
            if (!opt)
                args.push_back(spell ? "-c" : "--aab");
            else if (spell == 0)
                args.insert(args.end(), {"-c", vs});
            else
                args.push_back((spell == 1 ? "--aab=" : "-c=") + vs);
            break;
        case 3:
            if (spell == 0)
                args.insert(args.end(), {"-l" + v1, "-l", v2});
            else if (spell == 1)
                args.insert(args.end(), {"--li=" + v1, "--li", v2});
            else
                args.insert(args.end(), {"-l", v1, "--li=" + v2});
            sym_cover("list");
            break;
        case 4: args.push_back(vp_); break;
        }
    }
    extra = &more;
    go();
}
