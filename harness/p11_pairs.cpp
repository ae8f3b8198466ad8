// P11: two declarations: ids clash exactly when equal; accepted ones are independent.
// @bounds two declarations, each an option or a flag; short ids absent or any letter a..z but h, long ids absent or 2..3 (thorough: also with a short id) arbitrary letters or '-' (all pairs); accepted pairs are parsed with one of them given (either id, each spelling)
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover clash-short, clash-long, accepted, prefix, first-given, second-given
// @budget 40 400
#include "spec.h"
using namespace vp;
static char sid[2];
static std::string lid[2];
static bool is_flag[2];
static int val[2] = {7, 7};
static bool flg[2];
static unsigned which;
static bool ok_char(char c)
{
    return (c >= 'a') & (c <= 'z'); // the other valid characters: p11_ids
}
static void add(sharg::parser & p, unsigned i)
{
    if (is_flag[i])
        p.add_flag(flg[i], sharg::config{.short_id = sid[i], .long_id = lid[i]});
    else
        p.add_option(val[i], sharg::config{.short_id = sid[i], .long_id = lid[i]});
}
static void set(int o)
{
    sym_assert(o == OK, "an accepted identifier can be used on the command line");
    sym_cover(which ? "second-given" : "first-given");
    for (unsigned i = 0; i < 2; ++i)
    {
        sym_assert(flg[i] == (is_flag[i] && i == which), "only the flag that was given is set");
        sym_assert(val[i] == (!is_flag[i] && i == which ? 5 : 7), "only the option that was given is set");
    }
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    for (unsigned i = 0; i < 2; ++i)
    {
        is_flag[i] = sym_choice(2);
        unsigned m = sym_choice(3); // 0 short only, 1 long only, 2 both
        if (m != 1)
        {
            sid[i] = (char)sym_byte();
            sym_assume(ok_char(sid[i]) & (sid[i] != 'h'));
        }
        if (m != 0)
        {
            lid[i] = any(2, 2 + (m == 1 || VP_TIER));
            bool ok = ok_char(lid[i][0]);
            for (size_t k = 1; k < lid[i].size(); ++k)
                ok = ok & (ok_char(lid[i][k]) | ((lid[i][k] == '-') & (k == 1)));
            sym_assume(ok & !eq(lid[i], "hh"));
        }
    }
    note(std::string("ids: ") + sid[0] + " / " + lid[0] + " , " + sid[1] + " / " + lid[1]);
    int o = classify(
        []
        {
            sharg::parser p{"app", std::vector<std::string>{"app"}, sharg::update_notifications::off};
            add(p, 0);
            add(p, 1);
        });
    bool cs = (sid[0] != 0) & (sid[0] == sid[1]);
    bool cl = !lid[0].empty() && eq(lid[0], lid[1]);
    sym_assert(cs | cl ? o == DESIGN : o == OK, "identifiers clash exactly when they are equal");
    if (o != OK)
    {
        if (cs)
            sym_cover("clash-short");
        if (cl)
            sym_cover("clash-long");
        sym_end();
    }
    sym_cover("accepted");
    if (lid[0].size() == 2 && starts(lid[1], lid[0]))
        sym_cover("prefix");
    which = sym_choice(2);
    bool by_short = sid[which] && (lid[which].empty() || sym_choice(2));
    unsigned form = is_flag[which] ? 0 : sym_choice(2 + (unsigned)by_short);
    std::string id = by_short ? std::string("-") + sid[which] : "--" + lid[which];
    std::vector<std::string> full{"app"};
    if (is_flag[which])
        full.push_back(id);
    else if (form == 0)
        full.insert(full.end(), {id, "5"});
    else if (form == 1)
        full.push_back(id + "=5");
    else
        full.push_back(id + "5");
    note_args(full);
    parser = new sharg::parser{"app", full, sharg::update_notifications::off};
    add(*parser, 0);
    add(*parser, 1);
    run([] { parser->parse(); }, set);
}
