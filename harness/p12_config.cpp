// P12: misuse of a configuration is reported, every other configuration is accepted.
// @bounds one declaration (option, list option, flag, positional, list positional) with every combination of: short id present, long id present, default message of 0..1 arbitrary bytes, advanced, hidden, required, initial value of the flag; before it: nothing, an option, a positional, a list positional, or subcommands (constructor or add_subcommands); after it: nothing, another positional, or add_subcommands
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover accepted, rejected, second-rejected, second-accepted
// @budget 40 400
#include "spec.h"
using namespace vp;
static int i1 = 1, i2 = 2;
static bool f1;
static std::vector<int> l1{1}, l0{2};
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    unsigned before = sym_choice(6);
    std::vector<std::string> subs;
    if (before == 4)
        subs = {"sub", "a"};
    auto & p = *new sharg::parser{"app", std::vector<std::string>{"app", "x"}, sharg::update_notifications::off, subs};
    bool list = false, has_pos = false, has_sub = before >= 4;
    int o0 = classify(
        [&]
        {
            switch (before)
            {
            case 1: p.add_option(i2, sharg::config{.short_id = 'x'}); break;
            case 2: p.add_positional_option(i2, sharg::config{}); has_pos = true; break;
            case 3: p.add_positional_option(l0, sharg::config{}); has_pos = list = true; break;
            case 5: p.add_subcommands({"sub"}); break;
            }
        });
    sym_assert(o0 == OK, "a correct declaration is accepted");
    unsigned kind = sym_choice(5); // option, list option, flag, positional, list positional
    bool s = sym_bool(), l = sym_bool(), adv = sym_bool(), hid = sym_bool(), req = sym_bool(), init = sym_bool();
    std::string msg = any(0, 1);
    sharg::config<> c{.short_id = s ? 'o' : '\0', .long_id = l ? "opt" : "", .description = "d", .default_message = msg, .advanced = adv, .hidden = hid, .required = req};
    f1 = init;
    int o = classify(
        [&]
        {
            switch (kind)
            {
            case 0: p.add_option(i1, c); break;
            case 1: p.add_option(l1, c); break;
            case 2: p.add_flag(f1, c); break;
            case 3: p.add_positional_option(i1, c); break;
            case 4: p.add_positional_option(l1, c); break;
            }
        });
    bool bad;
    if (kind < 2)
        bad = (!s & !l) | (req & !msg.empty());
    else if (kind == 2)
        bad = (!s & !l) | !msg.empty() | init;
    else
        bad = s | l | adv | hid | !msg.empty() | has_sub | list;
    sym_assert(o == (bad ? DESIGN : OK), "exactly the documented misuses of a configuration are design errors");
    sym_cover(bad ? "rejected" : "accepted");
    if (o != OK)
        sym_end();
    has_pos = has_pos || kind >= 3;
    list = list || kind == 4;
    unsigned next = sym_choice(5);
    int o2 = classify(
        [&]
        {
            switch (next)
            {
            case 0: p.add_positional_option(i2, sharg::config{}); break;
            case 1: p.add_positional_option(l0, sharg::config{}); break;
            case 2: p.add_subcommands({"b"}); break;
            case 3: p.add_subcommands({}); break;
            case 4: p.add_option(i2, sharg::config{.short_id = 'y'}); break;
            }
        });
    bool bad2 = next <= 1 ? has_sub || list : next == 2 ? has_pos : false;
    sym_assert(o2 == (bad2 ? DESIGN : OK), "a list positional is the last one; subcommands and positionals exclude each other");
    sym_cover(bad2 ? "second-rejected" : "second-accepted");
    sym_end();
}
