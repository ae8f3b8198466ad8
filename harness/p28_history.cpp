// P28: consecutive runs of one application: the stored decision is respected.
// @bounds four (thorough five) runs without --version-check, arbitrary times between them (0..2^22 s), terminal or not and an arbitrary first character of the answer in every run
// @assume operating system calls are served by an in-memory model (harness/env.h); the detached thread runs at once; a time stamp that is written and read again is the same number
// @cover asked-y, asked-a, asked-n, asked-other, no-terminal, silent, always-again, never-again, next-day
// @variant debug -UNDEBUG
// @variant release -DNDEBUG
// @budget 60 600
#include "update.h"
using namespace vp;
static constexpr int RUNS = 4 + VP_TIER;
static std::vector<std::string> pos[RUNS];
extern "C" void harness_main()
{
    env_begin(uenv);
    uenv.nodes.reserve(32);
    enum { NONE, ASK, ALWAYS, NEVER } state = NONE;
    long stamp = 0, last_asked = 0, last_performed = 0;
    bool was_asked = false, was_performed = false;
    static captured c;
    for (int i = 0; i < RUNS; ++i)
    {
        if (i)
            now_s += (long)((sym_u32() & 0x3fffff));
        E->tty = sym_choice(2);
        char a = E->tty ? (char)sym_byte() : 's';
        sym_assume(a != 0);
        set_stdin(a == '\n' ? "\n" : std::string(1, a) + "\n");
        E->system_calls.clear();
        c.err.data.clear();
        auto * p = new sharg::parser{"app", {"app", "x"}};
        p->add_positional_option(pos[i], sharg::config{});
        int o = classify([&] { p->parse(); });
        sym_assert(o == OK, "the version check never fails the parse");
        bool performed = requests() > 0;
        bool asked = c.err.data.find("Automatic Update Notifications") != std::string::npos;
        if (!sym_symbolic_run())
            note("run " + std::to_string(i) + " at " + std::to_string(now_s) + (E->tty ? " terminal, answer " + std::string(1, a) : " no terminal") + ": performed "
             + (performed ? "yes" : "no") + ", asked " + (asked ? "yes" : "no"));
        // what may happen
        bool want = false, want_asked = false;
        if (state != NONE && now_s - stamp < 86400)
            sym_cover("silent");
        else if (state == NEVER)
            sym_cover("never-again");
        else if (state == ALWAYS)
        {
            want = true;
            sym_cover("always-again");
        }
        else
        {
            if (state == ASK)
                sym_cover("next-day");
            state = ASK;
            stamp = now_s;
            if (E->tty)
            {
                want_asked = true;
                sym_cover(a == 'y' ? "asked-y" : a == 'a' ? "asked-a" : a == 'n' ? "asked-n" : "asked-other");
                want = (a == 'y') | (a == 'a');
                if (a == 'a')
                    state = ALWAYS;
                if (a == 'n')
                    state = NEVER;
            }
            else
                sym_cover("no-terminal");
        }
        sym_assert(performed == want, "the check runs exactly when it may");
        sym_assert(asked == want_asked, "the user is asked exactly when there is no decision");
        // stated without the machine above
        if (asked)
        {
            sym_assert(!was_asked || now_s - last_asked >= 86400, "not asked twice within a day");
            was_asked = true;
            last_asked = now_s;
        }
        if (performed)
        {
            if (was_performed && now_s - last_performed < 86400)
            {
                if (state == ALWAYS && now_s - stamp >= 86400)
                    sym_finding("always-every-run");
                else
                    sym_fail("the check runs at most once a day");
            }
            was_performed = true;
            last_performed = now_s;
        }
    }
    sym_end();
}
