// P16: application and subcommand names.
// @bounds application name of 0..4 (thorough 6) arbitrary bytes (NUL included) with no subcommand, or a valid one with 1..2 subcommands of 0..3 (thorough 4) arbitrary bytes given to the constructor or to add_subcommands; command lines: none, -h, --version, an unknown option, the subcommand, an unknown word, --export-help bad
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover valid-app, invalid-app, valid-sub, invalid-sub, sub-chosen
// @budget 40 400
#include "spec.h"
#include "pathmodel.h"
using namespace vp;
static std::string app;
static std::vector<std::string> subs;
static unsigned line;
static bool good(std::string const & s)
{
    bool ok = !s.empty();
    for (char c : s)
        ok = ok & (((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '-'));
    return ok;
}
static std::string anyz(unsigned mx)
{
    std::string s;
    for (unsigned n = sym_choice(mx + 1); n; --n)
        s.push_back((char)sym_byte());
    return s;
}
static void done(int o)
{
    bool ok = good(app);
    for (auto & s : subs)
        ok = ok & good(s);
    sym_assert((o == DESIGN) == !ok, "a design error is raised exactly for malformed names");
    sym_cover(subs.empty() ? (ok ? "valid-app" : "invalid-app") : ok ? "valid-sub" : "invalid-sub");
    if (!ok)
        sym_assert(cap->out.data.empty() && cap->err.data.empty(), "names are checked before the command line is looked at");
    else if (line == 4 && !subs.empty() && subs[0] != "x" && o == OK)
    {
        sym_cover("sub-chosen");
        sym_assert(classify([] { parser->get_sub_parser(); }) == OK, "a valid subcommand can be chosen");
    }
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    bool in_ctor = true;
    if (sym_choice(2))
    {
        app = sym_choice(2) ? "app" : "A_-9";
        unsigned n = 1 + sym_choice(2);
        for (unsigned i = 0; i < n; ++i)
            subs.push_back(anyz(3 + VP_TIER));
        in_ctor = sym_choice(2);
    }
    else
        app = anyz(4 + 2 * VP_TIER);
    std::vector<std::string> full{"app"};
    line = sym_choice(7);
    switch (line)
    {
    case 1: full.push_back("-h"); break;
    case 2: full.push_back("--version"); break;
    case 3: full.push_back("-y"); break;
    case 4: full.push_back(subs.empty() ? "s" : subs[0]); break;
    case 5: full.push_back("x"); break;
    case 6: full.insert(full.end(), {"--export-help", "bad"}); break;
    }
    note_args(full);
    note("app: " + app);
    for (auto & s : subs)
        note("subcommand: " + s);
    parser = new sharg::parser{app, full, sharg::update_notifications::off, in_ctor ? subs : std::vector<std::string>{}};
    if (!in_ctor)
        parser->add_subcommands(subs);
    run([] { parser->parse(); }, done);
}
