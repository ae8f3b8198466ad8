// P11: well-formedness of one identifier pair; every accepted identifier works.
// @bounds one option or flag: short id any byte, long id any text of 0..3 (thorough 4) bytes, or a reserved word with any one byte replaced (or any byte appended/inserted in front); accepted parsers are then run with every spelling of the identifier
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover rejected, accepted, reserved-long, near-reserved, reserved-short, set-short, set-long
// @budget 40 400
#include "spec.h"
using namespace vp;
static char sid;
static std::string lid;
static bool is_flag, by_short, near;
static int val = 7;
static bool flg;
static char const * const reserved[] = {"hh", "help", "version", "copyright", "export-help", "advanced-help", "version-check"};

static void set(int o)
{
    sym_assert(o == OK, "an accepted identifier can be used on the command line");
    sym_cover(by_short ? "set-short" : "set-long");
    if (is_flag)
        sym_assert(flg, "an accepted flag is set by its identifier");
    else
        sym_assert(val == 5, "an accepted option is set by its identifier");
}
static void added(int o)
{
    bool valid = true;
    bool s_ok = !sid || (((sid >= 'a') & (sid <= 'z')) | ((sid >= 'A') & (sid <= 'Z')) | ((sid >= '0') & (sid <= '9')) | (sid == '_') | (sid == '@'));
    bool l_ok = lid.size() != 1;
    for (size_t i = 0; i < lid.size(); ++i)
    {
        char c = lid[i];
        l_ok = l_ok & (((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '@') | ((c == '-') & (i != 0)));
    }
    valid = s_ok & l_ok & !((sid == 0) & lid.empty());
    bool rs = sid == 'h', rl = false;
    for (char const * r : reserved)
        rl = rl | eq(lid, r);
    valid = valid & !rs & !rl;
    sym_assert(valid ? o == OK : o == DESIGN, "exactly the well-formed, unreserved identifiers are accepted");
    if (o != OK)
    {
        sym_cover("rejected");
        if (rl)
            sym_cover("reserved-long");
        if (rs)
            sym_cover("reserved-short");
        return;
    }
    sym_cover("accepted");
    if (near)
        sym_cover("near-reserved");
    by_short = sid && (lid.empty() || sym_choice(2));
    unsigned form = is_flag ? 0 : sym_choice(2 + (unsigned)by_short);
    std::string id = by_short ? std::string("-") + sid : "--" + lid;
    std::vector<std::string> full{"app"};
    if (is_flag)
        full.push_back(id);
    else if (form == 0)
        full.insert(full.end(), {id, "5"});
    else if (form == 1)
        full.push_back(id + "=5");
    else
        full.push_back(id + "5");
    note_args(full);
    auto * q = new sharg::parser{"app", full, sharg::update_notifications::off};
    if (is_flag)
        q->add_flag(flg, sharg::config{.short_id = sid, .long_id = lid});
    else
        q->add_option(val, sharg::config{.short_id = sid, .long_id = lid});
    parser = q;
    run([] { parser->parse(); }, set);
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    is_flag = sym_choice(2);
    unsigned m = sym_choice(4);
    if (m == 0)
    {
        sid = (char)sym_byte();
        lid = any(0, 3 + VP_TIER);
    }
    else
    {
        lid = reserved[sym_choice(7)];
        char c = (char)sym_byte();
        near = true;
        if (m == 1)
            lid[sym_choice((unsigned)lid.size())] = c;
        else if (m == 2)
            lid += c;
        else
            lid = c + lid;
        sid = sym_choice(2) ? 'x' : 0;
    }
    note(std::string("ids: ") + sid + " / " + lid);
    int o = classify(
        []
        {
            sharg::parser p{"app", std::vector<std::string>{"app"}, sharg::update_notifications::off};
            if (is_flag)
                p.add_flag(flg, sharg::config{.short_id = sid, .long_id = lid});
            else
                p.add_option(val, sharg::config{.short_id = sid, .long_id = lid});
        });
    added(o);
    sym_end();
}
