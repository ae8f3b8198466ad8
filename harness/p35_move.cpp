// P35: moving a parser before it parses changes nothing.
// @bounds an original and a moved parser with the same configuration (option, list option, flag, section, line, hidden and advanced elements, a section for pages, meta data, and either a list positional or subcommands); the move (into a new parser, into a parser that held another configuration, out of and back into a vector, through a function) at any point between the declarations; 0..2 (thorough 3) tokens, each 0..3 arbitrary bytes or one of -h, -hh, --version, --export-help, html, --in, -f, su; also the sub parser, moved or not
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover ok, error, page, sub-ok, sub-error, sub-page, construct, assign, vector, function, twice
// @asan
// @budget 60 600
#include "pathmodel.h"
#include "page.h"
#include <memory>
using namespace vp;
struct run_state
{
    int i{1};
    std::vector<std::string> l{"d"}, pos, sub_pos;
    bool f{}, sub_f{};
    std::string s{"s"}, sub_s;
    std::unique_ptr<sharg::parser> p, sub;
    int outcome{NONE}, sub_outcome{NONE};
    std::string msg, page, sub_msg, sub_page, sub_name;
    int set[4]{-1, -1, -1, -1};
};
static run_state st[2];
static run_state * cur;
static bool subs, move_sub;
static unsigned when, how, again;
static std::vector<std::string> args;
static constexpr unsigned STEPS = 7;
static std::unique_ptr<sharg::parser> make()
{
    return subs ? std::make_unique<sharg::parser>("app", args, sharg::update_notifications::off, std::vector<std::string>{"su", "b"})
                : std::make_unique<sharg::parser>("app", args, sharg::update_notifications::off);
}
static void step(sharg::parser & p, run_state & r, unsigned k)
{
    switch (k)
    {
    case 0: p.add_option(r.i, sharg::config{.short_id = 'i', .long_id = "in", .description = "Int", .validator = sharg::arithmetic_range_validator{0, 50}}); break;
    case 1: p.add_flag(r.f, sharg::config{.short_id = 'f', .long_id = "fl", .description = "Flag", .advanced = true}); break;
    case 2:
        p.add_section("Sect");
        p.add_line("Line", true);
        p.add_subsection("Subsect", true);
        p.add_list_item("Key", "Item");
        break;
    case 3: p.add_option(r.l, sharg::config{.short_id = 'l', .description = "List"}); break;
    case 4:
        if (subs)
            p.add_subcommands({"c"});
        else
            p.add_positional_option(r.pos, sharg::config{.description = "Pos"});
        break;
    case 5:
        p.info.version = "1.2";
        p.info.short_description = "Short";
        p.info.author = "Me";
        p.info.synopsis = {"syn"};
        break;
    default: p.add_option(r.s, sharg::config{.long_id = "str", .description = "Str", .hidden = true}); break;
    }
}
static sharg::parser pass(sharg::parser p)
{
    return p;
}
static std::unique_ptr<sharg::parser> moved(std::unique_ptr<sharg::parser> p, unsigned kind)
{
    switch (kind)
    {
    case 0: sym_cover("construct"); return std::make_unique<sharg::parser>(std::move(*p));
    case 1:
    {
        sym_cover("assign");
        static bool other;
        auto q = std::make_unique<sharg::parser>("other", std::vector<std::string>{"other", "-x"}, sharg::update_notifications::on, std::vector<std::string>{"x"});
        q->add_flag(other, sharg::config{.short_id = 'x'});
        *q = std::move(*p);
        return q;
    }
    case 2:
    {
        sym_cover("vector");
        std::vector<sharg::parser> v;
        v.push_back(std::move(*p));
        v.emplace_back("other", std::vector<std::string>{"other", "-x"}); // the elements move
        return std::make_unique<sharg::parser>(std::move(v[0]));
    }
    default: sym_cover("function"); return std::make_unique<sharg::parser>(pass(std::move(*p)));
    }
}
static void configure(run_state & r, bool move)
{
    r.p = make();
    for (unsigned k = 0; k <= STEPS; ++k)
    {
        if (move && k == when)
            r.p = moved(std::move(r.p), how);
        if (move && again && k == STEPS)
        {
            sym_cover("twice");
            r.p = moved(std::move(r.p), 0);
        }
        if (k < STEPS)
            step(*r.p, r, k);
    }
}
static void next();
static void compare()
{
    run_state &a = st[0], &b = st[1];
    if (!sym_symbolic_run())
    {
        note(std::string("original: ") + name(a.outcome) + " " + a.msg + ", moved: " + name(b.outcome) + " " + b.msg);
        note(std::string("original: ") + name(a.sub_outcome) + " " + a.sub_msg + ", moved: " + name(b.sub_outcome) + " " + b.sub_msg);
    }
    sym_assert(a.outcome == b.outcome && a.msg == b.msg, "the moved parser has the outcome of the original");
    sym_assert(a.page == b.page, "the moved parser prints the page of the original");
    sym_assert(a.i == b.i && a.f == b.f && a.s == b.s && a.l == b.l && a.pos == b.pos, "the moved parser stores the values of the original");
    for (int k = 0; k < 4; ++k)
        sym_assert(a.set[k] == b.set[k], "is_option_set agrees");
    sym_assert(a.sub_name == b.sub_name && a.sub_outcome == b.sub_outcome && a.sub_msg == b.sub_msg && a.sub_page == b.sub_page,
               "the sub parser of the moved parser has the outcome of the original");
    sym_assert(a.sub_f == b.sub_f && a.sub_s == b.sub_s && a.sub_pos == b.sub_pos, "the sub parser of the moved parser stores the values of the original");
    sym_cover(a.outcome == OK ? "ok" : a.outcome == EXITED ? "page" : "error");
    if (a.sub_outcome != NONE)
        sym_cover(a.sub_outcome == OK ? "sub-ok" : a.sub_outcome == EXITED ? "sub-page" : "sub-error");
}
static void sub_done(int o)
{
    cur->sub_outcome = o;
    cur->sub_msg = what;
    cur->sub_page = cap->out.data + cap->err.data;
    next();
}
static void done(int o)
{
    cur->outcome = o;
    cur->msg = what;
    cur->page = cap->out.data + cap->err.data;
    if (o == OK)
    {
        cur->set[0] = cur->p->is_option_set('i');
        cur->set[1] = cur->p->is_option_set("in");
        cur->set[2] = cur->p->is_option_set('l');
        cur->set[3] = cur->p->is_option_set("str");
    }
    sharg::parser * s = nullptr;
    if (o == OK && subs && classify([&] { s = &cur->p->get_sub_parser(); }) == OK)
    {
        cur->sub_name = s->info.app_name;
        s->add_flag(cur->sub_f, sharg::config{.short_id = 'f', .description = "Flag"});
        if (move_sub && cur == &st[1])
        {
            cur->sub = std::make_unique<sharg::parser>(std::move(*s));
            cur->p.reset();
            s = cur->sub.get();
        }
        s->add_positional_option(cur->sub_pos, sharg::config{.description = "Pos"});
        cap->out.data.clear();
        cap->err.data.clear();
        what.clear();
        static sharg::parser * sp;
        sp = s;
        run([] { sp->parse(); }, sub_done);
    }
    next();
}
static void next()
{
    if (cur == &st[1])
    {
        compare();
        sym_end();
    }
    cur = &st[1];
    configure(*cur, true);
    cap->out.data.clear();
    cap->err.data.clear();
    what.clear();
    run([] { cur->p->parse(); }, done);
}
extern "C" void harness_main()
{
    env_begin(penv);
    subs = sym_choice(2);
    args = {"app"};
    unsigned n = sym_choice(3 + VP_TIER);
    static char const * const words[] = {"-h", "-hh", "--version", "--export-help", "html", "--in", "-f", "su"};
    for (unsigned k = 0; k < n; ++k)
    {
        unsigned w = sym_choice(9);
        args.push_back(w ? words[w - 1] : any(0, 3));
    }
    unsigned m = sym_choice(7);
    static unsigned const points[] = {0, 7, 4, 1, 5, 7, 3}, hows[] = {0, 1, 2, 3, 1, 0, 3};
    when = points[m];
    how = hows[m];
    again = m == 4;
    move_sub = m & 1;
    note_args(args);
    cap = new captured;
    cur = &st[0];
    configure(*cur, false);
    run([] { cur->p->parse(); }, done);
}
