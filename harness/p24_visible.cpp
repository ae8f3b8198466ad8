// P24: what appears on the help pages.
// @bounds 1..3 (thorough 4) elements of any kind (option, list option, flag, section, subsection, line, paragraph, list item), each advanced or not and hidden or not (symbolic), optionally a positional; options with short id, long id or both, one arbitrary character in each; -h, --help, -hh, --advanced-help, --export-help html, man, also after other arguments; and the same options given on the command line
// @cover shown, advanced-hidden, advanced-shown, hidden, parsed-hidden, parsed-advanced, export
// @budget 60 600
#include "pathmodel.h"
#include "page.h"
using namespace vp;
struct element
{
    unsigned kind;
    bool adv, hid;
    char sid;
    std::string lid, text;
};
static std::vector<element> els;
static unsigned request;
static std::string values[5];
static std::vector<int> lists[5];
static bool flags[5], positional;
static size_t count(std::string const & page, std::string const & s)
{
    size_t n = 0;
    for (size_t i = 0; (i = page.find(s, i)) != std::string::npos; i += s.size())
        ++n;
    return n;
}
static void check(int o)
{
    std::string const & page = cap->out.data;
    if (request == 6) // parsed
    {
        sym_assert(o == OK, "hidden and advanced options are parsed");
        for (size_t i = 0; i < els.size(); ++i)
        {
            if (els[i].kind > 2)
                continue;
            sym_assert(els[i].kind == 0 ? values[i] == "v" : els[i].kind == 1 ? lists[i] == std::vector<int>{7} : flags[i], "hidden and advanced options store their values");
            if (els[i].hid)
                sym_cover("parsed-hidden");
            if (els[i].adv)
                sym_cover("parsed-advanced");
        }
        return;
    }
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    bool all = request >= 2;
    size_t pos = 0;
    for (auto const & e : els)
    {
        bool show = !e.hid && (all || !e.adv);
        std::string t = e.text;
        if (request <= 3 && e.kind == 3) // section titles are in upper case on the console
            for (char & c : t)
                c = c >= 'a' && c <= 'z' ? c - 32 : c;
        if (request == 5 && e.kind == 3)
            for (char & c : t)
                c = c >= 'a' && c <= 'z' ? c - 32 : c;
        sym_assert(count(page, t) == (show ? 1 : 0), "an element is on the page once if it is to be shown, else never");
        if (show)
        {
            size_t at = page.find(t);
            sym_assert(at > pos, "the elements are in the order of their declaration");
            pos = at;
            if (e.kind <= 2)
            {
                char const * on = request == 4 ? "<strong>" : request == 5 ? "\\fB" : "";
                char const * off = request == 4 ? "</strong>" : request == 5 ? "\\fP" : "";
                std::string want = request == 4 ? "<dt>" : request == 5 ? ".TP\n" : "    ";
                if (e.sid)
                    want += on + (std::string{"-"} + e.sid) + off;
                if (e.sid && !e.lid.empty())
                    want += ", ";
                if (!e.lid.empty())
                    want += on + ("--" + e.lid) + off;
                size_t k = page.rfind(request == 4 ? "<dt>" : request == 5 ? ".TP\n" : "    -", at);
                sym_assert(k != std::string::npos && page.compare(k, want.size(), want) == 0, "an option is shown with both of its identifiers");
                char next = page[k + want.size()];
                sym_assert(next == ' ' || next == '\n' || next == '<', "an option is shown with exactly its identifiers");
            }
        }
        sym_cover(show ? e.adv ? "advanced-shown" : "shown" : e.hid ? "hidden" : "advanced-hidden");
    }
    if (positional)
        sym_assert(count(page, "Pos9") == 1 && page.find("ARGUMENT-1") < page.find("Pos9"), "the positional argument is on the page");
    if (request >= 4)
        sym_cover("export");
}
extern "C" void harness_main()
{
    env_begin(penv);
    static char const * const req[] = {"-h", "--help", "-hh", "--advanced-help", "html", "man"};
    unsigned n = 1 + sym_choice(3 + VP_TIER);
    if (n == 1)
        request = sym_choice(7);
    else if (n == 2)
        request = "\0\2\4\5\6"[sym_choice(5)];
    else
        request = 2 * sym_choice(2);
    std::vector<std::string> args{"app"};
    for (unsigned i = 0; i < n; ++i)
    {
        element e{};
        e.kind = n == 1 ? sym_choice(8) : n == 2 ? (i ? 1 + sym_choice(7) : 3 * sym_choice(3)) : i == 0 ? 2 + sym_choice(2) : i == 1 ? 3 + 2 * sym_choice(2) : i == 2 ? 7 * sym_choice(2) : 1;
        e.adv = sym_bool();
        e.hid = e.kind <= 2 && sym_bool();
        e.text = "Element" + std::to_string(i);
        e.text[0] = "PQRS"[i];
        unsigned ids = n == 1 ? sym_choice(3) : i == 0 && n == 2 ? 1 : 0;
        if (ids != 1)
        {
            e.sid = i ? 'w' + i : sym_byte();
            sym_assume(i || ((e.sid >= 'a') & (e.sid <= 'g')) || ((e.sid >= '0') & (e.sid <= '9')));
        }
        if (ids != 2)
        {
            e.lid = "lo" + std::to_string(i) + "-g";
            if (!i)
            {
                char c = sym_byte();
                sym_assume(((c >= 'a') & (c <= 'z')) | (c == '_') | (c == '-'));
                e.lid.push_back(c);
            }
        }
        els.push_back(e);
    }
    positional = request != 6 && n < 3 && sym_choice(2);
    if (request == 6)
        for (auto & e : els)
        {
            if (e.kind > 2)
                continue;
            args.push_back(e.lid.empty() ? std::string{"-"} + e.sid : "--" + e.lid);
            if (e.kind < 2)
                args.push_back(e.kind ? "7" : "v");
        }
    if (request == 6)
        sym_assume(args.size() > 1); // no arguments at all: the short help
    else
    {
        if (n == 1 && sym_choice(2))
            args.push_back("x");
        if (request >= 4)
            args.push_back("--export-help");
        args.push_back(req[request]);
    }
    note_args(args);
    static sharg::parser p{"app", args, sharg::update_notifications::off};
    for (unsigned i = 0; i < n; ++i)
    {
        element & e = els[i];
        sharg::config cfg{.short_id = e.sid, .long_id = e.lid, .description = e.text, .advanced = e.adv, .hidden = e.hid};
        switch (e.kind)
        {
        case 0: p.add_option(values[i], cfg); break;
        case 1: p.add_option(lists[i], cfg); break;
        case 2: p.add_flag(flags[i], cfg); break;
        case 3: p.add_section(e.text, e.adv); break;
        case 4: p.add_subsection(e.text, e.adv); break;
        case 5: p.add_line(e.text, false, e.adv); break;
        case 6: p.add_line(e.text, true, e.adv); break;
        default: p.add_list_item("key", e.text, e.adv);
        }
    }
    static std::string pv;
    if (positional)
        p.add_positional_option(pv, sharg::config{.description = "Pos9"});
    cap = new captured;
    run([&] { p.parse(); }, check);
}
