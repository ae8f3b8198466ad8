// P25: line breaks for every terminal width.
// @bounds every terminal width (16 bits); text of 1..4 words whose lengths are 1, 28..30, 67..69, 111 or 112 characters (thorough: six words), one of them with mark-up; printed as a line, as the description of a flag or of a list item
// @cover narrow, wide, middle, unknown, wrapped, long-word
// @budget 60 600
#include "nofmt.h"
#include "page.h"
using namespace vp;
static std::string text;
static unsigned where;
static uint16_t columns;
static void check(int o)
{
    sym_assert(o == EXITED && exit_code == 0, "the help page is printed");
    std::string r;
    sym_assert(region(cap->out.data, "FIRST\033[0m\n", "\n\033[1mLAST", r), "the sections are on the page in order");
    std::vector<std::string> want;
    std::string term = where == 1 ? "\\fB-q\\fP" : where == 2 ? "key" : "";
    for (auto const & w : words(term + " " + text))
        want.push_back(rendered(w, true));
    std::vector<std::string> got = words(r);
    sym_assert(got == want, "the words of the text are printed in order");
    unsigned c = columns == 0 ? 80 : columns;
    unsigned width = (c < 40 ? 40 : c > 120 ? 120 : c) - 2;
    bool over = false, longer = false;
    bool first = where == 2; // the term of the list item
    for (auto const & l : lines(r))
    {
        auto ws = words(l);
        if (first)
            ws.erase(ws.begin());
        first = false;
        unsigned n = l.size();
        for (size_t i = 0; i < l.size(); ++i)
            n -= l[i] == '\033' ? 4 : 0;
        over = over | ((n > width) & (ws.size() > 1));
        longer = longer || (ws.size() == 1 && n > 110);
    }
    sym_assert(!over, "a line with more than one word is not wider than the terminal");
    if (lines(r).size() > 3)
        sym_cover("wrapped");
    if (longer)
        sym_cover("long-word");
    sym_cover(columns == 0 ? "unknown" : columns <= 40 ? "narrow" : columns >= 120 ? "wide" : "middle");
}
extern "C" void harness_main()
{
    env_begin(penv);
    where = sym_choice(3);
    penv.tty = true;
    columns = sym_u16();
    penv.columns = columns;
    static unsigned const lens[] = {1, 28, 29, 30, 67, 68, 69, 111, 112};
    unsigned n = 1 + sym_choice(4);
    for (unsigned i = 0; i < n + 2 * VP_TIER; ++i)
    {
        unsigned l = lens[i == 0 ? sym_choice(9) : i == 1 ? sym_choice(3) : i == 2 ? 2 + 2 * sym_choice(2) : 1];
        std::string w(l, 'a' + i);
        if (i == 1)
            w = "\\fI" + w + "\\fP\\-";
        text += (i ? " " : "") + w;
    }
    note("text [" + text + "] where " + std::to_string(where) + " columns " + std::to_string(columns));
    static sharg::parser p{"app", {"app", "-h"}, sharg::update_notifications::off};
    static bool flag{};
    p.add_section("first");
    if (where == 0)
        p.add_line(text, false);
    else if (where == 1)
        p.add_flag(flag, sharg::config{.short_id = 'q', .description = text});
    else
        p.add_list_item("key", text);
    p.add_section("last");
    cap = new captured;
    run([&] { p.parse(); }, check);
}
