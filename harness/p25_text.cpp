// P25: layout of texts on the help page.
// @bounds text with 0..4 (thorough 5; 3, 4 on a terminal) arbitrary non-NUL bytes, alone, or 1..2 (3) within words or at every position around the end of the first and second line (0..3 columns before to after); printed as a line, a paragraph, the description of a flag, of a list item or of the application, or as a synopsis; standard output is a terminal or not
// @assume the ctype table is that of the "C" locale
// @cover line, flag, item, description, synopsis, wrapped, long-word, markup, escaped, tty
// @budget 60 600
#include "nofmt.h"
#include "page.h"
using namespace vp;
static std::string text, first, last;
static unsigned where;
static bool tty, long_word, wrapped, markup, escaped;
static void check(int o)
{
    sym_assert(o == EXITED && exit_code == 0, "the help page is printed");
    std::string const & page = cap->out.data;
    std::string r;
    std::string from, to;
    auto bold = [&](std::string const & s) { return tty ? "\033[1m" + s + "\033[0m" : s; };
    if (where == 0 || where == 1 || where == 2 || where == 3)
    {
        from = "\n" + bold("FIRST") + "\n";
        to = "\n" + bold("LAST") + "\n";
    }
    else
    {
        from = "\n" + bold(where == 4 ? "DESCRIPTION" : "SYNOPSIS") + "\n";
        to = "\n" + bold("OPTIONS") + "\n";
    }
    sym_assert(region(page, from, to, r), "the sections are on the page in order");
    std::vector<std::string> want;
    std::string term = where == 2 ? "\\fB-q\\fP" : where == 3 ? "key" : "";
    std::string t = text;
    if (where == 5) // the name of the program is bold
    {
        size_t e = 0;
        while (e < t.size() && t[e] != ' ' && t[e] != '\t')
            ++e;
        t = "\\fB" + t.substr(0, e) + "\\fP" + t.substr(e);
    }
    for (auto const & w : words(term + " " + t))
        if (std::string x = rendered(w, tty); !x.empty())
            want.push_back(x);
    std::vector<std::string> got = words(r);
    sym_assert(got.size() == want.size(), "every word of the text is printed, broken only at blanks");
    for (size_t i = 0; i < got.size(); ++i)
        sym_assert(got[i] == want[i], "the words of the text are printed in order");
    // width of the lines
    for (auto const & l : lines(r))
    {
        auto ws = words(l);
        size_t n = l.size();
        for (auto const & w : ws)
            for (size_t i = 0; i + 3 < w.size(); ++i)
                n -= w[i] == '\033' ? 4 : 0; // font codes take no room
        sym_assert(n <= 78 || ws.size() <= 1, "a line with more than one word is not wider than the layout");
        long_word = long_word || n > 78;
    }
    sym_cover(where <= 1 ? "line" : where == 2 ? "flag" : where == 3 ? "item" : where == 4 ? "description" : "synopsis");
    if (lines(r).size() > 2)
        sym_cover("wrapped");
    if (long_word)
        sym_cover("long-word");
    if (t.find("\\f") != std::string::npos && where != 5)
        sym_cover("markup");
    if (t.find("\\-") != std::string::npos)
        sym_cover("escaped");
    if (tty)
        sym_cover("tty");
}
extern "C" void harness_main()
{
    env_begin(penv);
    where = sym_choice(6);
    unsigned form = sym_choice(4);
    tty = where != 1 && where != 3 && sym_choice(2);
    penv.tty = tty;
    std::string mid = any(form == 0 ? 0 : 1, (form == 0 ? tty ? 3 : 4 : 2) + VP_TIER);
    if (tty)
        for (char c : mid)
            sym_assume(c != '\033');
    unsigned tab = where == 2 || where == 3 ? 10 : 4;
    if (form == 0)
        text = mid;
    else if (form == 1)
        text = "ab" + mid + "cd \\fIef\\fP";
    else // near the end of the line
    {
        unsigned slack = sym_choice(6);
        std::string s = "w ";
        s += std::string(78 - tab - s.size() - slack, 'x');
        text = form == 2 ? s + mid + "yz end" : "v" + s + mid + " " + s + mid;
    }
    note("text [" + text + "] where " + std::to_string(where) + " tty " + std::to_string(tty));
    static sharg::parser p{"app", {"app", "-h"}, sharg::update_notifications::off};
    static bool flag{};
    if (where == 4)
        p.info.description.push_back(text);
    else if (where == 5)
        p.info.synopsis.push_back(text);
    else
    {
        p.add_section("first");
        if (where <= 1)
            p.add_line(text, where == 1);
        else if (where == 2)
            p.add_flag(flag, sharg::config{.short_id = 'q', .description = text});
        else
            p.add_list_item("key", text);
        p.add_section("last");
    }
    cap = new captured;
    run([&] { p.parse(); }, check);
}
