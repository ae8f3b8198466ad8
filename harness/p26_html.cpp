// P26: the exported HTML page.
// @bounds text of 0..4 bytes in the description, 0..3 in a list item, 0..2 elsewhere (thorough: two more), arbitrary non-NUL except the letters of the markers around it, in one of 17 places (short description, description, synopsis, examples, section, subsection, line, paragraph, key and text of a list item, flag and option descriptions, default value, default message, url, author, citation); between elements of other kinds
// @cover reference, markup, escaped, plain, title
// @budget 60 600
#include "pathmodel.h"
#include "page.h"
using namespace vp;
static std::string text, mid;
static unsigned where;
static void check(int o)
{
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    std::string const & page = cap->out.data;
    std::string e = html_error(page);
    if (!e.empty())
        note("page: " + e);
    sym_assert(e.empty(), "the page is well formed");
    size_t n = 0;
    for (size_t a = 0; (a = page.find("Q_", a)) != std::string::npos; ++a, ++n)
    {
        size_t b = page.find("ZZ", a);
        sym_assert(b != std::string::npos, "the text is on the page");
        std::string got = html_text(page.substr(a + 2, b - a - 2));
        bool title = where == 0 && n == 0; // no mark-up in <title>
        std::string want = title ? mid : rendered(text, false);
        if (!title)
        {
            size_t x = want.find("Q_"), y = want.find("ZZ");
            want = want.substr(x + 2, y - x - 2);
        }
        if (where == 14) // in double quotes
            want = rendered(want, false);
        sym_assert(got == want, "the text appears as it was written");
    }
    sym_assert(n == (where == 0 ? 2 : 1), "the text is on the page once");
    sym_cover(where == 0 ? "title" : mid.find('\\') == std::string::npos ? "plain" : mid.find("\\-") != std::string::npos ? "escaped" : "markup");
    if (mid.find('<') != std::string::npos)
        sym_cover("reference");
}
extern "C" void harness_main()
{
    env_begin(penv);
    where = sym_choice(17);
    mid = any(0, (where == 1 ? 4 : where == 9 ? 3 : 2) + 2 * VP_TIER);
    for (char c : mid)
        sym_assume(c != 'Z' && c != 'Q');
    text = "Q_" + mid + "ZZ";
    if (where == 2) // the first word of a synopsis is set in bold
        text = "x " + text;
    note("text [" + text + "] where " + std::to_string(where));
    static sharg::parser p{"app", {"app", "--export-help", "html"}, sharg::update_notifications::off};
    static bool flag{}, flag2{};
    static std::string v, w{"a"};
    auto & i = p.info;
    if (where == 0)
        i.short_description = text;
    else if (where == 1)
        i.description = {"one", text, "three"};
    else if (where == 2)
        i.synopsis = {text};
    else if (where == 3)
        i.examples = {text};
    else if (where == 11)
        i.url = text;
    else if (where == 12)
        i.author = text;
    else if (where == 13)
        i.citation = text;
    p.add_flag(flag, sharg::config{.short_id = 'a', .description = where == 4 ? text : ""});
    if (where == 5)
        p.add_section(text);
    if (where == 6)
        p.add_subsection(text);
    if (where == 7 || where == 8)
        p.add_line(text, where == 8);
    if (where == 9 || where == 10)
        p.add_list_item(where == 9 ? "k" : text, where == 9 ? text : "d");
    if (where == 14)
        v = "Q_" + mid + "ZZ";
    if (where == 14)
        for (char c : mid) // quoting of default values: see P32
            sym_assume(c != '"' && c != '\\');
    p.add_option(v, sharg::config{.short_id = 'b', .description = where == 15 ? text : ""});
    if (where == 16)
    {
        for (char c : mid)
            sym_assume(c != '"' && c != '\\');
        p.add_option(w, sharg::config{.short_id = 'c', .default_message = text});
    }
    p.add_line("end", false);
    cap = new captured;
    run([&] { p.parse(); }, check);
}
