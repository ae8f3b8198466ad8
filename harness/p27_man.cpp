// P27: the exported man page.
// @bounds text of 0..5 (list items and paragraphs; elsewhere 0..4; thorough: two more) arbitrary non-NUL bytes, at the start of a text or after a word, in one of 20 places (short description, description, synopsis, examples, section and subsection title, line, paragraph, key and text of a list item, flag and option descriptions, default value, default message, url, author, citation, date, version, title of the page); between elements of other kinds
// @assume the page is compared with the page of the same parser for the text "@@"; a line break in a title may become a blank
// @cover request, quote, newline, plain, title
// @budget 60 600
#include "pathmodel.h"
#include "page.h"
using namespace vp;
static std::string mid, mark;
static unsigned where;
static bool first;
static captured *cap0;
// zero-width marks in front of a control character at the start of a line protect the line
static std::string canonical(std::string const & s)
{
    std::string r;
    bool bol = true;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (bol && s[i] == '\\' && i + 2 < s.size() && s[i + 1] == '&' && ((s[i + 2] == '.') | (s[i + 2] == '\'')))
            ++i;
        else
            r.push_back(s[i]);
        bol = s[i] == '\n';
    }
    return r;
}
static std::vector<std::string> requests(std::string const & page, std::string & text)
{
    std::vector<std::string> r;
    for (std::string const & l : lines(page))
        if (!l.empty() && ((l[0] == '.') | (l[0] == '\'')))
            r.push_back(l);
        else
            text += l + "\n";
    return r;
}
static bool in_request()
{
    return where == 5 || where == 6 || where >= 17;
}
static std::string expected(std::string const & s, bool request = false)
{
    std::string t = mid;
    if (request)
        for (char & c : t)
            c = c == '\n' ? ' ' : c;
    if (where == 5)
        for (char & c : t)
            c = (c >= 'a' && c <= 'z') ? c - 32 : c;
    size_t a = s.find("@@");
    sym_assert(a != std::string::npos, "the place is on the page");
    return s.substr(0, a) + t + s.substr(a + 2);
}
static void setup(sharg::parser & p, std::string const & t)
{
    static bool flag{}, flag2{};
    static std::string v, w{"a"};
    auto & i = p.info;
    std::string const text = (first ? "" : "x") + t + "y";
    if (where == 0)
        i.short_description = text;
    else if (where == 1)
        i.description = {"one", text, "three"};
    else if (where == 2)
        i.synopsis = {"x " + text};
    else if (where == 3)
        i.examples = {text};
    else if (where == 11)
        i.url = text;
    else if (where == 12)
        i.author = text;
    else if (where == 13)
        i.citation = text;
    else if (where == 17)
        i.date = text;
    else if (where == 18)
        i.version = text;
    else if (where == 19)
        i.man_page_title = text;
    p.add_flag(flag, sharg::config{.short_id = 'a', .description = where == 4 ? text : "d"});
    if (where == 5)
        p.add_section(text);
    if (where == 6)
        p.add_subsection(text);
    if (where == 7 || where == 8)
        p.add_line(text, where == 8);
    if (where == 9 || where == 10)
        p.add_list_item(where == 9 ? "k" : text, where == 9 ? text : "d");
    v = "";
    if (where == 14)
        v = text;
    p.add_option(v, sharg::config{.short_id = 'b', .description = where == 15 ? text : "d"});
    if (where == 16)
        p.add_option(w, sharg::config{.short_id = 'c', .default_message = text});
    p.add_line("end", false);
}
static void check(int o)
{
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    std::string const & page = cap->out.data;
    std::string text, text0;
    std::vector<std::string> r = requests(page, text), r0 = requests(cap0->out.data, text0);
    bool title = where == 5 || where == 6 || where == 19;
    sym_assert(r.size() == r0.size(), "text never starts a request");
    for (size_t i = 0; i < r.size(); ++i)
        sym_assert(r[i] == (in_request() && r0[i].find("@@") != std::string::npos ? expected(r0[i], true) : r0[i]), "the requests are those of the generator");
    if (!title)
        sym_assert(canonical(text) == canonical(expected(text0)), "all text is on the page");
    else
        sym_assert(text == text0, "all text is on the page");
    bool nl = mid.find('\n') != std::string::npos;
    sym_cover(title ? "title" : nl ? "newline" : "plain");
    if (!title && mid.size() && ((mid[0] == '.') & first))
        sym_cover("request");
    if (!title && nl && mid.find('\'') != std::string::npos)
        sym_cover("quote");
}
static void second(int);
extern "C" void harness_main()
{
    env_begin(penv);
    where = sym_choice(20);
    first = where == 5 || where == 6 || where >= 17 ? true : sym_choice(2);
    static sharg::parser p{"app", {"app", "--export-help", "man"}, sharg::update_notifications::off};
    setup(p, "@@");
    cap0 = new captured;
    run([&] { p.parse(); }, second);
}
static void second(int o) // called when the first page is complete
{
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    mid = any(0, (where == 8 || where == 9 ? 5 : 4) + 2 * VP_TIER);
    for (char c : mid)
    {
        if (where == 14 || where == 16) // quoting of default values: see P32
            sym_assume((c != '"') & (c != '\\'));
    }
    note("text [" + mid + "] where " + std::to_string(where));
    static sharg::parser p{"app", {"app", "--export-help", "man"}, sharg::update_notifications::off};
    setup(p, mid);
    cap = new captured;
    run([&] { p.parse(); }, check);
}
