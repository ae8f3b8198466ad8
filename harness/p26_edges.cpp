// P26: texts that begin or end with a special character.
// @bounds a text of 1..3 (description, list item; elsewhere 1..2; thorough: one more) arbitrary non-NUL bytes, alone, behind or in front of a word, in one of 19 places (short description, description, synopsis, examples, section, subsection, line, paragraph, key and text of a list item, flag and option descriptions, default value, default message, url, author, citation, date, version); between elements of other kinds
// @assume the page is compared with the page of the same parser for the text "@@"
// @cover alone, begins, ends, reference, quote, markup
// @budget 60 600
#include "pathmodel.h"
#include "page.h"
using namespace vp;
static std::string mid, text;
static unsigned where, form;
static captured * cap0;
static void setup(sharg::parser & p, std::string const & t)
{
    static bool flag{}, flag2{};
    static std::string v, w{"a"};
    auto & i = p.info;
    if (where == 0)
        i.short_description = t;
    else if (where == 1)
        i.description = {"one", t, "three"};
    else if (where == 2)
        i.synopsis = {"x " + t};
    else if (where == 3)
        i.examples = {t};
    else if (where == 11)
        i.url = t;
    else if (where == 12)
        i.author = t;
    else if (where == 13)
        i.citation = t;
    else if (where == 17)
        i.date = t;
    else if (where == 18)
        i.version = t;
    p.add_flag(flag, sharg::config{.short_id = 'a', .description = where == 4 ? t : "d"});
    if (where == 5)
        p.add_section(t);
    if (where == 6)
        p.add_subsection(t);
    if (where == 7 || where == 8)
        p.add_line(t, where == 8);
    if (where == 9 || where == 10)
        p.add_list_item(where == 9 ? "k" : t, where == 9 ? t : "d");
    v = where == 14 ? t : "";
    p.add_option(v, sharg::config{.short_id = 'b', .description = where == 15 ? t : "d"});
    if (where == 16)
        p.add_option(w, sharg::config{.short_id = 'c', .default_message = t});
    p.add_line("end", false);
}
static void check(int o)
{
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    std::string const & page = cap->out.data;
    std::string const & page0 = cap0->out.data;
    std::string e = html_error(page);
    if (!e.empty())
        note("page: " + e);
    sym_assert(e.empty(), "the page is well formed");
    size_t at = 0, from = 0;
    unsigned places = 0;
    for (size_t k; (k = page0.find("@@", from)) != std::string::npos; from = k + 2)
    {
        sym_assert(page.compare(at, k - from, page0, from, k - from) == 0, "the rest of the page does not depend on the text");
        at += k - from;
        size_t next = page0.find("@@", k + 2);
        std::string behind = next == std::string::npos ? page0.substr(k + 2) : page0.substr(k + 2, next - k - 2);
        size_t end = next == std::string::npos ? page.size() - behind.size() : page.find(behind, at);
        sym_assert(end != std::string::npos && end >= at, "the rest of the page does not depend on the text");
        bool raw = where == 0 && places == 0; // <title>: no mark-up
        std::string got = html_text(page.substr(at, end - at));
        sym_assert(got == (raw ? text : rendered(text, false)), "the text appears as it was written");
        at = end;
        ++places;
    }
    sym_assert(places == (where == 0 ? 2 : 1), "the text is on the page");
    sym_assert(page.substr(at) == page0.substr(from), "the rest of the page does not depend on the text");
    sym_cover(form == 0 ? "alone" : form == 1 ? "begins" : "ends");
    if (mid.find('<') != std::string::npos)
        sym_cover("reference");
    if (mid.find('\'') != std::string::npos)
        sym_cover("quote");
    if (mid.find("\\f") != std::string::npos)
        sym_cover("markup");
}
static void second(int o) // called when the first page is complete
{
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    form = sym_choice(3);
    mid = any(1, (where == 1 || where == 9 ? 3 : 2) + VP_TIER);
    if (where == 14 || where == 16) // quoting of default values: see P32
        for (char c : mid)
            sym_assume((c != '"') & (c != '\\'));
    text = form == 0 ? mid : form == 1 ? mid + "yy" : "yy" + mid;
    note("text [" + text + "] where " + std::to_string(where));
    static sharg::parser p{"app", {"app", "--export-help", "html"}, sharg::update_notifications::off};
    setup(p, text);
    cap = new captured;
    run([&] { p.parse(); }, check);
}
extern "C" void harness_main()
{
    env_begin(penv);
    where = sym_choice(19);
    static sharg::parser p{"app", {"app", "--export-help", "html"}, sharg::update_notifications::off};
    setup(p, "@@");
    cap0 = new captured;
    run([&] { p.parse(); }, second);
}
