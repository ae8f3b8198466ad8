// P36: the meta data on the pages.
// @bounds every subset of {version, date, url, short description, synopsis, description, examples} together with all or none of {short and long copyright, citation, author, e-mail}, and the other way round; every text one word with 1 (thorough 2) arbitrary characters of [u-z], lists of 1..2 texts; title and section (1..9) of the man page; -h, -hh, --version, --copyright, --export-help html, man and the short help; with and without subcommands
// @cover help, advanced, version, copyright-long, copyright-short, copyright-none, html, man, short, legal, no-legal, subcommands
// @budget 60 600
#include "pathmodel.h"
#include "page.h"
using namespace vp;
enum { VERSION, DATE, URL, SD, SYN, DESC, EX, SCOPY, LCOPY, CITE, AUTHOR, MAIL, COUNT };
static std::string val[COUNT], second[COUNT], title;
static bool set[COUNT], subs;
static unsigned request, section = 1;
static size_t count(std::string const & page, std::string const & s)
{
    size_t n = 0;
    if (s.empty())
        return 0;
    for (size_t i = 0; (i = page.find(s, i)) != std::string::npos; i += s.size())
        ++n;
    return n;
}
static std::string bold(std::string const & s)
{
    return request == 4 ? "<strong>" + s + "</strong>" : request == 5 ? "\\fB" + s + "\\fR" : s;
}
static std::string heading(std::string s)
{
    if (request == 4)
        return "<h2>" + s + "</h2>";
    for (char & c : s)
        c = c >= 'a' && c <= 'z' ? c - 32 : c;
    return request == 5 ? ".SH " + s + "\n" : "\n\n" + s + "\n";
}
static char const * const heads[] = {"Synopsis", "Description", "Options", "Examples", "Version", "Url", "Legal", "Subcommands"};
// the last heading in front of a position
static std::string below(std::string const & page, size_t at)
{
    std::string best;
    size_t pos = 0;
    for (auto h : heads)
        if (size_t k = page.find(heading(h)); k != std::string::npos && k < at && k >= pos)
        {
            pos = k;
            best = h;
        }
    return best;
}
// the text is on the page once, below its heading, with what belongs in front of it; or it is not on the page
static void expect(std::string const & page, int i, bool there, char const * head, std::string const & label, unsigned times = 1)
{
    sym_assert(count(page, val[i]) == (set[i] && there ? times : 0), "a text is shown exactly if it is set and belongs to the page");
    if (!set[i] || !there)
    {
        std::string l = label;
        while (!l.empty() && l.back() == ' ')
            l.pop_back(); // blanks at the end of a line
        if (!l.empty() && i != SD)
            sym_assert(count(page, l) == (i == VERSION || i == DATE ? there : 0), "nothing announces a text that is not set");
        return;
    }
    size_t at = page.rfind(val[i]);
    if (!label.empty())
        sym_assert(at >= label.size() && page.compare(at - label.size(), label.size(), label) == 0, "the text is announced as what it is");
    if (head)
        sym_assert(below(page, at) == head, "the text is below its heading");
    if (i == SYN || i == DESC || i == EX)
    {
        sym_assert(count(page, second[i]) == !second[i].empty() || second[i].empty(), "every text of a list is shown once");
        if (!second[i].empty())
            sym_assert(page.find(second[i]) > at && below(page, page.find(second[i])) == below(page, at), "the texts of a list are shown in order");
    }
}
static void check(int o)
{
    std::string const & page = cap->out.data;
    if (!sym_symbolic_run())
        note(page);
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    if (request == 3) // --copyright
    {
        expect(page, LCOPY, true, nullptr, "");
        expect(page, SCOPY, !set[LCOPY], nullptr, "");
        sym_assert(count(page, "not available") == !set[LCOPY], "missing copyright information is reported");
        for (int i : {VERSION, DATE, URL, SYN, DESC, EX, CITE, AUTHOR, MAIL})
            expect(page, i, false, nullptr, "");
        sym_cover(set[LCOPY] ? "copyright-long" : set[SCOPY] ? "copyright-short" : "copyright-none");
        return;
    }
    bool version = request == 2, brief = request == 6, full = !version && !brief;
    // the head of the page
    if (request == 4)
    {
        sym_assert(page.find("<title>app &mdash; " + val[SD] + "</title>") != std::string::npos, "title");
        sym_assert(page.find("<h1>app</h1>\n<div>" + val[SD] + "</div>") != std::string::npos, "name and short description");
        expect(page, SD, true, nullptr, "", 2);
    }
    else if (request == 5)
    {
        std::string th = ".TH APP " + std::to_string(section) + " \"" + val[DATE] + "\" \"app " + val[VERSION] + "\" \"" + title + "\"\n";
        sym_assert(page.compare(0, th.size(), th) == 0, "the first line of a man page");
        expect(page, SD, true, nullptr, ".SH NAME\napp \\- ");
    }
    else
    {
        std::string h = set[SD] ? "app - " + val[SD] : "app";
        h += "\n" + std::string(h.size(), '=') + "\n";
        sym_assert(page.compare(0, h.size(), h) == 0, "name and short description");
        expect(page, SD, true, nullptr, "");
    }
    if (brief)
    {
        expect(page, SYN, true, nullptr, "");
        for (int i : {VERSION, DATE, URL, DESC, EX, CITE, AUTHOR, MAIL, SCOPY, LCOPY})
            expect(page, i, false, nullptr, "");
        sym_cover("short");
        return;
    }
    expect(page, VERSION, true, "Version", bold("app version: "), request == 5 ? 2 : 1);
    expect(page, DATE, true, "Version", bold("Last update: "), request == 5 ? 2 : 1);
    sym_assert(count(page, bold("Sharg version: ") + sharg::sharg_version_cstring) == 1, "the version of the library");
    expect(page, URL, true, "Url", "");
    expect(page, SYN, full, "Synopsis", "");
    expect(page, DESC, full, "Description", "");
    expect(page, EX, full, "Examples", "");
    expect(page, SCOPY, full, "Legal", bold("app Copyright: "));
    expect(page, AUTHOR, full, "Legal", bold("Author: "));
    expect(page, MAIL, full, "Legal", bold("Contact: "));
    expect(page, CITE, full, "Legal", bold("In your academic works please cite: "));
    expect(page, LCOPY, false, nullptr, "");
    sym_assert(count(page, bold("--copyright") + ".") == (full && set[LCOPY]), "the long copyright is referred to");
    bool legal = full && (set[SCOPY] || set[LCOPY] || set[CITE] || set[AUTHOR] || set[MAIL]);
    bool has[] = {full && set[SYN], full && set[DESC], full, full && set[EX], true, set[URL], legal, full && subs};
    size_t last = 0;
    int order[] = {0, 1, 7, 2, 3, 4, 5, 6};
    for (int i : order)
    {
        sym_assert(count(page, heading(heads[i])) == has[i], "a heading is on the page exactly if there is something below it");
        if (has[i])
        {
            size_t k = page.find(heading(heads[i]));
            sym_assert(k > last, "the sections are in their order");
            last = k;
        }
    }
    if (full && subs)
    {
        std::string on = request == 4 ? "<strong>" : request == 5 ? "\\fB" : "", off = request == 4 ? "</strong>" : request == 5 ? "\\fP" : "";
        size_t one = page.find("- " + on + "one" + off + "\n"), two = page.find("- " + on + "two" + off + "\n");
        sym_assert(one != std::string::npos && two != std::string::npos && one < two && below(page, one) == "Subcommands" && below(page, two) == "Subcommands" && count(page, "by calling app one") == 1,
                   "the subcommands are listed");
        sym_cover("subcommands");
    }
    char const * const labels[] = {"help", "advanced", "version", "", "html", "man"};
    sym_cover(labels[request]);
    sym_cover(legal ? "legal" : "no-legal");
}
extern "C" void harness_main()
{
    env_begin(penv);
    request = sym_choice(7);
    unsigned group = sym_choice(3); // which texts vary
    for (int i = 0; i < COUNT; ++i)
        set[i] = (i >= SCOPY) == (group != 0) ? sym_bool() : group == 2;
    for (int i = 0; i < COUNT; ++i)
        if (set[i])
        {
            auto word = [&](char second)
            {
                std::string s{'Q', (char)('A' + i), second};
                for (int k = 0; k < 1 + VP_TIER; ++k)
                {
                    char c = sym_byte();
                    sym_assume((c >= 'u') & (c <= 'z'));
                    s.push_back(c);
                }
                return s;
            };
            val[i] = word('1');
            if ((i == SYN || i == DESC || i == EX) && set[DATE])
                second[i] = word('2');
        }
    subs = group == 2 && set[CITE];
    static std::vector<std::string> args{"app"};
    static char const * const req[] = {"-h", "-hh", "--version", "--copyright", "html", "man"};
    if (request < 6)
    {
        if (request >= 4)
            args.push_back("--export-help");
        args.push_back(req[request]);
    }
    static sharg::parser p{"app", args, sharg::update_notifications::off, subs ? std::vector<std::string>{"one", "two"} : std::vector<std::string>{}};
    auto & i = p.info;
    i.version = val[VERSION];
    i.date = val[DATE];
    i.url = val[URL];
    i.short_description = val[SD];
    i.short_copyright = val[SCOPY];
    i.long_copyright = val[LCOPY];
    i.citation = val[CITE];
    i.author = val[AUTHOR];
    i.email = val[MAIL];
    auto list = [&](std::vector<std::string> & l, int k)
    {
        if (set[k])
            l.push_back(val[k]);
        if (!second[k].empty())
            l.push_back(second[k]);
    };
    list(i.synopsis, SYN);
    list(i.description, DESC);
    list(i.examples, EX);
    if (request == 5)
    {
        title = set[URL] ? "Manual" : "";
        section = sym_byte();
        sym_assume(section >= 1 && section <= 9);
        i.man_page_title = title;
        i.man_page_section = section;
    }
    cap = new captured;
    run([&] { p.parse(); }, check);
}
