// P30: the command line of the version check.
// @bounds HOME and TMPDIR: 0..4 (thorough 0..6) arbitrary bytes; version: 0..4 (thorough 5) arbitrary bytes, or 1.2.3 with 0..2 arbitrary bytes in front, between and behind; application name: 1..3 arbitrary bytes; wget, curl or neither present
// @assume operating system calls are served by an in-memory model (harness/env.h); all directories exist and can be written to; std::filesystem::path follows harness/pathmodel.h (cross-checked by replaying against libstdc++); the shell splits words as in POSIX sh, written down in shell() below
// @cover wget, curl, none, home, tmp, version, default-version, bad-name, quote, blank
// @variant release -DNDEBUG
// @variant debug -UNDEBUG
// @budget 60 600
#include "update.h"
#include "pathmodel.h"
#include "fsmodel.h"
using namespace vp;
static std::string dir, version, app;
static bool use_tmp, wget, curl;
// The words of a simple command. False if it is anything else: an unquoted character that a shell treats specially.
static bool shell(std::string const & c, std::vector<std::string> & words)
{
    std::string w;
    bool in = false;
    for (size_t i = 0; i < c.size(); ++i)
    {
        char x = c[i];
        if (x == ' ' || x == '\t')
        {
            if (in)
                words.push_back(w);
            w.clear();
            in = false;
        }
        else if (x == '\'')
        {
            in = true;
            for (++i; i < c.size() && c[i] != '\''; ++i)
                w.push_back(c[i]);
            if (i == c.size())
                return false;
        }
        else if (x == '"')
        {
            in = true;
            for (++i; i < c.size() && c[i] != '"'; ++i)
            {
                if (c[i] == '$' || c[i] == '`')
                    return false;
                if (c[i] == '\\' && i + 1 < c.size())
                {
                    char n = c[i + 1];
                    if (n == '$' || n == '`' || n == '"' || n == '\\')
                        ++i;
                    else if (n == '\n')
                    {
                        ++i;
                        continue;
                    }
                }
                w.push_back(c[i]);
            }
            if (i == c.size())
                return false;
        }
        else if (x == '\\')
        {
            if (++i == c.size())
                return false;
            if (c[i] == '\n')
                continue;
            in = true;
            w.push_back(c[i]);
        }
        else
        {
            bool plain = ((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | ((x >= '0') & (x <= '9')) | (x == '.') | (x == '/') | (x == '_')
                       | (x == '-') | (x == ':') | (x == '=') | (x == ',') | (x == '+') | (x == '%') | (x == '@') | (x < 0);
            if (!plain)
                return false;
            in = true;
            w.push_back(x);
        }
    }
    if (in)
        words.push_back(w);
    return true;
}
static bool fixed_word(std::string const & w)
{
    for (char x : w)
        if (!(((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | ((x >= '0') & (x <= '9')) | (x == '.') | (x == '/') | (x == '_') | (x == '-')
              | (x == '=')))
            return false;
    return true;
}
// digits.digits.digits at the start, or 0.0.0
static std::string digits(std::string const & s)
{
    size_t i = 0;
    for (int k = 0; k < 3; ++k)
    {
        size_t b = i;
        while (i < s.size() && (s[i] >= '0') & (s[i] <= '9'))
            ++i;
        if (i == b)
            return "0.0.0";
        if (k < 2)
        {
            if (i >= s.size() || s[i] != '.')
                return "0.0.0";
            ++i;
        }
    }
    return s.substr(0, i);
}
static bool good_name()
{
    for (char x : app)
        if (!(((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | ((x >= '0') & (x <= '9')) | (x == '_') | (x == '-')))
            return false;
    return true;
}
static void check(int o)
{
    if (!good_name())
    {
        sym_cover("bad-name");
        sym_assert(o == DESIGN && requests() == 0 && E->system_calls.empty(), "a name with other characters is refused before any command");
        return;
    }
    sym_assert(o == OK, "the version check does not fail the parse");
    std::string base = dir;
    if (!base.empty() && base.back() != '/')
        base.push_back('/');
    if (!use_tmp)
        base += ".config/seqan/";
    std::string const out = base + app + ".version";
    std::string const ver = digits(version);
    std::string const url = "https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_" + app + "_" + ver;
    std::string const quiet = " > /dev/null 2>&1";
    for (auto const & c : E->system_calls)
    {
        sym_assert(c.size() > quiet.size() && c.compare(c.size() - quiet.size(), quiet.size(), quiet) == 0, "the command is silent");
        std::vector<std::string> words;
        sym_assert(shell(c.substr(0, c.size() - quiet.size()), words), "the command is a single simple command");
        bool request = c.find("https://") != std::string::npos;
        if (request)
        {
            sym_assert(words.size() > 2, "program, path and address");
            sym_assert(words[words.size() - 2] == out, "the path of the version file is one literal word");
            sym_assert(words.back() == url, "the address is fixed apart from the name and the version numbers");
            words.pop_back();
            words.pop_back();
        }
        for (auto const & w : words)
            sym_assert(fixed_word(w), "the invocation of the program is fixed");
    }
    sym_assert(requests() == (wget || curl), "one request if there is a program for it");
    sym_cover(wget ? "wget" : curl ? "curl" : "none");
    sym_cover(use_tmp ? "tmp" : "home");
    sym_cover(ver == "0.0.0" ? "default-version" : "version");
    for (char x : dir)
    {
        if (x == '\'')
            sym_cover("quote");
        if (x == ' ')
            sym_cover("blank");
    }
}
#ifdef VP_SYMBOLIC
namespace std::filesystem
{
VP_HIDDEN path temp_directory_path(error_code & e)
{
    e.clear();
    return path{*vp::E->tmpdir};
}
} // namespace std::filesystem
#endif
extern "C" void harness_main()
{
    env_begin(uenv);
    uenv.nodes.reserve(32);
    add_node("/d", 'd');
    add_node("/d/dummy.txt", 'f');
    app = "app";
    dir = "/home/u";
    version = "1.2.3";
    wget = curl = true;
    use_tmp = sym_choice(2);
    switch (sym_choice(4))
    {
    case 0:
        dir = any(use_tmp ? 1 : 0, 4 + 2 * VP_TIER);
        break;
    case 1: version = any(0, 4 + VP_TIER); break;
    case 2:
    {
        unsigned k = sym_choice(4);
        std::string x = any(0, 2);
        version = k == 0 ? x + "1.2.3" : k == 1 ? "1" + x + ".2.3" : k == 2 ? "1.2." + x + "3" : "1.2.3" + x;
        break;
    }
    default:
        app = any(1, 3);
        wget = sym_choice(2);
        curl = sym_choice(2);
    }
    note("dir [" + dir + "] version [" + version + "] name [" + app + "]");
    if (use_tmp)
        uenv.home_set = false;
    uenv.home = dir;
    uenv.tmpdir = &dir;
    // every directory exists, files are as they were created
    resolve = [](char const * p) -> int
    {
        std::string s{p};
        auto ends = [&](std::string const & e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; };
        if (ends(".version"))
            return -1;
        return find_node(ends("dummy.txt") ? "/d/dummy.txt" : "/d");
    };
    system_answer = [](char const * c) -> int
    {
        std::string s{c};
        if (s.find("https://") != std::string::npos)
            return 0;
        return s.find("wget") != std::string::npos ? !wget : !curl;
    };
    static std::vector<std::string> pos;
    cap = new captured;
    static sharg::parser * p;
    run([] {
            p = new sharg::parser{app, {app, "--version-check", "1", "x"}};
            p->add_positional_option(pos, sharg::config{});
            p->info.version = version;
            p->parse(); }, check);
}
