// P32: defaults and value lists on the help pages.
// @bounds options of type string, path, char, bool, enumeration, signed and unsigned 8 and 16 bit integers, double (one value), and lists (0..2 elements) of strings, paths, bools, enumerations, 8 and 16 bit integers; list positionals; the value symbolic (strings and paths: 0..3, thorough 0..4, arbitrary bytes; elements of lists 0..2; every integer, every enumerator and one without a name); required, with a default message of 1..2 arbitrary bytes, or neither; a value list of strings, integers or enumerators as validator; flags; on -h, html and man (there letters and digits only)
// @assume integers are printed by a stub (num_put is in libstdc++.so); the replay prints them for real; white space is compared up to its amount
// @cover required, message, value, empty-list, list, values, flag, positional, quoted
// @variant release -DNDEBUG
// @budget 60 600
#define VP_DECIMAL_TEXT
#include "pathmodel.h"
#include "page.h"
enum class colour { red, green, odd };
inline auto enumeration_names(colour)
{
    return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"green", colour::green}};
}
using namespace vp;
static unsigned request, mode, valid;
static bool positional;
static std::string message, expect, region_text;
static std::string text(unsigned mn, unsigned mx)
{
    std::string s = any(mn, mx);
    if (request)
        for (char c : s)
            sym_assume(((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')));
    return s;
}
static std::string cquoted(std::string const & s)
{
    std::string r{"\""};
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r.push_back('\\');
            sym_cover("quoted");
        }
        r.push_back(c);
    }
    return r + "\"";
}
static std::string decimal(long v)
{
#ifdef VP_SYMBOLIC
    std::string r = "N";
    for (int i = 60; i >= 0; i -= 4)
        r.push_back((char)('@' | ((v >> i) & 15)));
    return r;
#else
    return std::to_string(v);
#endif
}
// what a value is to look like
static std::string shown(std::string const & v) { return cquoted(v); }
static std::string shown(std::filesystem::path const & v) { return cquoted(v.native()); }
static std::string shown(char v) { return std::string(1, v); }
static std::string shown(bool v) { return decimal(v); }
static std::string shown(double) { return "0.25"; }
static std::string shown(colour v) { return v == colour::red ? "red" : v == colour::green ? "green" : "<UNKNOWN_VALUE>"; }
static std::string shown(int8_t v) { return decimal(v); }
static std::string shown(uint8_t v) { return decimal(v); }
static std::string shown(int16_t v) { return decimal(v); }
static std::string shown(uint16_t v) { return decimal(v); }
template <typename T>
static std::string shown(std::vector<T> const & v)
{
    std::string r{"["};
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? ", " : "") + shown(static_cast<T>(v[i]));
    sym_cover(v.empty() ? "empty-list" : "list");
    return r + "]";
}
// arbitrary values
static unsigned maxlen = 3 + VP_TIER;
static void make(std::string & v) { v = text(0, maxlen); }
static void make(std::filesystem::path & v) { v = text(0, maxlen); }
static void make(char & v) { v = text(1, 1)[0]; }
static void make(bool & v) { v = sym_choice(2); }
static void make(double & v) { v = 0.25; }
static void make(colour & v) { v = (colour)sym_choice(3); }
static void make(int8_t & v) { v = (int8_t)sym_byte(); }
static void make(uint8_t & v) { v = (uint8_t)sym_byte(); }
static void make(int16_t & v) { v = (int16_t)sym_u32(); }
static void make(uint16_t & v) { v = (uint16_t)sym_u32(); }
template <typename T>
static void make(std::vector<T> & v)
{
    maxlen = request ? 1 : 2;
    unsigned n = sym_choice(3);
    while (n--)
    {
        T x{};
        make(x);
        v.push_back(std::move(x));
    }
}
static sharg::parser * p;
template <typename T, typename V>
static void add(T & v, V validator, std::string const & values)
{
    expect = "Desc";
    if (positional)
        expect += " Default: " + shown(v);
    else if (mode == 2) // strings and paths: quoted
        expect += " Default: " + (std::same_as<T, std::string> || std::same_as<T, std::filesystem::path> ? cquoted(message) : message);
    else if (mode == 0)
        expect += " Default: " + shown(v);
    if (!values.empty())
        expect += ". Value must be one of " + values + ".";
    if (positional)
    {
        p->add_positional_option(v, sharg::config{.description = "Desc", .validator = validator});
        return;
    }
    p->add_option(v, sharg::config{.short_id = 'o', .description = "Desc", .default_message = message, .required = mode == 1, .validator = validator});
}
template <typename T>
static void option()
{
    static T v{};
    make(v);
    add(v, sharg::detail::default_validator{}, "");
}
// a value list of two values
template <typename T, typename E>
static void with_list(std::string (*name)(E const &))
{
    static T v{};
    std::vector<E> vals(2);
    make(vals[0]);
    make(vals[1]);
    sym_cover("values");
    add(v, sharg::value_list_validator<E>{vals}, "[" + name(vals[0]) + ", " + name(vals[1]) + "]");
}
static void check(int o)
{
    sym_assert(o == EXITED && exit_code == 0, "the page is printed");
    std::string const & page = cap->out.data;
    std::string got;
    size_t a = page.find(" Desc");
    if (request)
        a = page.find(request == 1 ? "<dd>Desc" : "\nDesc");
    sym_assert(a != std::string::npos, "the description is on the page");
    size_t b = page.find(positional ? request == 0 ? "OPTIONS" : request == 1 ? "</dd>" : ".SH" : request == 0 ? "\n    -z" : request == 1 ? "</dd>" : ".TP", a);
    sym_assert(b != std::string::npos, "the next element is on the page");
    got = page.substr(a, b - a);
    if (request == 1)
        got = html_text(got);
    std::vector<std::string> g = words(got), w = words(rendered(expect, false));
    if (!sym_symbolic_run())
    {
        note("got [" + got + "]");
        note("expected [" + expect + "]");
    }
    sym_assert(g.size() == w.size(), "the description, the default and the values are printed, and nothing else");
    for (size_t i = 0; i < g.size(); ++i)
        sym_assert(g[i] == w[i], "the default and the values are printed as they are");
    if (positional)
        sym_cover("positional");
    else if (mode == 3)
        sym_cover("flag");
    else
        sym_cover(mode == 0 ? "value" : mode == 1 ? "required" : "message");
}
extern "C" void harness_main()
{
    env_begin(penv);
    request = sym_choice(3);
    static std::vector<std::string> args{"app"};
    if (request)
        args.push_back("--export-help");
    args.push_back(request == 0 ? "-h" : request == 1 ? "html" : "man");
    p = new sharg::parser{"app", args, sharg::update_notifications::off};
    static bool flag, flag2;
    static int dummy;
    unsigned what = sym_choice(24);
    if (what >= 12 && what <= 17)
        positional = sym_choice(2);
    mode = what == 23 ? 3 : positional ? 0 : sym_choice(3);
    if (mode == 2)
        message = text(1, what < 2 ? 2 : 1);
    switch (what)
    {
    case 0: option<std::string>(); break;
    case 1: option<std::filesystem::path>(); break;
    case 2: option<char>(); break;
    case 3: option<bool>(); break;
    case 4: option<double>(); break;
    case 5: option<colour>(); break;
    case 6: option<int8_t>(); break;
    case 7: option<uint8_t>(); break;
    case 8: option<int16_t>(); break;
    case 9: option<uint16_t>(); break;
    case 10: option<std::vector<int16_t>>(); break;
    case 11: option<std::vector<uint16_t>>(); break;
    case 12: option<std::vector<std::string>>(); break;
    case 13: option<std::vector<std::filesystem::path>>(); break;
    case 14: option<std::vector<bool>>(); break;
    case 15: option<std::vector<colour>>(); break;
    case 16: option<std::vector<int8_t>>(); break;
    case 17: option<std::vector<uint8_t>>(); break;
    case 18: maxlen = 2; with_list<std::string, std::string>(+[](std::string const & s) { return s; }); break;
    case 19: with_list<int8_t, int8_t>(+[](int8_t const & v) { return shown(v); }); break;
    case 20: with_list<colour, colour>(+[](colour const & v) { return shown(v); }); break;
    case 21: maxlen = 1; with_list<std::vector<std::string>, std::string>(+[](std::string const & s) { return s; }); break;
    case 22: with_list<std::vector<uint8_t>, uint8_t>(+[](uint8_t const & v) { return shown(v); }); break;
    default:
        expect = "Desc";
        p->add_flag(flag2, sharg::config{.short_id = 'o', .description = "Desc"});
    }
    p->add_flag(flag, sharg::config{.short_id = 'z', .description = "Last"});
    (void)dummy;
    cap = new captured;
    run([] { p->parse(); }, check);
}
