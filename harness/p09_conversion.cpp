// P09: bool, string, path and enumeration values.
// @bounds all texts of 0..5 (thorough 6) arbitrary non-NUL bytes; bool, string, std::filesystem::path, an enumeration with an own enumeration_names, an enumeration through sharg::custom::parsing, list<bool>, list<enumeration>, list<string>; as option value ('=' form or attached), detached, and as positional behind '--'
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off
// @cover bool-ok, bool-bad, enum-ok, enum-bad, custom-ok, string-ok, path-ok, list-bool, list-enum, list-string, path-with-blank
// @budget 30 300
#include "spec.h"
#include "pathmodel.h"
#include <map>
using namespace vp;
namespace own
{
enum class color
{
    red,
    green,
    blue
};
auto enumeration_names(color)
{
    return std::unordered_map<std::string_view, color>{{"red", color::red}, {"re", color::green}, {"r d", color::blue}, {"0", color::red}, {"", color::blue}};
}
} // namespace own
namespace other
{
enum class shape
{
    dot = 3,
    line = 9
};
} // namespace other
namespace sharg::custom
{
template <>
struct parsing<other::shape>
{
    static inline std::map<std::string_view, other::shape> const enumeration_names{{"dot", other::shape::dot}, {"Dot", other::shape::line}, {"-", other::shape::line}};
};
} // namespace sharg::custom
static std::string text;
static unsigned type, route;
static bool b = true, b0;
static std::string str{"def"};
static std::filesystem::path path{"def"};
static own::color col = own::color::green;
static other::shape sh = other::shape::dot;
static std::vector<bool> lb{true};
static std::vector<own::color> lc{own::color::green};
static std::vector<std::string> ls{"def"};
static int spec_bool(std::string const & t)
{
    return eq(t, "1") || eq(t, "true") ? 1 : eq(t, "0") || eq(t, "false") ? 0 : -1;
}
static int spec_color(std::string const & t)
{
    return eq(t, "red") || eq(t, "0") ? 0 : eq(t, "re") ? 1 : eq(t, "r d") || t.empty() ? 2 : -1;
}
static int spec_shape(std::string const & t)
{
    return eq(t, "dot") ? 3 : eq(t, "Dot") || eq(t, "-") ? 9 : -1;
}
static void check9(int o)
{
    if (route == 0 && text.empty())
    {
        sym_assert(o == TOO_FEW, "an option without a value is rejected");
        return;
    }
    switch (type)
    {
    case 0:
    {
        int e = spec_bool(text);
        sym_cover(e < 0 ? "bool-bad" : "bool-ok");
        sym_assert(o == (e < 0 ? USER_INPUT : OK), "bool accepts exactly 0, 1, true and false");
        sym_assert(b == (e < 0 ? b0 : e == 1), "bool is stored exactly (or left alone)");
        break;
    }
    case 1:
        sym_assert(o == OK, "every text is a string");
        sym_assert(eq(str, text), "strings are stored verbatim");
        sym_cover("string-ok");
        break;
    case 2:
        sym_assert(o == OK, "every text is a path");
        sym_assert(eq(path.native(), text), "paths are stored verbatim");
        sym_cover("path-ok");
        if (text.size() == 3 && text[1] == ' ')
            sym_cover("path-with-blank");
        break;
    case 3:
    {
        int e = spec_color(text);
        sym_cover(e < 0 ? "enum-bad" : "enum-ok");
        sym_assert(o == (e < 0 ? USER_INPUT : OK), "an enumeration accepts exactly its names");
        sym_assert((int)col == (e < 0 ? 1 : e), "the enumerator of the name is stored (or the variable left alone)");
        break;
    }
    case 4:
    {
        int e = spec_shape(text);
        if (e >= 0)
            sym_cover("custom-ok");
        sym_assert(o == (e < 0 ? USER_INPUT : OK), "an enumeration accepts exactly its names");
        sym_assert((int)sh == (e < 0 ? 3 : e), "the enumerator of the name is stored (or the variable left alone)");
        break;
    }
    case 5:
    {
        int e = spec_bool(text);
        sym_assert(o == (e < 0 ? USER_INPUT : OK), "bool accepts exactly 0, 1, true and false");
        if (e >= 0)
        {
            sym_assert(lb.size() == (route == 2 ? 1u : 2u), "a list holds one element per occurrence");
            sym_assert(lb.back() == (e == 1), "list elements are stored exactly");
            if (route != 2)
                sym_assert(!lb[0], "list elements are stored exactly");
            sym_cover("list-bool");
        }
        break;
    }
    case 6:
    {
        int e = spec_color(text);
        sym_assert(o == (e < 0 ? USER_INPUT : OK), "an enumeration accepts exactly its names");
        if (e >= 0)
        {
            sym_assert(lc.size() == (route == 2 ? 1u : 2u), "a list holds one element per occurrence");
            sym_assert((int)lc.back() == e, "list elements are stored exactly");
            sym_cover("list-enum");
        }
        break;
    }
    case 7:
        sym_assert(o == OK, "every text is a string");
        sym_assert(ls.size() == (route == 2 ? 1u : 2u), "a list holds one element per occurrence");
        sym_assert(eq(ls.back(), text), "list elements are stored verbatim");
        sym_cover("list-string");
        break;
    }
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    type = sym_choice(8);
    route = sym_choice(3);
    text = any(0, 5 + VP_TIER);
    b0 = b = type == 0 ? sym_choice(2) : 0;
    std::vector<std::string> full{"app"};
    bool list = type >= 5;
    if (list && route != 2)
        full.push_back(type == 6 ? "-o=red" : "-o0");
    if (route == 0)
        full.push_back("--opt=" + text);
    else if (route == 1)
    {
        full.insert(full.end(), {"-o", text});
        sym_assume(!eq(text, "--"));
        bool again = text.size() >= 2 && text[0] == '-' && text[1] == 'o';
        bool lng = text.size() >= 5 && starts(text, "--opt");
        sym_assume(!again && !lng);
    }
    else
        full.insert(full.end(), {"--", text});
    // the values of both identifiers of a list are collected by identifier: use the same one here
    if (list && route == 0)
        full.back() = "-o=" + text;
    note_args(full);
    parser = new sharg::parser{"app", full, sharg::update_notifications::off};
    auto add = [&](auto & v)
    {
        if (route == 2)
            parser->add_positional_option(v, sharg::config{});
        else
            parser->add_option(v, sharg::config{.short_id = 'o', .long_id = "opt"});
    };
    switch (type)
    {
    case 0: add(b); break;
    case 1: add(str); break;
    case 2: add(path); break;
    case 3: add(col); break;
    case 4: add(sh); break;
    case 5: add(lb); break;
    case 6: add(lc); break;
    case 7: add(ls); break;
    }
    run([] { parser->parse(); }, check9);
}
