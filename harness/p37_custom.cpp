// P37: values of user-defined types.
// @bounds all texts of 0..5 (thorough 7) arbitrary non-NUL bytes; a type read character by character up to a ';', whose operator fails at a '!'; a type read as a word; a type read as two parts around a ':'; single values and std::vector, std::list, std::deque of them with 1..3 elements (one of them arbitrary); as option value ('=' form, attached, detached) and as positional behind '--'; the value before: some value
// @assume std::istream is the standard library's (its precompiled parts: harness/streams.h)
// @cover char-ok, char-failed, char-rest, word-ok, word-none, word-rest, pair-ok, pair-failed, list, deque, vector, positional
// @budget 60 600
#include "spec.h"
#include <deque>
#include <list>
using namespace vp;
namespace own
{
struct chars
{
    std::string t;
};
std::istream & operator>>(std::istream & s, chars & v)
{
    v.t.clear();
    for (int c; (c = s.peek()) != std::char_traits<char>::eof() && c != ';'; s.get())
    {
        if (c == '!')
        {
            s.setstate(std::ios::failbit);
            break;
        }
        v.t.push_back((char)c);
    }
    return s;
}
std::ostream & operator<<(std::ostream & s, chars const & v)
{
    return s << v.t;
}
struct word
{
    std::string t;
};
std::istream & operator>>(std::istream & s, word & v)
{
    return s >> v.t;
}
std::ostream & operator<<(std::ostream & s, word const & v)
{
    return s << v.t;
}
struct couple
{
    std::string a, b;
};
std::istream & operator>>(std::istream & s, couple & v)
{
    std::getline(s, v.a, ':');
    if (s.eof())
        s.setstate(std::ios::failbit);
    else
        s >> v.b;
    return s;
}
std::ostream & operator<<(std::ostream & s, couple const & v)
{
    return s << v.a << ':' << v.b;
}
} // namespace own
// the operators on a text: accepted with which value?
struct result
{
    bool ok;
    std::string v;
    char const * label;
};
static bool blank(char c)
{
    return (c == ' ') | ((c >= '\t') & (c <= '\r'));
}
static std::string rest_word(std::string const & t, size_t i, bool & ok)
{
    std::string w;
    while (i < t.size() && blank(t[i]))
        ++i;
    while (i < t.size() && !blank(t[i]))
        w.push_back(t[i++]);
    ok = !w.empty() && i == t.size();
    return w;
}
static result spec(unsigned type, std::string const & t)
{
    if (type == 0)
    {
        for (char c : t)
        {
            if (c == '!')
                return {false, "", "char-failed"};
            if (c == ';')
                return {false, "", "char-rest"};
        }
        return {true, t, "char-ok"};
    }
    bool ok;
    if (type == 1)
    {
        std::string w = rest_word(t, 0, ok);
        return {ok, w, ok ? "word-ok" : w.empty() ? "word-none" : "word-rest"};
    }
    size_t k = 0;
    while (k < t.size() && t[k] != ':')
        ++k;
    if (k == t.size())
        return {false, "", "pair-failed"};
    std::string w = rest_word(t, k + 1, ok);
    return {ok, t.substr(0, k) + ":" + w, ok ? "pair-ok" : "pair-failed"};
}
static std::string text_of(own::chars const & v)
{
    return v.t;
}
static std::string text_of(own::word const & v)
{
    return v.t;
}
static std::string text_of(own::couple const & v)
{
    return v.a + ":" + v.b;
}
static std::vector<std::string> (*stored)();
static std::vector<std::string> values;
static unsigned type, shape, route;
static void check37(int o)
{
    std::vector<std::string> want;
    bool ok = true;
    for (auto const & t : values)
    {
        result r = spec(type, t);
        ok = ok && r.ok;
        want.push_back(r.v);
        sym_cover(r.label);
    }
    sym_assert(o == (ok ? OK : USER_INPUT), "accepted exactly if the operator of the type succeeds and consumes the whole text");
    if (ok)
    {
        std::vector<std::string> got = stored();
        sym_assert(got.size() == want.size(), "one value for every text");
        for (size_t i = 0; i < got.size(); ++i)
            sym_assert(eq(got[i], want[i]), "the value is what the operator made of the text");
        sym_cover(shape == 1 ? "vector" : shape == 2 ? "list" : shape == 3 ? "deque" : route == 3 ? "positional" : "single");
    }
}
template <typename T>
static void add(T initial)
{
    static T v;
    v = initial;
    stored = []
    {
        std::vector<std::string> r;
        if constexpr (requires { v.size(); })
            for (auto const & x : v)
                r.push_back(text_of(x));
        else
            r.push_back(text_of(v));
        return r;
    };
    if (route == 3)
        parser->add_positional_option(v, sharg::config{});
    else
        parser->add_option(v, sharg::config{.short_id = 'o', .long_id = "opt"});
}
template <typename T>
static void add_kind(T x)
{
    if (shape == 0)
        add(x);
    else if (shape == 1)
        add(std::vector<T>{x, x});
    else if (shape == 2)
        add(std::list<T>{x});
    else
        add(std::deque<T>{x, x, x});
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    type = sym_choice(3);
    shape = sym_choice(4);
    route = sym_choice(4);
    unsigned n = shape ? 1 + sym_choice(3) : 1, which = sym_choice(n);
    std::vector<std::string> args{"app"};
    if (route == 3)
        args.push_back("--");
    static char const * const plain[] = {"p", "q", "r"};
    for (unsigned i = 0; i < n; ++i)
    {
        std::string t = i == which ? any(0, (n == 1 ? 5 : 2) + 2 * VP_TIER) : type == 2 ? std::string{plain[i]} + ":x" : plain[i];
        if (route == 1)
            t = "x" + t; // attached
        values.push_back(t);
        if (route == 0)
        {
            sym_assume(!t.empty());
            args.push_back("--opt=" + t);
        }
        else if (route == 1)
            args.push_back("-o" + t);
        else if (route == 2)
        {
            sym_assume(t.empty() || t[0] != '-');
            args.push_back("-o");
            args.push_back(t);
        }
        else
            args.push_back(t);
    }
    note_args(args);
    parser = new sharg::parser{"app", args, sharg::update_notifications::off};
    if (type == 0)
        add_kind(own::chars{"old"});
    else if (type == 1)
        add_kind(own::word{"old"});
    else
        add_kind(own::couple{"o", "ld"});
    run([] { parser->parse(); }, check37);
}
