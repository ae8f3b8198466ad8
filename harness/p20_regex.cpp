// P20: regex_validator.
// @bounds 12 patterns (classes, negated classes, alternatives where one branch is a prefix of another, stars, counted repetition, groups, anchors, '.', the empty pattern, escapes) against all texts of 0..6 (thorough 8) arbitrary non-NUL bytes; lists of 0..3 such texts (0..2 bytes) for three patterns; lists of paths are not covered
// @assume std::regex of libstdc++ 13 is executed, its locale tables are concrete
// @cover accept, reject, partial, list-accept, list-reject
// @budget 60 600
#include "vp.h"
#include <list>
using namespace vp;
static bool eqs(std::string const & a, char const * b)
{
    size_t n = __builtin_strlen(b);
    return a.size() == n && memcmp(a.data(), b, n) == 0;
}
static bool in(char c, char a, char b)
{
    return (c >= a) & (c <= b);
}
template <typename F>
static bool all(std::string const & s, F f)
{
    bool r = true;
    for (char c : s)
        r = r & f(c);
    return r;
}
static char const * const patterns[] = {"[a-c]+", "a|ab", "a*b", "^ab$", "x.y", "(ab)*", "[^0-9]{2}", "[0-9]{1,3}", "", "(a|b)?c", ".*\\.txt", "a+\\-b*"};
static bool matches(unsigned k, std::string const & s)
{
    size_t n = s.size();
    switch (k)
    {
    case 0: return n && all(s, [](char c) { return in(c, 'a', 'c'); });
    case 1: return eqs(s, "a") || eqs(s, "ab");
    case 2:
    {
        bool r = n > 0;
        for (size_t i = 0; i < n; ++i)
            r = r & (s[i] == (i + 1 == n ? 'b' : 'a'));
        return r;
    }
    case 3: return eqs(s, "ab");
    case 4: return n == 3 && ((s[0] == 'x') & (s[2] == 'y') & (s[1] != '\n') & (s[1] != '\r'));
    case 5:
    {
        bool r = n % 2 == 0;
        for (size_t i = 0; i < n; ++i)
            r = r & (s[i] == (i % 2 ? 'b' : 'a'));
        return r;
    }
    case 6: return n == 2 && all(s, [](char c) { return !in(c, '0', '9'); });
    case 7: return n >= 1 && n <= 3 && all(s, [](char c) { return in(c, '0', '9'); });
    case 8: return s.empty();
    case 9: return eqs(s, "c") || eqs(s, "ac") || eqs(s, "bc");
    case 10:
        if (n < 4 || memcmp(s.data() + n - 4, ".txt", 4))
            return false;
        return all(s.substr(0, n - 4), [](char c) { return (c != '\n') & (c != '\r'); });
    default:
    {
        size_t i = 0;
        while (i < n && s[i] == 'a')
            ++i;
        if (i == 0 || i == n || s[i] != '-')
            return false;
        for (++i; i < n; ++i)
            if (s[i] != 'b')
                return false;
        return true;
    }
    }
}
static bool contains(unsigned k, std::string const & s) // some part of the text matches
{
    for (size_t i = 0; i < s.size(); ++i)
        for (size_t l = 1; i + l <= s.size(); ++l)
            if (matches(k, s.substr(i, l)))
                return true;
    return false;
}
extern "C" void harness_main()
{
    static unsigned k;
    if (sym_choice(2))
    {
        static std::string s;
        k = sym_choice(12);
        s = any(0, 6 + 2 * VP_TIER);
        note("pattern " + std::string(patterns[k]) + " text " + s);
        static sharg::regex_validator v{patterns[k]};
        int o = classify([] { v(s); });
        bool w = matches(k, s);
        sym_assert(o == (w ? OK : VALIDATION), "a text is accepted exactly if the whole text matches");
        sym_cover(o == OK ? "accept" : "reject");
        if (!w && k < 2 && contains(k, s))
            sym_cover("partial");
    }
    else
    {
        k = 1 + sym_choice(3);
        std::vector<std::string> l(sym_choice(4));
        bool w = true;
        for (auto & s : l)
        {
            s = any(0, l.size() == 3 ? 1 : 2);
            w = matches(k, s) && w;
        }
        sharg::regex_validator v{patterns[k]};
        int o = sym_choice(2) ? classify([&] { v(l); }) : classify([&] { v(std::list<std::string>(l.begin(), l.end())); });
        sym_assert(o == (w ? OK : VALIDATION), "a list is accepted exactly if every text matches as a whole");
        sym_cover(o == OK ? "list-accept" : "list-reject");
    }
    sym_end();
}
