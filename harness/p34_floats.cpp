// P34: floating point arguments.
// @bounds all texts of 0..4 (thorough 6) arbitrary non-NUL bytes; float and double; every result of the conversion: failed, out of range, or any value of the type for any prefix of the text; as option value ('=' form or detached), positional argument behind '--' and second element of a list option
// @assume std::from_chars for float and double (libstdc++.so) is a stub that returns any result its specification allows, the same one for the same text; it is the stub in the replay, too; version notifications off
// @cover ok, failed, range, prefix, list, detached, nan
// @budget 60 600
#include "spec.h"
#include <cmath>
using namespace vp;
static std::string text;
static unsigned route;
struct conversion
{
    std::string text;
    std::errc ec{};
    size_t len{0};
    uint64_t bits{0};
};
static std::vector<conversion> conversions;
template <typename T>
static std::from_chars_result convert(char const * f, char const * l, T & v)
{
    std::string t(f, l);
    conversion * c = nullptr;
    for (auto & x : conversions)
        if (sym_fold(x.text == t))
            c = &x;
    if (!c)
    {
        conversions.push_back({t, std::errc{}, 0, 0});
        c = &conversions.back();
        unsigned r = t.empty() ? 0 : t == "3" ? 2 : sym_choice(3);
        if (r == 0)
            c->ec = std::errc::invalid_argument;
        else
        {
            c->len = 1 + sym_choice((unsigned)t.size());
            if (r == 1)
                c->ec = std::errc::result_out_of_range;
            else
                for (unsigned i = 0; i < sizeof(T); ++i)
                    c->bits |= (uint64_t)sym_byte() << 8 * i;
        }
    }
    if (c->ec == std::errc{})
        __builtin_memcpy(&v, &c->bits, sizeof(T));
    return {f + c->len, c->ec};
}
namespace std
{
__attribute__((visibility("hidden"), used)) from_chars_result from_chars(char const * f, char const * l, double & v, chars_format) noexcept
{
    return convert(f, l, v);
}
__attribute__((visibility("hidden"), used)) from_chars_result from_chars(char const * f, char const * l, float & v, chars_format) noexcept
{
    return convert(f, l, v);
}
} // namespace std
template <typename T>
static uint64_t bits(T const & v)
{
    uint64_t r = 0;
    __builtin_memcpy(&r, &v, sizeof(T));
    return r;
}
template <typename T>
struct run_for
{
    static inline T value{42};
    static inline std::vector<T> list{1};
    static void check(int o)
    {
        if (route == 0 && text.empty())
        {
            sym_assert(o == TOO_FEW, "an option without a value is rejected");
            return;
        }
        conversion * c = nullptr;
        for (auto & x : conversions)
            if (eq(x.text, text))
                c = &x;
        if (!c) // never converted: rejected
        {
            sym_assert(o == USER_INPUT && text.empty(), "a value is converted");
            return;
        }
        bool whole = c->len == text.size();
        if (c->ec == std::errc{} && whole)
        {
            sym_cover("ok");
            sym_assert(o == OK, "a text that is a number is accepted");
            T got = route == 2 ? list[1] : value;
            sym_assert(bits(got) == c->bits, "the stored value is the number, bit for bit");
            if (std::isnan(got))
                sym_cover("nan");
            if (route == 2)
            {
                sym_assert(list.size() == 2, "the list holds one element per occurrence");
                sym_cover("list");
            }
            if (route == 3)
                sym_cover("detached");
            return;
        }
        sym_assert(o == USER_INPUT, "a text that is not entirely a number in range raises user_input_error");
        if (c->ec == std::errc::result_out_of_range)
        {
            if (whole)
                sym_assert(what.find("not in the valid range") != std::string::npos, "a number out of range is reported as such");
            sym_cover("range");
        }
        else
            sym_cover(c->ec == std::errc{} ? "prefix" : "failed");
    }
    static void go()
    {
        std::vector<std::string> full{"app"};
        if (route == 0)
            full.push_back("--num=" + text);
        else if (route == 1)
            full.insert(full.end(), {"--", text});
        else if (route == 2)
            full.insert(full.end(), {"-n3", "-n", text});
        else
            full.insert(full.end(), {"--num", text});
        note_args(full);
        auto * p = new sharg::parser{"app", full, sharg::update_notifications::off};
        if (route == 1)
            p->add_positional_option(value, sharg::config{});
        else if (route == 2)
            p->add_option(list, sharg::config{.short_id = 'n'});
        else
            p->add_option(value, sharg::config{.long_id = "num"});
        static sharg::parser * q;
        q = p;
        run([] { q->parse(); }, &check);
    }
};
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    conversions.reserve(8);
    bool second = sym_choice(2);
    route = sym_choice(4);
    text = any(0, 4 + 2 * VP_TIER);
    if (route == 2)
        sym_assume(!(text.size() >= 2 && text[0] == '-' && text[1] == 'n'));
    if (route == 3)
        sym_assume(!(text.size() >= 5 && text.compare(0, 5, "--num") == 0));
    if (route >= 2)
        sym_assume(!eq(text, "--"));
    if (second)
        run_for<float>::go();
    else
        run_for<double>::go();
}
