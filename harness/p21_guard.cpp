// P21: validators on the way through parse().
// @bounds one declaration with a validator (int with a range, chain of three, string with regex|list, list<int>, uint8 with an int range, enumeration with a list, custom counting validators alone and chained, positional int, positional list<string>, chain of a range with itself for double lists), given 0..2 times (lists) or 0..1 times in short/long/attached/= form, values of 0..3 arbitrary bytes; default values that the validator rejects
// @assume operating system calls are served by an in-memory model (harness/env.h); std::hash of strings is a constant function; version notifications off; the digits of numbers in error messages are not formed (harness/nofmt.h)
// @cover int-ok, int-rejected, chain-ok, chain-rejected, text-ok, text-rejected, list-ok, list-rejected, list-both-ids, byte-ok, byte-rejected, enum-ok, enum-rejected, custom-ok, custom-rejected, positional-ok, positional-rejected, unset, not-a-value
// @budget 60 600
#include "nofmt.h"
#include "spec.h"
#include "pathmodel.h"
using namespace vp;
using sharg::operator|;
namespace own
{
enum class color
{
    red,
    green,
    blue
};
auto enumeration_names(color)
{
    return std::unordered_map<std::string_view, color>{{"r", color::red}, {"g", color::green}, {"bl", color::blue}};
}
} // namespace own
static unsigned calls[3];
template <int I, int LO, int HI>
struct custom
{
    using option_value_type = int;
    void operator()(int const & v) const
    {
        ++calls[I];
        if ((v < LO) | (v > HI))
            throw sharg::validation_error{"custom"};
    }
    std::string get_help_page_message() const { return ""; }
};
static unsigned type;
static std::vector<std::string> vals; // given values
static bool both;
static int i = -77;
static std::string str{"zzz"};
static std::vector<int> il{-77, 99};
static uint8_t u8 = 250;
static own::color col = own::color::blue;
static std::vector<std::string> sl{"zzz"};
static bool number(std::string const & t, bool is_signed, uint64_t mx, uint64_t mn, int & v)
{
    bool neg = false;
    uint64_t mag = 0;
    if (spec_int(t, is_signed, mx, mn, neg, mag))
        return false;
    v = (int)(neg ? 0 - mag : mag);
    return true;
}
// 0 rejected by the validator, 1 accepted, 2 not a value of the type
static int good(std::string const & t)
{
    int v = 0;
    bool num = type == 4 ? number(t, false, 255, 0, v) : type == 2 || type == 5 || type == 9 ? true : number(t, true, 0x7fffffff, 0x80000000, v);
    if (!num)
        return 2;
    bool r = false;
    switch (type)
    {
    case 0: r = (v >= -5) & (v <= 20); break;
    case 1: r = (v >= 0) & (v <= 9) & ((v == 3) | (v == 5) | (v == 12)) & (v >= 4); break;
    case 2: r = eq(t, "ab") || eq(t, "c"); break;
    case 3: r = (v >= 1) & (v <= 50); break;
    case 4: r = (v >= 3) & (v <= 30); break;
    case 5:
        if (!eq(t, "r") && !eq(t, "g") && !eq(t, "bl"))
            return 2;
        r = eq(t, "r") || eq(t, "g");
        break;
    case 6: r = (v >= 2) & (v <= 40); break;
    case 7: r = (v >= 5) & (v <= 40); break;
    case 8: r = (v >= -5) & (v <= 20); break;
    case 9:
        r = !t.empty();
        for (char c : t)
            r = r & (c >= 'a') & (c <= 'c');
        break;
    }
    return r ? 1 : 0;
}
static void done(int o)
{
    static char const * const names[] = {"int", "chain", "text", "list", "byte", "enum", "custom", "custom", "positional", "positional"};
    static char label[32];
    bool bad = false, conv = false;
    for (auto & v : vals)
    {
        int g = good(v);
        bad = bad | (g == 0);
        conv = conv | (g == 2);
    }
    if (vals.empty() && type < 8)
    {
        sym_cover("unset");
        sym_assert(o == OK, "the validator is not run on an option that is not given");
        sym_assert(calls[0] + calls[1] + calls[2] == 0, "the validator is not run on an option that is not given");
        return;
    }
    if (conv)
    {
        sym_cover("not-a-value");
        sym_assert(o == USER_INPUT || (bad && o == VALIDATION), "a text that is no value is rejected");
        return;
    }
    sym_assert(o == (bad ? VALIDATION : OK), "a given value is accepted exactly if every validator accepts it");
    snprintf(label, sizeof label, "%s-%s", names[type], bad ? "rejected" : "ok");
    sym_cover(label);
    if (both && type == 3)
        sym_cover("list-both-ids");
    if (type == 6 || type == 7)
        sym_assert(calls[0] >= 1, "the validator is run on a given value");
}
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    type = sym_choice(10);
    std::vector<std::string> full{"app", "-x"};
    bool pos = type >= 8;
    unsigned n = type == 3 ? sym_choice(3) : type == 9 ? 1 + sym_choice(2) : type == 8 ? 1 : sym_choice(2);
    if (pos)
        full.push_back("--");
    unsigned forms = 0;
    for (unsigned k = 0; k < n; ++k)
    {
        std::string v = any(pos ? 0 : 1, n == 2 ? 2 : 3);
        vals.push_back(v);
        unsigned f = pos ? 4 : sym_choice(4);
        if (f == 0)
        {
            full.push_back("-o");
            full.push_back(v);
            sym_assume(v[0] != '-' || (v.size() > 1 && v[1] >= '0' && v[1] <= '9'));
        }
        else if (f == 1)
            full.push_back("-o=" + v);
        else if (f == 2)
        {
            full.push_back("-o" + v);
            sym_assume(v[0] != '=');
        }
        else if (f == 3)
            full.push_back("--opt=" + v);
        else
            full.push_back(v);
        forms |= f == 3 ? 2 : 1;
    }
    both = forms == 3;
    note_args(full);
    static bool x;
    auto & p = *(parser = new sharg::parser{"app", full, sharg::update_notifications::off});
    p.add_flag(x, sharg::config{.short_id = 'x'});
    using range = sharg::arithmetic_range_validator<int>;
    using list = sharg::value_list_validator<int>;
    switch (type)
    {
    case 0: p.add_option(i, sharg::config{.short_id = 'o', .long_id = "opt", .validator = range{-5, 20}}); break;
    case 1: p.add_option(i, sharg::config{.short_id = 'o', .long_id = "opt", .validator = range{0, 9} | list{3, 5, 12} | range{4, 100}}); break;
    case 2:
        p.add_option(str, sharg::config{.short_id = 'o', .long_id = "opt", .validator = sharg::regex_validator{"[a-c]+"} | sharg::value_list_validator{"ab", "c", "d"}});
        break;
    case 3: p.add_option(il, sharg::config{.short_id = 'o', .long_id = "opt", .validator = range{1, 50}}); break;
    case 4: p.add_option(u8, sharg::config{.short_id = 'o', .long_id = "opt", .validator = range{3, 30} | range{-500, 280}}); break;
    case 5:
        p.add_option(col, sharg::config{.short_id = 'o', .long_id = "opt", .validator = sharg::value_list_validator{own::color::green, own::color::red}});
        break;
    case 6: p.add_option(i, sharg::config{.short_id = 'o', .long_id = "opt", .validator = custom<0, 2, 40>{}}); break;
    case 7:
        p.add_option(i, sharg::config{.short_id = 'o', .long_id = "opt", .validator = custom<0, 2, 40>{} | (custom<1, 5, 90>{} | custom<2, -9, 80>{})});
        break;
    case 8: p.add_positional_option(i, sharg::config{.validator = range{-5, 20}}); break;
    case 9: p.add_positional_option(sl, sharg::config{.validator = sharg::regex_validator{"[a-c]+"}}); break;
    }
    run([] { parser->parse(); }, done);
}
