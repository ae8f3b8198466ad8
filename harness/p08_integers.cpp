// P08: integer arguments.
// @bounds all texts of 0..4 arbitrary non-NUL bytes, plus seven long prefixes (around the limits of the type, of the unsigned type of the same width and of twice that, leading zeros; both signs) each followed by 1..3 (thorough 4) arbitrary bytes; each of int8..int64, uint8..uint64; as option value ('=' form), positional argument behind '--' and second element of a list option
// @assume operating system calls are served by an in-memory model (harness/env.h); version notifications off
// @cover ok, syntax, range, negative, minimum, maximum, list
// @variant 8 -DT1=int8_t -DT2=uint8_t -DNB=8
// @variant 16 -DT1=int16_t -DT2=uint16_t -DNB=16
// @variant 32 -DT1=int32_t -DT2=uint32_t -DNB=32
// @variant 64 -DT1=int64_t -DT2=uint64_t -DNB=64
// @budget 25 300
#include "spec.h"
using namespace vp;
static std::string text;
static unsigned route;
template <typename T>
struct run_for
{
    static inline T value{42};
    static inline std::vector<T> list{1};
    static void check(int o)
    {
        constexpr bool sg = std::is_signed_v<T>;
        constexpr uint64_t mp = (uint64_t)std::numeric_limits<T>::max(), mn = sg ? mp + 1 : 0;
        bool neg;
        uint64_t mag = 0;
        if (route == 0 && text.empty())
        {
            sym_assert(o == TOO_FEW, "an option without a value is rejected");
            return;
        }
        int r = spec_int(text, sg, mp, mn, neg, mag);
        sym_cover(r == 0 ? "ok" : r == 1 ? "syntax" : "range");
        if (r)
        {
            sym_assert(o == USER_INPUT, "a text that is no representable number raises user_input_error");
            if (r == 2)
                sym_assert(what.find("not in the valid range") != std::string::npos, "overflow is reported as out of range");
            return;
        }
        sym_assert(o == OK, "the text of a representable number is accepted");
        uint64_t e = neg ? 0 - mag : mag;
        T got = route == 2 ? list[1] : value;
        sym_assert((uint64_t)(int64_t)got == (sg ? e : e), "the stored value equals the mathematical value of the text");
        if (route == 2)
        {
            sym_assert(list.size() == 2 && list[0] == 3, "the list holds one element per occurrence");
            sym_cover("list");
        }
        if (sg && neg && e)
            sym_cover("negative");
        if (got == std::numeric_limits<T>::min())
            sym_cover("minimum");
        if (got == std::numeric_limits<T>::max())
            sym_cover("maximum");
    }
    static void go()
    {
        std::vector<std::string> full{"app"};
        if (route == 0)
            full.push_back("--num=" + text);
        else if (route == 1)
            full.insert(full.end(), {"--", text});
        else
            full.insert(full.end(), {"-n3", "-n", text});
        note_args(full);
        auto * p = new sharg::parser{"app", full, sharg::update_notifications::off};
        if (route == 0)
            p->add_option(value, sharg::config{.long_id = "num"});
        else if (route == 1)
            p->add_positional_option(value, sharg::config{});
        else
            p->add_option(list, sharg::config{.short_id = 'n'});
        static sharg::parser * q;
        q = p;
        run([] { q->parse(); }, &check);
    }
};
extern "C" void harness_main()
{
    env_begin(env);
    cap = new captured;
    bool second = sym_choice(2);
    route = sym_choice(3);
    // all short texts, and texts around the boundaries (also of the unsigned type of the same width, and multiples of it)
    static char const * const prefix[] = {
#if NB == 8
        "", "1", "2", "00", "-1", "-2", "5", "-00"
#elif NB == 16
        "", "32", "65", "000", "-32", "-65", "131", "9999"
#elif NB == 32
        "", "2147483", "4294967", "000000000", "-2147483", "-4294967", "8589934", "99999999"
#else
        "", "9223372036854775", "18446744073709551", "00000000000000000000", "-9223372036854775", "-18446744073709551", "36893488147419103", "-000000000000000000000"
#endif
    };
    unsigned k = sym_choice(8);
    text = prefix[k] + any(k == 0 ? 0 : 1, k == 0 ? 4 : 3 + VP_TIER);
    if (route == 2)
    {
        bool special = text.size() >= 2 && text[0] == '-' && text[1] == 'n';
        sym_assume(!special);
        sym_assume(!eq(text, "--"));
    }
    if (second)
        run_for<T2>::go();
    else
        run_for<T1>::go();
}
