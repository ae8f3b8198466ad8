// P18: arithmetic_range_validator.
// @bounds validator and value types: equal (int8..int64, uint8..uint64, float, double, char) and 12 mixed pairs; all values of value, minimum and maximum at full width (mixed integer/floating pairs with 64 bit integers: |integer| < 2^53); lists of 0..3 values
// @assume the digits of numbers in error messages are not formed (harness/nofmt.h)
// @cover accept, reject, list-accept, list-reject, float-accept, float-reject, nan, mixed-accept, mixed-reject
// @budget 60 600
#include "nofmt.h"
#include "vp.h"
#include <bit>
#include <cmath>
using namespace vp;
template <typename T>
T sym()
{
    if constexpr (sizeof(T) == 8)
        return std::bit_cast<T>(sym_u64());
    else if constexpr (sizeof(T) == 4)
        return std::bit_cast<T>(sym_u32());
    else if constexpr (sizeof(T) == 2)
        return std::bit_cast<T>(sym_u16());
    else
        return std::bit_cast<T>(sym_byte());
}
template <typename A, typename B>
bool le(A a, B b)
{
    if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>)
        return (double)a <= (double)b; // exact within the bounds; false for NaN
    else
    {
        bool na = std::is_signed_v<A> && a < A{}, nb = std::is_signed_v<B> && b < B{};
        return (na & !nb) | ((na == nb) & ((uint64_t)a <= (uint64_t)b));
    }
}
template <typename V, typename T>
void bound(T & x)
{
    if constexpr (std::is_floating_point_v<V> && std::is_integral_v<T> && sizeof(T) == 8)
        sym_assume((x < (T)(1ull << 53)) & ((T)(x + (T)(1ull << 53)) > 0) & (std::is_unsigned_v<T> || x > (T) - (T)(1ull << 53)));
}
template <typename V, typename T>
void one()
{
    V mn = sym<V>(), mx = sym<V>();
    bound<T>(mn);
    bound<T>(mx);
    T v = sym<T>();
    bound<V>(v);
    sharg::arithmetic_range_validator<V> val{mn, mx};
    int o = classify([&] { val(v); });
    bool in = le(mn, v) & le(v, mx);
    sym_assert(o == (in ? OK : VALIDATION), "a value is accepted exactly if min <= value <= max");
    if constexpr (!std::is_same_v<V, T>)
        sym_cover(o == OK ? "mixed-accept" : "mixed-reject");
    else if constexpr (std::is_floating_point_v<T>)
    {
        sym_cover(o == OK ? "float-accept" : "float-reject");
        if (v != v)
            sym_cover("nan");
    }
    else
        sym_cover(o == OK ? "accept" : "reject");
}
template <typename V, typename T>
void many()
{
    V mn = sym<V>(), mx = sym<V>();
    std::vector<T> v(sym_choice(4));
    bool in = true;
    for (auto & x : v)
    {
        x = sym<T>();
        in = in & le(mn, x) & le(x, mx);
    }
    sharg::arithmetic_range_validator<V> val{mn, mx};
    int o = classify([&] { val(v); });
    sym_assert(o == (in ? OK : VALIDATION), "a list is accepted exactly if min <= value <= max for every element");
    sym_cover(o == OK ? "list-accept" : "list-reject");
}
extern "C" void harness_main()
{
    switch (sym_choice(27))
    {
    case 0: one<int8_t, int8_t>(); break;
    case 1: one<int16_t, int16_t>(); break;
    case 2: one<int32_t, int32_t>(); break;
    case 3: one<int64_t, int64_t>(); break;
    case 4: one<uint8_t, uint8_t>(); break;
    case 5: one<uint16_t, uint16_t>(); break;
    case 6: one<uint32_t, uint32_t>(); break;
    case 7: one<uint64_t, uint64_t>(); break;
    case 8: one<float, float>(); break;
    case 9: one<double, double>(); break;
    case 10: one<char, char>(); break;
    case 11: one<int32_t, uint32_t>(); break;
    case 12: one<int32_t, int64_t>(); break;
    case 13: one<int32_t, uint64_t>(); break;
    case 14: one<int32_t, uint8_t>(); break;
    case 15: one<int32_t, int8_t>(); break;
    case 16: one<uint32_t, int32_t>(); break;
    case 17: one<uint8_t, int64_t>(); break;
    case 18: one<uint64_t, int64_t>(); break;
    case 19: one<int32_t, double>(); break;
    case 20: one<double, int32_t>(); break;
    case 21: one<double, float>(); break;
    case 22: one<double, uint32_t>(); break;
    case 23: many<int32_t, int32_t>(); break;
    case 24: many<int32_t, uint32_t>(); break;
    case 25: many<uint8_t, uint8_t>(); break;
    case 26: many<double, double>(); break;
    }
    sym_end();
}
