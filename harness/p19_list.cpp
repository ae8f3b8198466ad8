// P19: value_list_validator.
// @bounds validator and value types: equal (int8, int32, int64, uint64, uint8, double, char) and 9 mixed pairs, lists of 0..3 admissible values, all values at full width (mixed 64 bit integer/double: |integer| < 2^53); strings of 0..4 bytes (NUL excluded) against 0..3 admissible strings of 0..2 (one: 0..4) bytes; paths of 0..3 bytes (no separator or quoting characters) against 0..2 of 0..2 bytes; an enumeration; validated lists of 0..2 elements; construction from a range and from a pack
// @assume the digits of numbers in error messages are not formed (harness/nofmt.h)
// @cover accept, reject, list-accept, list-reject, mixed-accept, mixed-reject, string-accept, string-reject, enum-accept, enum-reject, pack-accept, pack-reject, path-accept, path-reject
// @budget 60 600
#include "nofmt.h"
#include "spec.h"
#include "pathmodel.h"
#include <bit>
using namespace vp;
namespace own
{
enum class color : uint8_t
{
    red,
    green,
    blue
};
auto enumeration_names(color)
{
    return std::unordered_map<std::string_view, color>{{"red", color::red}, {"green", color::green}, {"blue", color::blue}};
}
} // namespace own
template <typename T>
T sym()
{
    if constexpr (sizeof(T) == 8)
        return std::bit_cast<T>(sym_u64());
    else if constexpr (sizeof(T) == 4)
        return std::bit_cast<T>(sym_u32());
    else if constexpr (sizeof(T) == 2)
        return std::bit_cast<T>(sym_u16());
    else
        return std::bit_cast<T>(sym_byte());
}
template <typename A, typename B>
bool same(A a, B b)
{
    if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>)
        return (double)a == (double)b; // exact within the bounds; false for NaN
    else
    {
        bool na = std::is_signed_v<A> && a < A{}, nb = std::is_signed_v<B> && b < B{};
        return (na == nb) & ((uint64_t)a == (uint64_t)b);
    }
}
template <typename V, typename T>
void numbers()
{
    std::vector<V> l(sym_choice(4));
    for (auto & x : l)
        x = sym<V>();
    bool many = sym_choice(2);
    sharg::value_list_validator<V> val{l};
    bool all = true;
    int o;
    auto in = [&](T x)
    {
        bool r = false;
        for (auto & y : l)
            r = r | same(x, y);
        return r;
    };
    if (many && std::is_same_v<V, T>)
    {
        std::vector<T> v(sym_choice(3));
        for (auto & x : v)
        {
            x = sym<T>();
            all = all & in(x);
        }
        o = classify([&] { val(v); });
        sym_cover(o == OK ? "list-accept" : "list-reject");
    }
    else
    {
        T v = sym<T>();
        all = in(v);
        o = classify([&] { val(v); });
        if constexpr (std::is_same_v<V, T>)
            sym_cover(o == OK ? "accept" : "reject");
        else
            sym_cover(o == OK ? "mixed-accept" : "mixed-reject");
    }
    sym_assert(o == (all ? OK : VALIDATION), "a value is accepted exactly if it is in the list");
}
static std::string text(bool path, unsigned mx)
{
    std::string t = any(0, mx);
    if (path) // std::filesystem::path compares by components: keep separators (and quoting) out
        for (char c : t)
            sym_assume((c != '/') & (c != '"') & (c != '\\'));
    return t;
}
static void texts(bool paths)
{
    unsigned n = sym_choice(paths ? 3 : 4);
    std::vector<std::string> l;
    for (unsigned i = 0; i < n; ++i)
        l.push_back(text(paths, n == 1 && !paths ? 4 : 2));
    unsigned m = sym_choice(4); // 0..2: list of that size, 3: one value
    bool all = true;
    std::vector<std::string> v;
    for (unsigned i = 0; i < (m == 3 ? 1 : m); ++i)
    {
        v.push_back(text(paths, m == 3 && n < 3 ? paths ? 3 : 4 : 2));
        bool r = false;
        for (auto & y : l)
            r = r | eq(v.back(), y);
        all = all & r;
    }
    int o;
    if (paths)
    {
        std::vector<std::filesystem::path> pv(v.begin(), v.end());
        sharg::value_list_validator<std::filesystem::path> val{std::vector<std::filesystem::path>(l.begin(), l.end())};
        o = m == 3 ? classify([&] { val(pv[0]); }) : classify([&] { val(pv); });
        sym_cover(o == OK ? "path-accept" : "path-reject");
    }
    else
    {
        sharg::value_list_validator val{l};
        o = m == 3 ? classify([&] { val(v[0]); }) : classify([&] { val(v); });
        sym_cover(o == OK ? "string-accept" : "string-reject");
    }
    sym_assert(o == (all ? OK : VALIDATION), "a text is accepted exactly if it is in the list");
}
static void enums()
{
    using own::color;
    unsigned n = sym_choice(3);
    std::vector<color> l;
    for (unsigned i = 0; i < n; ++i)
        l.push_back((color)sym_choice(3));
    color v = (color)sym_choice(3);
    sharg::value_list_validator<color> val{l};
    int o = classify([&] { val(v); });
    bool r = false;
    for (auto y : l)
        r = r | (y == v);
    sym_assert(o == (r ? OK : VALIDATION), "an enumerator is accepted exactly if it is in the list");
    sym_cover(o == OK ? "enum-accept" : "enum-reject");
}
static void packs()
{
    int32_t a = sym<int32_t>(), b = sym<int32_t>(), v = sym<int32_t>();
    std::string s = any(0, 3), t = any(0, 2);
    sharg::value_list_validator val{a, b};
    int o = classify([&] { val(v); });
    sym_assert(o == ((a == v) | (b == v) ? OK : VALIDATION), "a value is accepted exactly if it is in the list");
    sharg::value_list_validator sval{"ab", t.c_str(), "", t};
    int q = classify([&] { sval(s); });
    sym_assert(q == (eq(s, "ab") || eq(s, t) || s.empty() ? OK : VALIDATION), "a text is accepted exactly if it is in the list");
    sym_cover(q == OK ? "pack-accept" : "pack-reject");
}
extern "C" void harness_main()
{
    switch (sym_choice(20))
    {
    case 0: numbers<int8_t, int8_t>(); break;
    case 1: numbers<int32_t, int32_t>(); break;
    case 2: numbers<int64_t, int64_t>(); break;
    case 3: numbers<uint64_t, uint64_t>(); break;
    case 4: numbers<uint8_t, uint8_t>(); break;
    case 5: numbers<double, double>(); break;
    case 6: numbers<char, char>(); break;
    case 7: numbers<int32_t, uint32_t>(); break;
    case 8: numbers<int32_t, int64_t>(); break;
    case 9: numbers<int32_t, uint64_t>(); break;
    case 10: numbers<int32_t, uint8_t>(); break;
    case 11: numbers<int32_t, int8_t>(); break;
    case 12: numbers<uint32_t, int32_t>(); break;
    case 13: numbers<uint8_t, int64_t>(); break;
    case 14: numbers<int32_t, double>(); break;
    case 15: numbers<double, int32_t>(); break;
    case 16: texts(false); break;
    case 17: texts(true); break;
    case 18: enums(); break;
    case 19: packs(); break;
    }
    sym_end();
}
