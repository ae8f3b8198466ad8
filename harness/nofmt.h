#pragma once
// Numbers in messages: the symbolic build prints '?' instead of the digits of a number (the texts of
// error messages are not part of the properties that use this header). Must be included first.
// The stubs are hidden: the solver in the same process must keep the real functions.
#ifdef VP_SYMBOLIC
#    include <bits/charconv.h>
#    include <cstdarg>
#    include <cstddef>
namespace std::__detail
{
template <> __attribute__((visibility("hidden"))) constexpr unsigned __to_chars_len<unsigned>(unsigned, int) noexcept { return 1; }
template <> __attribute__((visibility("hidden"))) constexpr unsigned __to_chars_len<unsigned long>(unsigned long, int) noexcept { return 1; }
template <> __attribute__((visibility("hidden"))) constexpr unsigned __to_chars_len<unsigned long long>(unsigned long long, int) noexcept { return 1; }
template <> __attribute__((visibility("hidden"))) inline void __to_chars_10_impl<unsigned>(char * f, unsigned n, unsigned) noexcept { while (n) f[--n] = '?'; }
template <> __attribute__((visibility("hidden"))) inline void __to_chars_10_impl<unsigned long>(char * f, unsigned n, unsigned long) noexcept { while (n) f[--n] = '?'; }
template <> __attribute__((visibility("hidden"))) inline void __to_chars_10_impl<unsigned long long>(char * f, unsigned n, unsigned long long) noexcept { while (n) f[--n] = '?'; }
} // namespace std::__detail
extern "C" inline __attribute__((used, visibility("hidden"))) int vsnprintf(char * s, size_t n, char const *, va_list) noexcept
{
    if (n > 1)
        s[0] = '?', s[1] = 0;
    return 1;
}
#endif
#ifdef VP_SYMBOLIC
#    include <ostream>
namespace std
{
#    define VP_PRINT(T) template <> __attribute__((visibility("hidden"))) inline ostream & ostream::operator<<(T) { write("?", 1); return *this; }
VP_PRINT(int) VP_PRINT(unsigned) VP_PRINT(long) VP_PRINT(unsigned long) VP_PRINT(long long) VP_PRINT(unsigned long long)
VP_PRINT(short) VP_PRINT(unsigned short) VP_PRINT(double) VP_PRINT(float) VP_PRINT(bool)
#    undef VP_PRINT
} // namespace std
#endif
