#pragma once
// The reading functions that libstdc++ specialises (and precompiles) for char, in the symbolic build:
// the generic algorithm, so that the characters stay symbolic.
#ifdef VP_SYMBOLIC
#    include <istream>
#    include <string>
namespace std
{
template <>
basic_istream<char> & operator>>(basic_istream<char> & in, basic_string<char> & str)
{
    using traits = char_traits<char>;
    size_t extracted = 0;
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, false);
    if (ok)
    {
        str.erase();
        streamsize w = in.width();
        size_t n = w > 0 ? (size_t)w : str.max_size();
        ctype<char> const & ct = use_facet<ctype<char>>(in.getloc());
        traits::int_type c = in.rdbuf()->sgetc();
        while (extracted < n && !traits::eq_int_type(c, traits::eof()) && !ct.is(ctype_base::space, traits::to_char_type(c)))
        {
            str.push_back(traits::to_char_type(c));
            ++extracted;
            c = in.rdbuf()->snextc();
        }
        if (extracted < n && traits::eq_int_type(c, traits::eof()))
            err |= ios_base::eofbit;
        in.width(0);
    }
    if (!extracted)
        err |= ios_base::failbit;
    if (err)
        in.setstate(err);
    return in;
}
template <>
basic_istream<char> & getline(basic_istream<char> & in, basic_string<char> & str, char delim)
{
    using traits = char_traits<char>;
    size_t extracted = 0;
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, true);
    if (ok)
    {
        str.erase();
        traits::int_type c = in.rdbuf()->sgetc();
        while (!traits::eq_int_type(c, traits::eof()) && traits::to_char_type(c) != delim)
        {
            str.push_back(traits::to_char_type(c));
            ++extracted;
            c = in.rdbuf()->snextc();
        }
        if (traits::eq_int_type(c, traits::eof()))
            err |= ios_base::eofbit;
        else
        {
            ++extracted;
            in.rdbuf()->sbumpc();
        }
    }
    if (!extracted)
        err |= ios_base::failbit;
    if (err)
        in.setstate(err);
    return in;
}
#    ifdef VP_DECIMAL_TEXT
// Integers are printed by num_put, which is precompiled: here as a letter and 16 hexadecimal digits, so
// that symbolic values stay symbolic (hidden as below; no harness uses another base or width).
inline ostream & vp_number(ostream & o, long v)
{
    ostream::sentry ok(o);
    if (ok)
    {
        o.rdbuf()->sputc('N');
        for (int i = 60; i >= 0; i -= 4)
            o.rdbuf()->sputc((char)('@' | ((v >> i) & 15)));
    }
    return o;
}
#        define VP_PRINT(T)                                                                                            \
            template <>                                                                                                \
            __attribute__((visibility("hidden"))) basic_ostream<char> & basic_ostream<char>::operator<<(T v)           \
            {                                                                                                          \
                return vp_number(*this, (long)v);                                                                      \
            }
VP_PRINT(short)
VP_PRINT(unsigned short)
VP_PRINT(int)
VP_PRINT(unsigned)
VP_PRINT(long)
VP_PRINT(unsigned long)
VP_PRINT(bool)
#    endif
#    ifdef VP_NUMBER_TEXT
// Numbers that are written and read again (see update.h): a letter and 16 hexadecimal digits (hidden: the solver's library prints numbers, too).
template <>
template <>
__attribute__((visibility("hidden"))) basic_ostream<char> & basic_ostream<char>::_M_insert<long>(long v)
{
    sentry ok(*this);
    if (ok)
    {
        rdbuf()->sputc('N');
        for (int i = 60; i >= 0; i -= 4)
            rdbuf()->sputc((char)('@' | ((v >> i) & 15)));
    }
    return *this;
}
#    endif
} // namespace std
#endif
