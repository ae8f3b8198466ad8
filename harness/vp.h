#pragma once
// Common parts of all harnesses.
#include "sym.h"
#include "env.h"
#include "streams.h"
#include <sharg/all.hpp>
#include <iostream>
#include <new>
#include <string>
#include <vector>

#ifndef VP_TIER
#    define VP_TIER 0 // 0 quick, 1 thorough
#endif

#ifdef VP_SYMBOLIC
// Hash stub: any hash function is admissible for the unordered containers; a constant one keeps
// bucket selection independent of symbolic bytes.
namespace std
{
size_t _Hash_bytes(void const *, size_t, size_t)
{
    return 42;
}
} // namespace std
#endif

namespace vp
{
// ------------------------------------------------------------------ symbolic strings
// n arbitrary non-NUL bytes
inline std::string any(unsigned n)
{
    std::string s;
    for (unsigned i = 0; i < n; ++i)
    {
        uint8_t c = sym_byte();
        sym_assume(c != 0);
        s.push_back((char)c);
    }
    return s;
}
// 0..n arbitrary bytes, min..max
inline std::string any(unsigned mn, unsigned mx)
{
    return any(mn + sym_choice(mx - mn + 1));
}

// ------------------------------------------------------------------ output capture
struct capture : std::streambuf
{
    std::string data;
    int overflow(int c) override
    {
        if (c != -1)
            data.push_back((char)c);
        return c == -1 ? 0 : c;
    }
    std::streamsize xsputn(char const * s, std::streamsize n) override
    {
        data.append(s, n);
        return n;
    }
};
struct captured
{
    capture out, err;
    std::streambuf *o, *e;
    captured() : o{std::cout.rdbuf(&out)}, e{std::cerr.rdbuf(&err)} {}
    ~captured()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
    }
};

// ------------------------------------------------------------------ outcome of parse()
enum outcome : int
{
    OK,
    EXITED,           // exit(0) for a special request
    TOO_MANY,
    TOO_FEW,
    REQUIRED,
    MULTIPLE,
    UNKNOWN,
    VALIDATION,
    USER_INPUT,
    DESIGN,
    OTHER_PARSER_ERROR,
    FOREIGN,          // any other exception
    NONE
};
inline char const * name(int o)
{
    static char const * const n[] = {"ok", "exit", "too_many_arguments", "too_few_arguments", "required_option_missing",
                                     "option_declared_multiple_times", "unknown_option", "validation_error",
                                     "user_input_error", "design_error", "other parser_error", "foreign exception", "-"};
    return n[o];
}
inline int exit_code = -1;
inline void (*after)(int) = nullptr; // continuation: called once with the outcome
inline std::string what;

template <typename F>
int classify(F && f)
{
    try
    {
        f();
        return OK;
    }
    catch (sharg::too_many_arguments const & e) { what = e.what(); return TOO_MANY; }
    catch (sharg::too_few_arguments const & e) { what = e.what(); return TOO_FEW; }
    catch (sharg::required_option_missing const & e) { what = e.what(); return REQUIRED; }
    catch (sharg::option_declared_multiple_times const & e) { what = e.what(); return MULTIPLE; }
    catch (sharg::unknown_option const & e) { what = e.what(); return UNKNOWN; }
    catch (sharg::validation_error const & e) { what = e.what(); return VALIDATION; }
    catch (sharg::user_input_error const & e) { what = e.what(); return USER_INPUT; }
    catch (sharg::design_error const & e) { what = e.what(); return DESIGN; }
    catch (sharg::parser_error const & e) { what = e.what(); return OTHER_PARSER_ERROR; }
    catch (...)
    {
        return FOREIGN;
    }
}
inline void note(std::string const & s)
{
    sym_note(s.data(), s.size());
}
inline void note_args(std::vector<std::string> const & a)
{
    std::string s = "argv:";
    for (auto & x : a)
        s += " [" + x + "]";
    note(s);
}
inline void finish(int o)
{
    note(std::string("outcome: ") + name(o) + (what.empty() ? "" : ": " + what));
    sym_observe((uint64_t)o);
    if (after)
        after(o);
    sym_end();
}
inline void on_exit_handler(int code)
{
    exit_code = code;
    finish(EXITED);
}
// Runs f(), then cont(outcome); also when f() calls exit().
template <typename F>
void run(F && f, void (*cont)(int))
{
    after = cont;
    sym_on_exit(&on_exit_handler);
    int o = classify(f);
    finish(o);
}
inline void observe(std::string const & s)
{
    sym_observe(s.size());
    uint64_t h = 0;
    for (unsigned char c : s)
        h = h * 257 + c;
    sym_observe(h);
}
} // namespace vp
