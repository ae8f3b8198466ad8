#pragma once
#define VP_NUMBER_TEXT
// Environment of the version check: the clock, the detached thread, standard input and, in the
// symbolic build, the conversion of the stored time stamp.
#include "vp.h"
#include "page.h"
#include <chrono>
#include <thread>
namespace vp
{
inline long now_s = 1700000000; // the clock in seconds
inline unsigned threads_started = 0;
inline bool thread_runs = true; // false: the detached thread never gets to run
struct input : std::streambuf
{
    std::string data;
    void set(std::string const & s)
    {
        data = s;
        setg(data.data(), data.data(), data.data() + data.size());
    }
};
inline input * in = nullptr;
inline void set_stdin(std::string const & s)
{
    if (!in)
    {
        in = new input;
        std::cin.rdbuf(in);
    }
    in->set(s);
    std::cin.clear();
}
inline env_state uenv;
inline std::string cookie_name(std::string const & dir, std::string const & app = "app")
{
#ifdef NDEBUG
    return dir + "/" + app + "_usr.timestamp";
#else
    return dir + "/" + app + "_dev.timestamp";
#endif
}
// optional '-' and digits at p
inline int64_t integer(char const *& p, char const * l, char const *& digits)
{
    bool neg = sym_fold(p != l && *p == '-'); // (keeps the positions concrete)
    if (neg)
        ++p;
    digits = p;
    uint64_t x = 0;
    while (p != l && sym_fold((*p >= '0') & (*p <= '9')))
    {
        x = x * 10 + (uint64_t)(*p & 15);
        ++p;
    }
    return neg ? -(int64_t)x : (int64_t)x;
}
// the current time as it is stored
inline std::string stamp_text()
{
#ifdef VP_SYMBOLIC
    std::string s = "N";
    for (int i = 60; i >= 0; i -= 4)
        s.push_back((char)('@' | ((now_s >> i) & 15)));
    return s;
#else
    return std::to_string(now_s);
#endif
}
// number of commands that went to a server
inline unsigned requests()
{
    unsigned n = 0;
    for (auto & c : E->system_calls)
        n += c.find("https://") != std::string::npos;
    return n;
}
} // namespace vp
namespace std // hidden: the solver's library must not see these
{
#define VP_HIDDEN __attribute__((visibility("hidden"), used))
VP_HIDDEN chrono::_V2::system_clock::time_point chrono::_V2::system_clock::now() noexcept
{
    return time_point{duration{vp::now_s * 1000000000l}};
}
// The thread runs at once, to its end, or never: the function it runs shares nothing with the
// parser except the promise.
VP_HIDDEN void thread::_M_start_thread(_State_ptr s, void (*)())
{
    ++vp::threads_started;
    new (&_M_id) id{(pthread_t)1};
    if (vp::thread_runs)
        s->_M_run();
    else
        (void)s.release();
}
VP_HIDDEN void thread::detach()
{
    new (&_M_id) id{};
}
#ifdef VP_SYMBOLIC
// Optional '-', then digits, up to the first other byte; what else a double may look like is excluded.
VP_HIDDEN from_chars_result from_chars(char const * f, char const * l, double & v, chars_format) noexcept
{
    char const *p = f, *d;
    if (l - f >= 17 && *f == 'N') // written by this process
    {
        uint64_t x = 0;
        for (int i = 1; i <= 16; ++i)
            x = x << 4 | (uint64_t)(f[i] & 15);
        v = (double)(int64_t)x;
        return {f + 17, errc{}};
    }
    int64_t x = vp::integer(p, l, d);
    if (p == d)
        return {f, errc::invalid_argument};
    v = (double)x;
    return {p, errc{}};
}
#endif
} // namespace std
