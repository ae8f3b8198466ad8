#pragma once
// Harness API. The same harness source is built twice: instrumented (symbolic exploration)
// and plain with g++ (replay of one input tape).
#include <cstddef>
#include <cstdint>
extern "C"
{
    uint8_t sym_byte();                             // fresh symbolic byte
    unsigned sym_choice(unsigned n);                // exhaustive concrete choice 0..n-1
    void sym_assume(bool c);                        // prune paths where c is false
    void sym_assert(bool c, char const * msg);      // property: decided by the solver on every path
    void sym_cover(char const * label);             // reachability witness (vacuity guard)
    void sym_observe(uint64_t v);                   // concrete observation compared with the replay build
    void sym_finding(char const * id);              // this path exhibits the listed known finding
    [[noreturn]] void sym_end();                    // end of path
    void sym_on_exit(void (*handler)(int));         // called when the code under test calls exit(code)
    void sym_fail(char const * msg);                // unconditional violation on this path
    bool sym_symbolic_run();                        // true in the symbolic build
    void sym_note(char const * data, size_t n);     // text shown on replay only
    uint8_t sym_fold(uint8_t v);                    // fork until v is concrete
    // combinations without control flow (keep the assertion one expression)
    bool sym_and(bool a, bool b);
    bool sym_or(bool a, bool b);
    void harness_main();
}
inline uint64_t sym_u64() { uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= (uint64_t)sym_byte() << (8 * i); return v; }
inline uint32_t sym_u32() { uint32_t v = 0; for (int i = 0; i < 4; ++i) v |= (uint32_t)sym_byte() << (8 * i); return v; }
inline uint16_t sym_u16() { uint16_t v = 0; for (int i = 0; i < 2; ++i) v = (uint16_t)(v | ((uint16_t)sym_byte() << (8 * i))); return v; }
inline bool sym_bool() { return (sym_byte() & 1) != 0; }
