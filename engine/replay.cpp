// Concrete counterpart of rt.cpp: replays input tapes on an uninstrumented build of the harness.
//   replay --tape HEX            one tape, verbose; exit 0 ok, 1 violated (message on stdout)
//   replay --batch FILE          records (u16 n, u64 obs, n bytes) written by the symbolic run;
//                                prints "validated mismatched failed"
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <csignal>
static std::vector<uint8_t> tape;
static size_t tp = 0;
static bool verbose = false, in_replay = false;
static uint64_t obs = 1469598103934665603ull;
static void (*exit_handler)(int) = nullptr;
static uint64_t mix(uint64_t x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    x ^= x >> 33;
    return x;
}
static int outfd = 1;
static int resfd = -1;
static void say(std::string const & s)
{
    if (verbose && write(outfd, s.data(), s.size()) < 0)
    {}
}
extern "C"
{
uint8_t sym_byte() { return tp < tape.size() ? tape[tp++] : 0; }
unsigned sym_choice(unsigned n) { unsigned c = tp < tape.size() ? tape[tp++] : 0; return n ? c % n : 0; }
void sym_assume(bool c) { if (!c) { say("assumption not met\n"); _exit(0); } }
[[noreturn]] static void finish(int code)
{
    if (resfd >= 0 && write(resfd, &obs, 8) < 0)
    {}
    _exit(code);
}
void sym_assert(bool c, char const * msg)
{
    if (!c)
    {
        say(std::string("ASSERTION VIOLATED: ") + msg + "\n");
        finish(1);
    }
}
void sym_fail(char const * msg) { sym_assert(false, msg); }
void sym_cover(char const *) {}
void sym_observe(uint64_t v) { obs = mix(obs * 1099511628211ull + v); }
void sym_finding(char const * id) { say(std::string("known finding: ") + id + "\n"); }
void sym_end() { finish(0); }
void sym_on_exit(void (*h)(int)) { exit_handler = h; }
bool sym_symbolic_run() { return false; }
void sym_note(char const * d, size_t n)
{
    if (!verbose)
        return;
    std::string s = "  ";
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char c = d[i];
        char b[8];
        if (c == '\n')
            s += "\\n";
        else if (c < 32 || c > 126)
        {
            snprintf(b, 8, "\\x%02x", c);
            s += b;
        }
        else
            s += c;
    }
    say(s + "\n");
}
uint8_t sym_fold(uint8_t v) { return v; }
bool sym_and(bool a, bool b) { return a & b; }
bool sym_or(bool a, bool b) { return a | b; }
void exit(int code)
{
    if (in_replay)
    {
        if (exit_handler)
            exit_handler(code);
        finish(0);
    }
    fflush(stdout);
    _exit(code);
}
}
static int runOne()
{
    in_replay = true;
    alarm(60);
    try
    {
        harness_main();
    }
    catch (std::exception & e)
    {
        say(std::string("UNCAUGHT EXCEPTION: ") + e.what() + "\n");
        abort();
    }
    catch (...)
    {
        say("UNCAUGHT EXCEPTION\n");
        abort();
    }
    finish(0);
}
int main(int argc, char ** argv)
{
    if (argc >= 3 && !strcmp(argv[1], "--tape"))
    {
        std::string h = argv[2];
        for (size_t i = 0; i + 1 < h.size(); i += 2)
            tape.push_back(strtoul(h.substr(i, 2).c_str(), nullptr, 16));
        outfd = dup(1);
        pid_t p = fork();
        if (!p)
        {
            verbose = true;
            runOne();
        }
        int st;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st))
        {
            printf("KILLED by signal %d\n", WTERMSIG(st));
            return 1;
        }
        int c = WEXITSTATUS(st);
        printf(c ? "replay: violated\n" : "replay: held\n");
        fflush(stdout);
        return c ? 1 : 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "--batch"))
    {
        FILE * f = fopen(argv[2], "rb");
        if (!f)
            return 2;
        long limit = argc >= 4 ? atol(argv[3]) : 1000000000, stride = argc >= 5 ? atol(argv[4]) : 1;
        long offset = argc >= 6 ? atol(argv[5]) : 0;
        long ok = 0, mism = 0, fail = 0, k = 0;
        uint16_t n;
        uint64_t want;
        while (fread(&n, 2, 1, f) == 1 && fread(&want, 8, 1, f) == 1)
        {
            tape.resize(n);
            if (n && fread(tape.data(), 1, n, f) != n)
                break;
            if (k++ % stride != offset || ok + mism + fail >= limit)
                continue;
            int pfd[2];
            if (pipe(pfd))
                return 2;
            pid_t p = fork();
            if (!p)
            {
                freopen("/dev/null", "w", stderr);
                resfd = pfd[1];
                runOne();
            }
            close(pfd[1]);
            uint64_t got = 0;
            bool have = read(pfd[0], &got, 8) == 8;
            close(pfd[0]);
            int st;
            waitpid(p, &st, 0);
            bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            if (bad)
                ++fail;
            else if (!have || got != want)
                ++mism;
            else
                ++ok;
            if ((bad || !have || got != want) && fail + mism <= 3)
            {
                printf("# %s tape ", bad ? "failed" : "mismatch");
                for (auto b : tape)
                    printf("%02x", b);
                printf("\n");
            }
        }
        printf("validated %ld mismatched %ld failed %ld\n", ok, mism, fail);
        return 0;
    }
    return 2;
}
