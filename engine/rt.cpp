// Runtime of the dynamic symbolic execution engine. See ../DESIGN.md.
#include <sys/syscall.h>
#include <execinfo.h>
#include <new>
#include "ops.h"
#include "sym.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;

extern "C" char const * const __sym_fn_names[];
extern "C"
{
    u32 __sym_args[128];
    void * __sym_arg_ptrs[128];
    void * __sym_args_tag;
    u32 __sym_ret[16];
    void * __sym_ret_tag;
    u64 __sym_ext_vals[128];
}

[[noreturn]] static void die(int line)
{
    char b[64];
    int n = 0;
    for (char const * t = "engine: stop at rt.cpp:"; *t;)
        b[n++] = *t++;
    char d[12];
    int k = 0;
    do
        d[k++] = '0' + line % 10;
    while (line /= 10);
    while (k)
        b[n++] = d[--k];
    b[n++] = '\n';
    syscall(SYS_write, 2, b, n);
    _exit(98);
}
static u64 now_us()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}

// ------------------------------------------------------------------ limits
constexpr unsigned MAXV = 128;        // symbolic bytes
constexpr unsigned MAXN = 1u << 22;   // expression nodes per path
constexpr unsigned HT = 1u << 21;     // hash-consing table
constexpr unsigned CACHE = 1u << 20;  // shared query cache
constexpr unsigned MAXFN = 1u << 16;
constexpr unsigned MAXTAPE = 512;

// ------------------------------------------------------------------ shared state
struct CEnt
{
    u64 h1, h2;
    std::atomic<u8> st; // 0 empty 1 writing 2 unsat 3 sat
    u8 n;
    u8 kv[46];
};
struct Viol
{
    char kind[24];
    char msg[360];
    u16 ntape;
    u8 tape[MAXTAPE];
};
struct Label
{
    char name[112];
    std::atomic<u64> n;
    u16 ntape;
    u8 tape[MAXTAPE];
};
struct Shared
{
    std::atomic<u32> lock, vlock;
    std::atomic<u64> qtop;      // bytes on the stack
    std::atomic<u64> qitems;
    std::atomic<u32> active;    // workers with an item
    std::atomic<u32> stop;
    std::atomic<u64> paths, pruned, diverged, crashed, timeouts, branches, forced, q_sat, q_unsat, q_unknown, q_cached,
        solver_us, asserts_solver, asserts_path, assert_const, stale, leaks, unsup, maxq, evalchk, conc, symload, pushed,
        nodes, depthmax, dropped, oom, outside, assert_cached;
    std::atomic<u32> nviol, nlab, nleak, nfind;
    Viol viol[64];
    Label lab[256];
    Label leak[128];
    Label find[64];
    std::atomic<u8> fnhit[MAXFN];
    CEnt cache[CACHE];
    struct Slot
    {
        std::atomic<u32> nt;
        u8 tape[MAXTAPE];
        char note[256];
    } slot[64];
};
static Shared * S;
static bool vp_debug, vp_leakabort;
static int in_solver = 0; // libz3 may call our interposed templates: they must not use the arena
static u8 * Q; // stack memory
constexpr u64 QMAX = 6ull << 30;
static int widx = -1;
static bool in_child = false;
static int rec_fd = -1;
static u64 t_start, t_budget_us = 60000000;
static unsigned solver_timeout_ms = 20000;
static int path_timeout_s = 60;
static int dump_fd = -1;
static unsigned dump_mod = 0;

static void lk(std::atomic<u32> & l)
{
    u32 z = 0;
    while (!l.compare_exchange_weak(z, 1))
    {
        z = 0;
        sched_yield();
    }
}
static void ul(std::atomic<u32> & l)
{
    l = 0;
}

// ------------------------------------------------------------------ expressions
struct Sup
{
    u64 a = 0, b = 0;
    bool operator&(Sup const & o) const { return (a & o.a) || (b & o.b); }
    Sup operator|(Sup const & o) const { return {a | o.a, b | o.b}; }
    bool operator==(Sup const & o) const { return a == o.a && b == o.b; }
    unsigned count() const { return __builtin_popcountll(a) + __builtin_popcountll(b); }
};
struct Node
{
    u8 op, w;
    u16 x;
    u32 a, b, c;
    u64 val;
    u64 h1, h2;
    Sup s;
};
static Node * N;
static u32 nn = 1;
static u32 * ht;
static u8 vals[MAXV];   // current model
static unsigned nvars = 0;
static u32 varnode[MAXV];

static u64 mask(unsigned w)
{
    return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
static int64_t sx(u64 v, unsigned w)
{
    if (w >= 64)
        return (int64_t)v;
    u64 m = 1ull << (w - 1);
    v &= mask(w);
    return (int64_t)((v ^ m) - m);
}
static u64 mix(u64 x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    x ^= x >> 33;
    return x;
}
static double todbl(u64 v, unsigned w)
{
    if (w == 32)
    {
        float f;
        u32 u = (u32)v;
        memcpy(&f, &u, 4);
        return f;
    }
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static u64 fromdbl(double d, unsigned w)
{
    if (w == 32)
    {
        float f = (float)d;
        u32 u;
        memcpy(&u, &f, 4);
        return u;
    }
    u64 u;
    memcpy(&u, &d, 8);
    return u;
}

// concrete semantics of an operation; w = width of operands (for casts: x = source width, w = target width)
static u64 evop(unsigned op, unsigned w, unsigned x, u64 a, u64 b, u64 c)
{
    u64 m = mask(w);
    switch (op)
    {
    case OP_ADD: return (a + b) & m;
    case OP_SUB: return (a - b) & m;
    case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? (a / b) & m : m;
    case OP_UREM: return b ? a % b : a;
    case OP_SDIV:
    {
        int64_t p = sx(a, w), q = sx(b, w);
        if (!q)
            return p >= 0 ? m : 1;
        if (q == -1)
            return (0 - (u64)p) & m;
        return (u64)(p / q) & m;
    }
    case OP_SREM:
    {
        int64_t p = sx(a, w), q = sx(b, w);
        if (!q)
            return a;
        if (q == -1)
            return 0;
        return (u64)(p % q) & m;
    }
    case OP_SHL: return b >= w ? 0 : (a << b) & m;
    case OP_LSHR: return b >= w ? 0 : (a & m) >> b;
    case OP_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    case OP_EQ: return a == b;
    case OP_NE: return a != b;
    case OP_ULT: return a < b;
    case OP_ULE: return a <= b;
    case OP_UGT: return a > b;
    case OP_UGE: return a >= b;
    case OP_SLT: return sx(a, x) < sx(b, x);
    case OP_SLE: return sx(a, x) <= sx(b, x);
    case OP_SGT: return sx(a, x) > sx(b, x);
    case OP_SGE: return sx(a, x) >= sx(b, x);
    case OP_ZEXT: return a;
    case OP_SEXT: return (u64)sx(a, x) & m;
    case OP_TRUNC: return a & m;
    case OP_ITE: return a ? b : c;
    case OP_EXTR: return (a >> x) & m;
    case OP_CONCAT: return ((a << x) | b) & m; // x = width of b
    case OP_UMULO: { u128 p = (u128)a * b; return (p >> x) != 0; }
    case OP_SMULO: { __int128 p = (__int128)sx(a, x) * sx(b, x); return p != (__int128)sx((u64)p & mask(x), x); }
    case OP_FADD: return fromdbl(w == 32 ? (float)todbl(a, w) + (float)todbl(b, w) : todbl(a, w) + todbl(b, w), w);
    case OP_FSUB: return fromdbl(w == 32 ? (float)todbl(a, w) - (float)todbl(b, w) : todbl(a, w) - todbl(b, w), w);
    case OP_FMUL: return fromdbl(w == 32 ? (float)todbl(a, w) * (float)todbl(b, w) : todbl(a, w) * todbl(b, w), w);
    case OP_FDIV: return fromdbl(w == 32 ? (float)todbl(a, w) / (float)todbl(b, w) : todbl(a, w) / todbl(b, w), w);
    case OP_FNEG: return a ^ (1ull << (w - 1));
    case OP_SITOFP: return w == 32 ? fromdbl((float)sx(a, x), 32) : fromdbl((double)sx(a, x), 64);
    case OP_UITOFP: return w == 32 ? fromdbl((float)a, 32) : fromdbl((double)a, 64);
    case OP_FPCONV: return fromdbl(todbl(a, x), w);
    case OP_FPTOSI: return (u64)(int64_t)todbl(a, x) & m;
    case OP_FPTOUI: return (u64)todbl(a, x) & m;
    }
    if (op >= OP_FCMP_BASE && op < OP_FCMP_BASE + 16)
    {
        double p = todbl(a, x), q = todbl(b, x);
        unsigned pr = op - OP_FCMP_BASE;
        bool uno = std::isnan(p) || std::isnan(q);
        if (uno)
            return (pr & 8) != 0;
        return ((pr & 1) && p == q) || ((pr & 2) && p > q) || ((pr & 4) && p < q);
    }
    fprintf(stderr, "evop: bad op %u\n", op);
    abort();
}

static u32 mkraw(unsigned op, unsigned w, unsigned x, u32 a, u32 b, u32 c, u64 cv)
{
    u64 k = mix((u64)op | ((u64)w << 8) | ((u64)x << 16) | ((u64)a << 32)) ^ mix(((u64)b << 32 | c) + 0x9e3779b97f4a7c15ull);
    if (op == OP_CONST || op == OP_VAR)
        k ^= mix(cv + 77);
    u32 i = k & (HT - 1);
    for (;; i = (i + 1) & (HT - 1))
    {
        u32 id = ht[i];
        if (!id)
            break;
        Node & n = N[id];
        if (n.op == op && n.w == w && n.x == x && n.a == a && n.b == b && n.c == c
            && ((op != OP_CONST && op != OP_VAR) || n.val == cv || op == OP_VAR))
            return id;
    }
    if (nn >= MAXN - 1)
    {
        S->oom++;
        _exit(97);
    }
    u32 id = nn++;
    ht[i] = id;
    Node & n = N[id];
    n.op = op;
    n.w = w;
    n.x = x;
    n.a = a;
    n.b = b;
    n.c = c;
    if (op == OP_CONST)
    {
        n.val = cv;
        n.s = {};
        n.h1 = mix(cv + 0x1234567 + w);
        n.h2 = mix(cv * 31 + 7 + w * 1000003ull);
    }
    else if (op == OP_VAR)
    {
        n.val = vals[a];
        n.s = {};
        (a < 64 ? n.s.a : n.s.b) = 1ull << (a & 63);
        n.h1 = mix(a + 0xabcdef);
        n.h2 = mix(a * 977 + 0xfeed);
    }
    else
    {
        n.val = evop(op, w, x, N[a].val, b ? N[b].val : 0, c ? N[c].val : 0);
        n.s = N[a].s | N[b].s | N[c].s; // N[0].s is empty
        n.h1 = mix(N[a].h1 * 3 + mix(N[b].h1 * 5 + mix(N[c].h1 * 7 + op * 131 + w * 17 + x)));
        n.h2 = mix(N[a].h2 * 11 + mix(N[b].h2 * 13 + mix(N[c].h2 * 17 + op * 137 + w * 19 + x)));
    }
    return id;
}
static u32 K(unsigned w, u64 v)
{
    return mkraw(OP_CONST, w, 0, 0, 0, 0, v & mask(w));
}
static bool isK(u32 i)
{
    return N[i].op == OP_CONST;
}
static bool isK(u32 i, u64 v)
{
    return N[i].op == OP_CONST && N[i].val == v;
}
static u32 mk(unsigned op, unsigned w, unsigned x, u32 a, u32 b = 0, u32 c = 0);
static u32 mkNot(u32 a)
{
    return mk(OP_XOR, 1, 0, a, K(1, 1));
}
static u32 mkExtr(u32 a, unsigned lo, unsigned w)
{
    Node & n = N[a];
    if (lo == 0 && w == n.w)
        return a;
    if (n.op == OP_CONST)
        return K(w, n.val >> lo);
    if (n.op == OP_EXTR)
        return mkExtr(n.a, n.x + lo, w);
    if (n.op == OP_ZEXT)
    {
        unsigned iw = N[n.a].w;
        if (lo >= iw)
            return K(w, 0);
        if (lo + w <= iw)
            return mkExtr(n.a, lo, w);
        return mk(OP_ZEXT, w, iw - lo, mkExtr(n.a, lo, iw - lo));
    }
    if (n.op == OP_SEXT)
    {
        unsigned iw = N[n.a].w;
        if (lo + w <= iw)
            return mkExtr(n.a, lo, w);
    }
    if (n.op == OP_CONCAT)
    {
        unsigned lw = n.x;
        if (lo >= lw)
            return mkExtr(n.a, lo - lw, w);
        if (lo + w <= lw)
            return mkExtr(n.b, lo, w);
        u32 p = n.a, q = n.b;
        unsigned h = lo + w - lw;
        p = mkExtr(p, 0, h);
        q = mkExtr(q, lo, lw - lo);
        return mk(OP_CONCAT, w, lw - lo, p, q);
    }
    if (n.op == OP_TRUNC)
        return mkExtr(n.a, lo, w);
    if ((n.op == OP_OR || n.op == OP_AND || n.op == OP_XOR) && isK(n.b))
    {
        unsigned op = n.op;
        u32 x = n.a, k = K(w, N[n.b].val >> lo);
        return mk(op, w, 0, mkExtr(x, lo, w), k);
    }
    if ((n.op == OP_ASHR || n.op == OP_LSHR) && isK(n.b) && N[n.b].val < n.w && lo + w + N[n.b].val <= n.w)
        return mkExtr(n.a, lo + (unsigned)N[n.b].val, w);
    return mkraw(OP_EXTR, w, lo, a, 0, 0, 0);
}

static bool iscmp(unsigned op)
{
    return op >= OP_EQ && op <= OP_SGE;
}
static bool constTree(u32 a, int d)
{
    Node & n = N[a];
    if (n.op == OP_CONST)
        return true;
    if (n.op == OP_ITE && d > 0)
        return constTree(n.b, d - 1) && constTree(n.c, d - 1);
    return false;
}

// bounds of the value of an expression read as a signed number
static void range(u32 id, __int128 & lo, __int128 & hi, int d = 24)
{
    Node const n = N[id];
    __int128 const half = (__int128)1 << (n.w - 1);
    lo = -half;
    hi = half - 1;
    if (d <= 0)
        return;
    __int128 l, h, l2, h2;
    switch (n.op)
    {
    case OP_CONST: lo = hi = sx(n.val, n.w); return;
    case OP_ZEXT:
        range(n.a, l, h, d - 1);
        lo = l >= 0 ? l : 0;
        hi = l >= 0 ? h : ((__int128)1 << N[n.a].w) - 1;
        return;
    case OP_SEXT: range(n.a, lo, hi, d - 1); return;
    case OP_AND:
        if (isK(n.b) && sx(N[n.b].val, n.w) >= 0)
        {
            lo = 0;
            hi = N[n.b].val;
        }
        return;
    case OP_ITE:
        range(n.b, l, h, d - 1);
        range(n.c, l2, h2, d - 1);
        lo = std::min(l, l2);
        hi = std::max(h, h2);
        return;
    case OP_ADD:
    case OP_SUB:
    case OP_MUL:
    case OP_SHL:
        range(n.a, l, h, d - 1);
        if (n.op == OP_SHL)
        {
            if (!isK(n.b) || N[n.b].val >= 62)
                return;
            l2 = h2 = (__int128)1 << N[n.b].val;
        }
        else
            range(n.b, l2, h2, d - 1);
        if (n.op == OP_ADD)
            l += l2, h += h2;
        else if (n.op == OP_SUB)
        {
            __int128 t = l - h2;
            h = h - l2;
            l = t;
        }
        else
        {
            __int128 p[4] = {l * l2, l * h2, h * l2, h * h2};
            l = *std::min_element(p, p + 4);
            h = *std::max_element(p, p + 4);
        }
        if (l >= lo && h <= hi) // no wrap around
        {
            lo = l;
            hi = h;
        }
        return;
    }
}
// The integer (64 bits, signed) whose exact conversion the double is; 0 if it is not known to be one.
static u32 exactInt(u32 d, int depth = 4)
{
    Node const n = N[d];
    __int128 lo, hi;
    constexpr __int128 lim = (__int128)1 << 53;
    if (n.w != 64 || depth <= 0)
        return 0;
    if (n.op == OP_CONST)
    {
        double v = todbl(n.val, 64);
        return v >= -9007199254740992.0 && v <= 9007199254740992.0 && v == (double)(int64_t)v && !(v == 0 && n.val) ? K(64, (u64)(int64_t)v) : 0;
    }
    if (n.op == OP_ITE)
    {
        u32 p = exactInt(n.b, depth - 1), q = p ? exactInt(n.c, depth - 1) : 0;
        return q ? mk(OP_ITE, 64, 0, n.a, p, q) : 0;
    }
    if (n.op != OP_SITOFP && n.op != OP_UITOFP)
        return 0;
    if (N[n.a].w > 64)
        return 0;
    if (n.op == OP_UITOFP && N[n.a].w <= 32)
        return mk(OP_ZEXT, 64, N[n.a].w, n.a);
    range(n.a, lo, hi);
    if (hi > lim || lo < -lim || (n.op == OP_UITOFP && lo < 0))
        return 0;
    return mk(OP_SEXT, 64, N[n.a].w, n.a);
}
// w: result width, x: extra (source width for casts and comparisons)
static u32 mk(unsigned op, unsigned w, unsigned x, u32 a, u32 b, u32 c)
{
    if (isK(a) && (!b || isK(b)) && (!c || isK(c)))
        return K(w, evop(op, w, x, N[a].val, b ? N[b].val : 0, c ? N[c].val : 0));
    if ((op == OP_FADD || op == OP_FSUB) && w == 64)
    {
        u32 p = exactInt(a), q = p ? exactInt(b) : 0;
        if (q)
        {
            u32 r = mk(op == OP_FADD ? OP_ADD : OP_SUB, 64, 0, p, q);
            __int128 lo, hi;
            constexpr __int128 lim = (__int128)1 << 53;
            range(r, lo, hi);
            if (lo >= -lim && hi <= lim)
                return mk(OP_SITOFP, 64, 64, r);
        }
    }
    if (op >= OP_FCMP_BASE && op < OP_FCMP_BASE + 16 && x == 64)
    {
        u32 p = exactInt(a), q = p ? exactInt(b) : 0;
        if (q)
        {
            static unsigned const cmp[8] = {0, OP_EQ, OP_SGT, OP_SGE, OP_SLT, OP_SLE, OP_NE, 0};
            unsigned pr = (op - OP_FCMP_BASE) & 7;
            return pr == 0 ? K(1, 0) : pr == 7 ? K(1, 1) : mk(cmp[pr], 1, 64, p, q);
        }
    }
    if (op == OP_SDIV && isK(b) && N[a].op == OP_MUL && N[a].b == b && sx(N[b].val, w) > 0)
    {
        __int128 lo, hi, half = (__int128)1 << (w - 1), k = sx(N[b].val, w);
        range(N[a].a, lo, hi);
        if (lo * k >= -half && hi * k < half)
            return N[a].a;
    }
    switch (op)
    {
    case OP_TRUNC: return mkExtr(a, 0, w);
    case OP_EXTR: return mkExtr(a, x, w);
    case OP_ZEXT:
        if (N[a].w == w)
            return a;
        if (N[a].op == OP_ZEXT)
            return mk(OP_ZEXT, w, N[N[a].a].w, N[a].a);
        break;
    case OP_SEXT:
        if (N[a].w == w)
            return a;
        if (N[a].op == OP_ZEXT)
            return mk(OP_ZEXT, w, N[N[a].a].w, N[a].a);
        if (N[a].op == OP_SEXT)
            return mk(OP_SEXT, w, N[N[a].a].w, N[a].a);
        break;
    case OP_CONCAT:
        if (isK(a, 0))
            return mk(OP_ZEXT, w, N[b].w, b);
        if (N[a].op == OP_ZEXT)
        {
            unsigned iw = N[N[a].a].w + N[b].w;
            return mk(OP_ZEXT, w, iw, mk(OP_CONCAT, iw, N[b].w, N[a].a, b));
        }
        if (N[a].op == OP_EXTR && N[b].op == OP_EXTR && N[a].a == N[b].a && N[a].x == N[b].x + N[b].w)
            return mkExtr(N[a].a, N[b].x, w);
        // EXTR(e,lo) where the low part is e's own low part
        if (N[a].op == OP_EXTR && N[a].a == b && N[a].x == N[b].w)
            return mkExtr(b, 0, w);
        break;
    case OP_ITE:
        if (isK(a))
            return N[a].val ? b : c;
        if (b == c)
            return b;
        if (w == 1)
        {
            if (isK(b, 1) && isK(c, 0))
                return a;
            if (isK(b, 0) && isK(c, 1))
                return mkNot(a);
            if (isK(b, 1))
                return mk(OP_OR, 1, 0, a, c);
            if (isK(b, 0))
                return mk(OP_AND, 1, 0, mkNot(a), c);
            if (isK(c, 0))
                return mk(OP_AND, 1, 0, a, b);
            if (isK(c, 1))
                return mk(OP_OR, 1, 0, mkNot(a), b);
        }
        break;
    case OP_ADD:
        if (isK(a))
            std::swap(a, b);
        if (isK(b, 0))
            return a;
        if (isK(b) && N[a].op == OP_ADD && isK(N[a].b))
            return mk(OP_ADD, w, 0, N[a].a, K(w, N[b].val + N[N[a].b].val));
        break;
    case OP_SUB:
        if (a == b)
            return K(w, 0);
        if (isK(b))
            return mk(OP_ADD, w, 0, a, K(w, 0 - N[b].val));
        break;
    case OP_MUL:
        if (isK(a))
            std::swap(a, b);
        if (isK(b, 1))
            return a;
        if (isK(b, 0))
            return b;
        break;
    case OP_UDIV:
        if (isK(b, 1))
            return a;
        break;
    case OP_SHL:
    case OP_LSHR:
    case OP_ASHR:
        if (isK(b, 0))
            return a;
        if (op == OP_LSHR && isK(b) && N[b].val < w)
            return mk(OP_ZEXT, w, w - N[b].val, mkExtr(a, N[b].val, w - N[b].val));
        break;
    case OP_AND:
        if (isK(a))
            std::swap(a, b);
        if (a == b)
            return a;
        if (isK(b, 0))
            return b;
        if (isK(b, mask(w)))
            return a;
        if (isK(b))
        {
            u64 v = N[b].val;
            if ((v & (v + 1)) == 0)
            { // low mask
                unsigned k = __builtin_popcountll(v);
                return mk(OP_ZEXT, w, k, mkExtr(a, 0, k));
            }
        }
        if (w == 1)
        {
            if (N[a].op == OP_XOR && isK(N[a].b, 1) && N[a].a == b)
                return K(1, 0);
            if (N[b].op == OP_XOR && isK(N[b].b, 1) && N[b].a == a)
                return K(1, 0);
        }
        if (!isK(b) && a > b)
            std::swap(a, b);
        break;
    case OP_OR:
        if (isK(a))
            std::swap(a, b);
        if (a == b)
            return a;
        if (isK(b, 0))
            return a;
        if (isK(b, mask(w)))
            return b;
        if (w == 1)
        {
            if (N[a].op == OP_XOR && isK(N[a].b, 1) && N[a].a == b)
                return K(1, 1);
            if (N[b].op == OP_XOR && isK(N[b].b, 1) && N[b].a == a)
                return K(1, 1);
        }
        // disjoint zext/shl patterns: (zext x) | ((zext y) << k)  -> concat
        for (int t = 0; t < 2; ++t)
        {
            if (N[b].op == OP_SHL && isK(N[b].b) && N[a].op == OP_ZEXT && N[N[a].a].w <= N[N[b].b].val)
            {
                unsigned k = N[N[b].b].val;
                u32 hi = mkExtr(N[b].a, 0, w - k);
                u32 lo = mk(OP_ZEXT, k, N[N[a].a].w, N[a].a);
                return mk(OP_CONCAT, w, k, hi, lo);
            }
            std::swap(a, b);
        }
        if (!isK(b) && a > b)
            std::swap(a, b);
        break;
    case OP_XOR:
        if (isK(a))
            std::swap(a, b);
        if (a == b)
            return K(w, 0);
        if (isK(b, 0))
            return a;
        if (isK(b) && N[a].op == OP_XOR && isK(N[a].b))
            return mk(OP_XOR, w, 0, N[a].a, K(w, N[b].val ^ N[N[a].b].val));
        if (w == 1 && isK(b, 1))
        {
            Node & n = N[a];
            if (n.op == OP_NE)
                return mk(OP_EQ, 1, n.x, n.a, n.b);
            if (n.op == OP_ULT)
                return mk(OP_ULE, 1, n.x, n.b, n.a);
            if (n.op == OP_ULE)
                return mk(OP_ULT, 1, n.x, n.b, n.a);
            if (n.op == OP_SLT)
                return mk(OP_SLE, 1, n.x, n.b, n.a);
            if (n.op == OP_SLE)
                return mk(OP_SLT, 1, n.x, n.b, n.a);
        }
        break;
    }
    if (iscmp(op))
    {
        // normalise to EQ, ULT, ULE, SLT, SLE (negations as NOT(EQ))
        switch (op)
        {
        case OP_NE: return mkNot(mk(OP_EQ, 1, x, a, b));
        case OP_UGT: return mk(OP_ULT, 1, x, b, a);
        case OP_UGE: return mk(OP_ULE, 1, x, b, a);
        case OP_SGT: return mk(OP_SLT, 1, x, b, a);
        case OP_SGE: return mk(OP_SLE, 1, x, b, a);
        }
        if (a == b)
            return K(1, op == OP_EQ || op == OP_ULE || op == OP_SLE);
        if (op == OP_EQ && isK(a))
            std::swap(a, b);
        // constants against ITE with constant leaves
        if (isK(b) && N[a].op == OP_ITE && constTree(a, 40))
        {
            u32 ca = N[a].a, cb = N[a].b, cc = N[a].c;
            return mk(OP_ITE, 1, 0, ca, mk(op, 1, x, cb, b), mk(op, 1, x, cc, b));
        }
        if (isK(a) && N[b].op == OP_ITE && constTree(b, 40))
        {
            u32 ca = N[b].a, cb = N[b].b, cc = N[b].c;
            return mk(OP_ITE, 1, 0, ca, mk(op, 1, x, a, cb), mk(op, 1, x, a, cc));
        }
        bool kb = isK(b), ka = isK(a);
        u32 e = kb ? a : b;
        if ((ka || kb) && N[e].op == OP_ZEXT)
        {
            u32 in = N[e].a;
            unsigned iw = N[in].w;
            u64 k = kb ? N[b].val : N[a].val;
            u64 mx = mask(iw);
            bool fits = k <= mx;
            bool neg = sx(k, x) < 0;
            if (op == OP_EQ)
                return fits ? mk(OP_EQ, 1, iw, in, K(iw, k)) : K(1, 0);
            bool uns = op == OP_ULT || op == OP_ULE;
            if (uns || !neg)
            {
                unsigned uop = (op == OP_ULT || op == OP_SLT) ? OP_ULT : OP_ULE;
                if (fits)
                    return kb ? mk(uop, 1, iw, in, K(iw, k)) : mk(uop, 1, iw, K(iw, k), in);
                return K(1, kb ? 1 : 0); // in < big : true ; big < in : false
            }
            return K(1, kb ? 0 : 1); // signed, negative constant
        }
        if ((ka || kb) && N[e].op == OP_SEXT)
        {
            u32 in = N[e].a;
            unsigned iw = N[in].w;
            u64 k = kb ? N[b].val : N[a].val;
            u64 t = k & mask(iw);
            if (((u64)sx(t, iw) & mask(x)) == k)
                return kb ? mk(op, 1, iw, in, K(iw, t)) : mk(op, 1, iw, K(iw, t), in);
            if (op == OP_EQ)
                return K(1, 0);
        }
        if (N[a].op == OP_ZEXT && N[b].op == OP_ZEXT && N[N[a].a].w == N[N[b].a].w)
        {
            unsigned uop = op == OP_SLT ? OP_ULT : op == OP_SLE ? OP_ULE : op;
            return mk(uop, 1, N[N[a].a].w, N[a].a, N[b].a);
        }
        if (N[a].op == OP_SEXT && N[b].op == OP_SEXT && N[N[a].a].w == N[N[b].a].w)
            return mk(op, 1, N[N[a].a].w, N[a].a, N[b].a);
        if (op == OP_EQ)
        {
            if (x == 1 && kb)
                return N[b].val ? a : mkNot(a);
            if (kb && N[a].op == OP_ADD && isK(N[a].b))
                return mk(OP_EQ, 1, x, N[a].a, K(x, N[b].val - N[N[a].b].val));
            if (kb && N[a].op == OP_XOR && isK(N[a].b))
                return mk(OP_EQ, 1, x, N[a].a, K(x, N[b].val ^ N[N[a].b].val));
            if (kb && N[a].op == OP_CONCAT)
            {
                unsigned lw = N[a].x;
                u32 hi = N[a].a, lo = N[a].b;
                u64 k = N[b].val;
                return mk(OP_AND,
                          1,
                          0,
                          mk(OP_EQ, 1, N[hi].w, hi, K(N[hi].w, k >> lw)),
                          mk(OP_EQ, 1, lw, lo, K(lw, k)));
            }
            if (!kb && a > b)
                std::swap(a, b);
        }
        if (op == OP_ULT && isK(b, 0))
            return K(1, 0);
        if (op == OP_ULE && isK(a, 0))
            return K(1, 1);
        if (op == OP_ULT && isK(b, 1))
            return mk(OP_EQ, 1, x, a, K(x, 0));
        if (op == OP_ULT && isK(a, 0))
            return mkNot(mk(OP_EQ, 1, x, b, a));
        if (op == OP_ULE && isK(b, 0))
            return mk(OP_EQ, 1, x, a, b);
        if (op == OP_ULE && isK(b, mask(x)))
            return K(1, 1);
    }
    if (isK(a) && (!b || isK(b)) && (!c || isK(c)))
        return K(w, evop(op, w, x, N[a].val, b ? N[b].val : 0, c ? N[c].val : 0));
    return mkraw(op, w, x, a, b, c, 0);
}
static u32 ext(u32 id)
{
    return isK(id) ? 0 : id;
}

// ------------------------------------------------------------------ evaluation under another assignment
static std::vector<u64> evv;
static std::vector<u32> evs;
static u32 evst = 0;
static u64 evalN(u32 id, u8 const * m)
{
    if (evs.size() < nn)
    {
        evs.resize(nn + 1024, 0);
        evv.resize(nn + 1024, 0);
    }
    Node & n = N[id];
    if (n.op == OP_CONST)
        return n.val;
    if (n.op == OP_VAR)
        return m[n.a];
    if (evs[id] == evst)
        return evv[id];
    u64 a = evalN(n.a, m), b = n.b ? evalN(n.b, m) : 0, c = n.c ? evalN(n.c, m) : 0;
    u64 r = evop(n.op, n.w, n.x, a, b, c);
    evs[id] = evst;
    evv[id] = r;
    return r;
}

// ------------------------------------------------------------------ Z3
static Z3_context Z;
static Z3_solver ZS;
static std::unordered_map<u32, Z3_ast> * zmemo;
static void zerr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
    die(__LINE__);
}
static Z3_ast zx(u32 id);
static Z3_ast b2v(Z3_ast b)
{
    return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1)));
}
static bool boolish(unsigned op)
{
    return iscmp(op) || op == OP_UMULO || op == OP_SMULO || op >= OP_FCMP_BASE;
}
static std::unordered_map<u32, Z3_ast> * zbmemo;
static Z3_ast fpOf(Z3_ast bv, unsigned w)
{
    return Z3_mk_fpa_to_fp_bv(Z, bv, w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z));
}
static Z3_ast fpBits(Z3_ast f)
{
    return Z3_mk_fpa_to_ieee_bv(Z, f);
}
static Z3_ast zb(u32 id)
{ // boolean view of a width-1 node
    auto it = zbmemo->find(id);
    if (it != zbmemo->end())
        return it->second;
    Node & n = N[id];
    Z3_ast r;
    switch (n.op)
    {
    case OP_CONST: r = n.val ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case OP_EQ: r = n.x == 1 ? Z3_mk_eq(Z, zb(n.a), zb(n.b)) : Z3_mk_eq(Z, zx(n.a), zx(n.b)); break;
    case OP_ULT: r = Z3_mk_bvult(Z, zx(n.a), zx(n.b)); break;
    case OP_ULE: r = Z3_mk_bvule(Z, zx(n.a), zx(n.b)); break;
    case OP_SLT: r = Z3_mk_bvslt(Z, zx(n.a), zx(n.b)); break;
    case OP_SLE: r = Z3_mk_bvsle(Z, zx(n.a), zx(n.b)); break;
    case OP_UMULO: r = Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, zx(n.a), zx(n.b), false)); break;
    case OP_SMULO:
    {
        Z3_ast p[2] = {Z3_mk_bvmul_no_overflow(Z, zx(n.a), zx(n.b), true), Z3_mk_bvmul_no_underflow(Z, zx(n.a), zx(n.b))};
        r = Z3_mk_not(Z, Z3_mk_and(Z, 2, p));
        break;
    }
    case OP_AND:
    {
        Z3_ast p[2] = {zb(n.a), zb(n.b)};
        r = Z3_mk_and(Z, 2, p);
        break;
    }
    case OP_OR:
    {
        Z3_ast p[2] = {zb(n.a), zb(n.b)};
        r = Z3_mk_or(Z, 2, p);
        break;
    }
    case OP_XOR: r = isK(n.b, 1) ? Z3_mk_not(Z, zb(n.a)) : Z3_mk_xor(Z, zb(n.a), zb(n.b)); break;
    case OP_ITE: r = Z3_mk_ite(Z, zb(n.a), zb(n.b), zb(n.c)); break;
    default:
        if (n.op >= OP_FCMP_BASE && n.op < OP_FCMP_BASE + 16)
        {
            unsigned pr = n.op - OP_FCMP_BASE;
            Z3_ast p = fpOf(zx(n.a), n.x), q = fpOf(zx(n.b), n.x);
            Z3_ast u2[2] = {Z3_mk_fpa_is_nan(Z, p), Z3_mk_fpa_is_nan(Z, q)};
            std::vector<Z3_ast> d;
            if (pr & 8)
                d.push_back(Z3_mk_or(Z, 2, u2));
            if (pr & 1)
                d.push_back(Z3_mk_fpa_eq(Z, p, q));
            if (pr & 2)
                d.push_back(Z3_mk_fpa_gt(Z, p, q));
            if (pr & 4)
                d.push_back(Z3_mk_fpa_lt(Z, p, q));
            r = d.empty() ? Z3_mk_false(Z) : Z3_mk_or(Z, d.size(), d.data());
        }
        else
            r = Z3_mk_eq(Z, zx(id), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
    }
    (*zbmemo)[id] = r;
    return r;
}
static Z3_ast zx(u32 id)
{
    auto it = zmemo->find(id);
    if (it != zmemo->end())
        return it->second;
    Node & n = N[id];
    Z3_ast r = nullptr;
    if (boolish(n.op) || (n.w == 1 && (n.op == OP_AND || n.op == OP_OR || n.op == OP_XOR || n.op == OP_ITE)))
        r = b2v(zb(id));
    else
        switch (n.op)
        {
        case OP_CONST: r = Z3_mk_unsigned_int64(Z, n.val, Z3_mk_bv_sort(Z, n.w)); break;
        case OP_VAR:
        {
            char buf[16];
            snprintf(buf, 16, "v%u", n.a);
            r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, buf), Z3_mk_bv_sort(Z, 8));
            break;
        }
        case OP_ADD: r = Z3_mk_bvadd(Z, zx(n.a), zx(n.b)); break;
        case OP_SUB: r = Z3_mk_bvsub(Z, zx(n.a), zx(n.b)); break;
        case OP_MUL: r = Z3_mk_bvmul(Z, zx(n.a), zx(n.b)); break;
        case OP_UDIV: r = Z3_mk_bvudiv(Z, zx(n.a), zx(n.b)); break;
        case OP_SDIV: r = Z3_mk_bvsdiv(Z, zx(n.a), zx(n.b)); break;
        case OP_UREM: r = Z3_mk_bvurem(Z, zx(n.a), zx(n.b)); break;
        case OP_SREM: r = Z3_mk_bvsrem(Z, zx(n.a), zx(n.b)); break;
        case OP_SHL: r = Z3_mk_bvshl(Z, zx(n.a), zx(n.b)); break;
        case OP_LSHR: r = Z3_mk_bvlshr(Z, zx(n.a), zx(n.b)); break;
        case OP_ASHR: r = Z3_mk_bvashr(Z, zx(n.a), zx(n.b)); break;
        case OP_AND: r = Z3_mk_bvand(Z, zx(n.a), zx(n.b)); break;
        case OP_OR: r = Z3_mk_bvor(Z, zx(n.a), zx(n.b)); break;
        case OP_XOR: r = Z3_mk_bvxor(Z, zx(n.a), zx(n.b)); break;
        case OP_ZEXT: r = Z3_mk_zero_ext(Z, n.w - N[n.a].w, zx(n.a)); break;
        case OP_SEXT: r = Z3_mk_sign_ext(Z, n.w - N[n.a].w, zx(n.a)); break;
        case OP_ITE: r = Z3_mk_ite(Z, zb(n.a), zx(n.b), zx(n.c)); break;
        case OP_EXTR: r = Z3_mk_extract(Z, n.x + n.w - 1, n.x, zx(n.a)); break;
        case OP_CONCAT: r = Z3_mk_concat(Z, zx(n.a), zx(n.b)); break;
        case OP_FADD: r = fpBits(Z3_mk_fpa_add(Z, Z3_mk_fpa_rne(Z), fpOf(zx(n.a), n.w), fpOf(zx(n.b), n.w))); break;
        case OP_FSUB: r = fpBits(Z3_mk_fpa_sub(Z, Z3_mk_fpa_rne(Z), fpOf(zx(n.a), n.w), fpOf(zx(n.b), n.w))); break;
        case OP_FMUL: r = fpBits(Z3_mk_fpa_mul(Z, Z3_mk_fpa_rne(Z), fpOf(zx(n.a), n.w), fpOf(zx(n.b), n.w))); break;
        case OP_FDIV: r = fpBits(Z3_mk_fpa_div(Z, Z3_mk_fpa_rne(Z), fpOf(zx(n.a), n.w), fpOf(zx(n.b), n.w))); break;
        case OP_FNEG: r = Z3_mk_bvxor(Z, zx(n.a), Z3_mk_unsigned_int64(Z, 1ull << (n.w - 1), Z3_mk_bv_sort(Z, n.w))); break;
        case OP_SITOFP:
            r = fpBits(Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), zx(n.a), n.w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z)));
            break;
        case OP_UITOFP:
            r = fpBits(Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), zx(n.a), n.w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z)));
            break;
        case OP_FPCONV:
            r = fpBits(Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), fpOf(zx(n.a), n.x), n.w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z)));
            break;
        case OP_FPTOSI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), fpOf(zx(n.a), n.x), n.w); break;
        case OP_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), fpOf(zx(n.a), n.x), n.w); break;
        default: fprintf(stderr, "zx: op %u\n", n.op); die(__LINE__);
        }
    (*zmemo)[id] = r;
    return r;
}

// ------------------------------------------------------------------ path state
static std::vector<u32> pc;                  // path constraints (node ids, each asserted true)
static u8 * asserted;                        // per node: 1 true, 2 false
static std::vector<u8> prefix;               // events to follow
static size_t ppos = 0;
static std::vector<u8> events;               // events of this path so far (includes prefix)
static u64 ndec = 0;
static void (*exit_handler)(int) = nullptr;
static std::vector<u8> tape_kind;            // for completeness
static u16 tapeN = 0;
static u8 tape_is_var[MAXTAPE];
static u8 tape_val[MAXTAPE];                 // var index or choice
static u64 obs = 1469598103934665603ull;
static u32 outcome_findings = 0;

static void writeTape(u8 * t, u16 & n, u8 const * m)
{
    n = tapeN;
    for (unsigned i = 0; i < tapeN; ++i)
        t[i] = tape_is_var[i] ? m[tape_val[i]] : tape_val[i];
}
static void tapePush(bool isvar, u8 v)
{
    if (tapeN >= MAXTAPE)
    {
        fprintf(stderr, "tape overflow\n");
        die(__LINE__);
    }
    tape_is_var[tapeN] = isvar;
    tape_val[tapeN] = v;
    if (widx >= 0)
    {
        S->slot[widx].tape[tapeN] = isvar ? vals[v] : v;
        S->slot[widx].nt = tapeN + 1;
    }
    ++tapeN;
}

static void addLabel(Label * L, std::atomic<u32> & cnt, unsigned cap, char const * name)
{
    u32 n = cnt.load();
    for (u32 i = 0; i < n && i < cap; ++i)
        if (!strncmp(L[i].name, name, sizeof(L[i].name) - 1))
        {
            L[i].n++;
            return;
        }
    lk(S->vlock);
    n = cnt.load();
    for (u32 i = 0; i < n && i < cap; ++i)
        if (!strncmp(L[i].name, name, sizeof(L[i].name) - 1))
        {
            L[i].n++;
            ul(S->vlock);
            return;
        }
    if (n < cap)
    {
        snprintf(L[n].name, sizeof(L[n].name), "%s", name);
        L[n].n = 1;
        writeTape(L[n].tape, L[n].ntape, vals);
        cnt = n + 1;
    }
    ul(S->vlock);
}

static void addViol(char const * kind, char const * msg, u8 const * m)
{
    lk(S->vlock);
    u32 n = S->nviol;
    bool dup = false;
    unsigned same = 0;
    for (u32 i = 0; i < n; ++i)
        if (!strcmp(S->viol[i].msg, msg) && ++same >= 3)
            dup = true;
    if (!dup && n < 64)
    {
        Viol & v = S->viol[n];
        snprintf(v.kind, sizeof v.kind, "%s", kind);
        snprintf(v.msg, sizeof v.msg, "%s", msg);
        writeTape(v.tape, v.ntape, m);
        S->nviol = n + 1;
    }
    ul(S->vlock);
}

static void pushWork(std::vector<u8> const & ev, u8 const * m)
{
    // record: [events][vals nvars][u32 nev][u16 nv] -> popped from the end
    u64 need = ev.size() + nvars + 8;
    lk(S->lock);
    u64 t = S->qtop;
    if (t + need > QMAX)
    {
        S->dropped++;
        ul(S->lock);
        return;
    }
    memcpy(Q + t, ev.data(), ev.size());
    t += ev.size();
    memcpy(Q + t, m, nvars);
    t += nvars;
    u32 ne = ev.size();
    memcpy(Q + t, &ne, 4);
    u32 nv = nvars;
    memcpy(Q + t + 4, &nv, 4);
    t += 8;
    S->qtop = t;
    u64 it = ++S->qitems;
    if (it > S->maxq)
        S->maxq = it;
    S->pushed++;
    ul(S->lock);
}
static bool popWork(std::vector<u8> & ev, u8 * m)
{
    lk(S->lock);
    if (S->qitems == 0)
    {
        ul(S->lock);
        return false;
    }
    u64 t = S->qtop;
    u32 ne, nv;
    memcpy(&ne, Q + t - 8, 4);
    memcpy(&nv, Q + t - 4, 4);
    t -= 8;
    t -= nv;
    memcpy(m, Q + t, nv);
    t -= ne;
    ev.assign(Q + t, Q + t + ne);
    S->qtop = t;
    --S->qitems;
    S->active++;
    ul(S->lock);
    return true;
}

enum Res { UNSAT, SAT, UNKNOWN };

// is (slice of pc) and (conjunction of extra) satisfiable? model in out.
static Res solve1(std::vector<u32> const & extra, u8 * out)
{
    Sup s{};
    for (u32 e : extra)
    {
        if (isK(e, 0))
            return UNSAT;
        s = s | N[e].s;
    }
    std::vector<u32> sl;
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i)
            if (!in[i] && (N[pc[i]].s & s))
            {
                in[i] = 1;
                Sup t = s | N[pc[i]].s;
                if (!(t == s))
                    ch = true;
                s = t;
            }
    }
    for (size_t i = 0; i < pc.size(); ++i)
        if (in[i])
            sl.push_back(pc[i]);
    for (u32 e : extra)
        if (!isK(e, 1))
            sl.push_back(e);
    // order independent key
    u64 h1 = 0x51ed, h2 = 0xc0de;
    std::vector<u32> d(sl);
    std::sort(d.begin(), d.end());
    d.erase(std::unique(d.begin(), d.end()), d.end());
    for (u32 e : d)
    {
        h1 += mix(N[e].h1);
        h2 += mix(N[e].h2 ^ 0x5bd1e995);
    }
    h1 = mix(h1);
    if (!h1)
        h1 = 1;
    h2 = mix(h2);
    memcpy(out, vals, MAXV);
    unsigned slot = h1 & (CACHE - 1);
    for (unsigned k = 0; k < 16; ++k)
    {
        CEnt & c = S->cache[(slot + k) & (CACHE - 1)];
        u8 st = c.st;
        if (st == 0)
            break;
        if (st >= 2 && c.h1 == h1 && c.h2 == h2)
        {
            S->q_cached++;
            if (st == 2)
                return UNSAT;
            for (unsigned i = 0; i < c.n; ++i)
                out[c.kv[2 * i]] = c.kv[2 * i + 1];
            // a cached model is re-checked on this path's own constraints
            ++evst;
            bool ok = true;
            for (u32 e : d)
                ok &= evalN(e, out) == 1;
            if (ok)
                return SAT;
            S->q_cached--;
            break;
        }
    }
    u64 t0 = now_us();
    if (!zmemo)
    {
        zmemo = new std::unordered_map<u32, Z3_ast>;
        zbmemo = new std::unordered_map<u32, Z3_ast>;
    }
    Z3_solver_push(Z, ZS);
    for (u32 e : d)
        Z3_solver_assert(Z, ZS, zb(e));
    Z3_lbool r = Z3_solver_check(Z, ZS);
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (vp_debug && now_us() - t0 > 3000000)
    {
        std::vector<Z3_ast> fs;
        for (u32 e : d)
            fs.push_back(zb(e));
        fprintf(stderr, "SLOW %.1f s\n%s\n;;;;\n", (now_us() - t0) / 1e6,
                Z3_benchmark_to_smtlib_string(Z, "q", "ALL", "unknown", "", fs.size() - 1, fs.data(), fs.back()));
    }
    if (dump_fd >= 0 && dump_mod && h1 % dump_mod == 0)
    {
        std::vector<Z3_ast> fs;
        for (u32 e : d)
            fs.push_back(zb(e));
        std::string q = std::string("; expect ") + (res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown") + "\n";
        if (!fs.empty())
            q += Z3_benchmark_to_smtlib_string(Z, "q", "ALL", "unknown", "", fs.size() - 1, fs.data(), fs.back());
        q += ";;;;\n";
        if (write(dump_fd, q.data(), q.size()) < 0)
        {}
    }
    if (res == SAT)
    {
        Z3_model m = Z3_solver_get_model(Z, ZS);
        Z3_model_inc_ref(Z, m);
        for (unsigned v = 0; v < nvars; ++v)
        {
            bool ins = v < 64 ? (s.a >> v) & 1 : (s.b >> (v - 64)) & 1;
            if (!ins)
                continue;
            Z3_ast val;
            if (Z3_model_eval(Z, m, zx(varnode[v]), true, &val))
            {
                uint64_t x = 0;
                Z3_get_numeral_uint64(Z, val, &x);
                out[v] = (u8)x;
            }
        }
        Z3_model_dec_ref(Z, m);
        ++evst;
        S->evalchk++;
        for (u32 e : d)
            if (evalN(e, out) != 1)
            {
                fprintf(stderr, "ENGINE: Z3 model does not satisfy constraint %u (op %u)\n", e, N[e].op);
                fprintf(stderr, "%s\n", Z3_ast_to_string(Z, zb(e)));
                die(__LINE__);
            }
    }
    Z3_solver_pop(Z, ZS, 1);
    S->solver_us += now_us() - t0;
    if (res == SAT)
        S->q_sat++;
    else if (res == UNSAT)
        S->q_unsat++;
    else
        S->q_unknown++;
    if (res != UNKNOWN)
    {
        unsigned cnt = res == SAT ? s.count() : 0;
        if (cnt <= 23)
            for (unsigned k = 0; k < 16; ++k)
            {
                CEnt & c = S->cache[(slot + k) & (CACHE - 1)];
                u8 z = 0;
                if (c.st.load() != 0)
                    continue;
                if (!c.st.compare_exchange_strong(z, 1))
                    continue;
                c.h1 = h1;
                c.h2 = h2;
                c.n = 0;
                if (res == SAT)
                    for (unsigned v = 0; v < nvars; ++v)
                        if (v < 64 ? (s.a >> v) & 1 : (s.b >> (v - 64)) & 1)
                        {
                            c.kv[2 * c.n] = v;
                            c.kv[2 * c.n + 1] = out[v];
                            ++c.n;
                        }
                c.st = res == SAT ? 3 : 2;
                break;
            }
    }
    return res;
}

static void addC(u32 id)
{
    if (isK(id))
        return;
    if (asserted[id] == 1)
        return;
    // split conjunctions
    if (N[id].op == OP_AND && N[id].w == 1)
    {
        addC(N[id].a);
        addC(N[id].b);
        asserted[id] = 1;
        return;
    }
    asserted[id] = 1;
    if (N[id].op == OP_XOR && isK(N[id].b, 1))
    {
        u32 in = N[id].a;
        asserted[in] = 2;
        if (N[in].op == OP_OR && N[in].w == 1)
        { // not (a or b)
            addC(mkNot(N[in].a));
            addC(mkNot(N[in].b));
            return;
        }
    }
    else
    {
        u32 ng = mkNot(id);
        if (!isK(ng))
            asserted[ng] = 2;
    }
    pc.push_back(id);
}

static Res solve(std::vector<u32> const & extra, u8 * out)
{
    struct regs
    {
        u32 args[128], ret[16];
        void *at, *rt;
    } k;
    memcpy(k.args, __sym_args, sizeof k.args);
    memcpy(k.ret, __sym_ret, sizeof k.ret);
    k.at = __sym_args_tag;
    k.rt = __sym_ret_tag;
    __sym_args_tag = __sym_ret_tag = nullptr;
    memset(__sym_args, 0, sizeof k.args);
    ++in_solver;
    Res r = solve1(extra, out);
    --in_solver;
    memcpy(__sym_args, k.args, sizeof k.args);
    memcpy(__sym_ret, k.ret, sizeof k.ret);
    __sym_args_tag = k.at;
    __sym_ret_tag = k.rt;
    return r;
}
static bool path_over;
[[noreturn]] static void endPath(int status)
{
    path_over = true; // what follows is the engine's own work
    // status: 0 ok, 1 pruned, 2 diverged
    if (status == 0)
    {
        S->paths++;
        if (rec_fd >= 0)
        {
            u8 buf[MAXTAPE + 16];
            u16 n;
            writeTape(buf + 10, n, vals);
            memcpy(buf, &n, 2);
            memcpy(buf + 2, &obs, 8);
            if (write(rec_fd, buf, 10 + n) < 0)
            {}
        }
    }
    else if (status == 1)
        S->pruned++;
    else
        S->diverged++;
    S->branches += ndec;
    S->nodes += nn;
    u64 d = S->depthmax;
    while (ndec > d && !S->depthmax.compare_exchange_weak(d, ndec))
    {}
    _exit(0);
}
static void diverge(char const * why)
{
    static char buf[200];
    snprintf(buf, sizeof buf, "divergence: %s at event %zu", why, ppos);
    if (vp_debug)
        fprintf(stderr, "%s\n", buf);
    endPath(2);
}

// decide a symbolic boolean; returns nothing, execution continues with `taken`
static void branch(u32 id, bool taken)
{
    if (!id || isK(id))
        return;
    while (N[id].op == OP_XOR && isK(N[id].b, 1))
    {
        id = N[id].a;
        taken = !taken;
        if (isK(id))
            return;
    }
    if ((N[id].val != 0) != taken)
    {
        if (vp_debug)
            fprintf(stderr, "node value disagrees with execution: op %u w %u\n", N[id].op, N[id].w);
        diverge("value mismatch");
    }
    if (asserted[id])
        return;
    ++ndec;
    u32 tid = taken ? id : mkNot(id);
    if (ppos < prefix.size())
    {
        u8 e = prefix[ppos];
        if (e > 3 || (e & 1) != (taken ? 1 : 0))
            diverge("branch");
        ++ppos;
        events.push_back(e);
        if (!(e & 2))
            addC(tid);
        else
        {
            asserted[id] = taken ? 1 : 2;
        }
        return;
    }
    u32 oid = taken ? mkNot(id) : id;
    u8 m[MAXV];
    Res r = solve({oid}, m);
    if (r == SAT)
    {
        events.push_back(!taken);
        pushWork(events, m);
        events.back() = taken;
        addC(tid);
    }
    else if (r == UNSAT)
    {
        S->forced++;
        events.push_back(2 | (taken ? 1 : 0));
        asserted[id] = taken ? 1 : 2;
    }
    else
    {
        events.push_back(taken);
        addC(tid);
    }
}
static u64 rd64(std::vector<u8> const & v, size_t p)
{
    u64 x;
    memcpy(&x, &v[p], 8);
    return x;
}
static void wr64(std::vector<u8> & v, u64 x)
{
    size_t n = v.size();
    v.resize(n + 8);
    memcpy(&v[n], &x, 8);
}
static void concretize(u32 id, u64 val)
{
    if (!id || isK(id))
        return;
    unsigned w = N[id].w;
    if (w == 1)
        return branch(id, val & 1);
    val &= mask(w);
    if (N[id].val != val)
        diverge("concretize value mismatch");
    S->conc++;
    if (vp_debug)
        fprintf(stderr, "conc w %u op %u at %p\n", w, N[id].op, __builtin_return_address(0));
    ++ndec;
    std::vector<u64> excl;
    if (ppos < prefix.size())
    {
        u8 e = prefix[ppos];
        if (e == 'V')
        {
            if (rd64(prefix, ppos + 1) != val)
            {
                if (vp_debug)
                {
                    fprintf(stderr, "conc diverge: want %llx have %llx op %u a.op %u b.op %u\n", (unsigned long long)rd64(prefix, ppos + 1), (unsigned long long)val,
                            N[id].op, N[N[id].a].op, N[N[id].b].op);
                    std::string t;
                    char b[40];
                    for (size_t i = 0; i < prefix.size(); ++i)
                        snprintf(b, sizeof b, "%02x", prefix[i]), t += b;
                    fprintf(stderr, "   prefix %s ppos %zu\n   vals ", t.c_str(), ppos);
                    for (unsigned i = 0; i < nvars; ++i)
                        fprintf(stderr, "%02x", vals[i]);
                    fprintf(stderr, "\n");
                }
                diverge("concretize");
            }
            events.insert(events.end(), prefix.begin() + ppos, prefix.begin() + ppos + 9);
            ppos += 9;
            addC(mk(OP_EQ, 1, w, id, K(w, val)));
            return;
        }
        if (e != 'X')
            diverge("expected concretize");
        u8 n = prefix[ppos + 1];
        for (unsigned i = 0; i < n; ++i)
            excl.push_back(rd64(prefix, ppos + 2 + 8 * i));
        ppos += 2 + 8 * n;
        for (u64 x : excl)
            if (x == val)
                diverge("concretize excluded");
    }
    std::vector<u32> ex;
    for (u64 x : excl)
        ex.push_back(mkNot(mk(OP_EQ, 1, w, id, K(w, x))));
    ex.push_back(mkNot(mk(OP_EQ, 1, w, id, K(w, val))));
    u8 m[MAXV];
    Res r = solve(ex, m);
    if (r == SAT && excl.size() < 250)
    {
        std::vector<u8> ev = events;
        ev.push_back('X');
        ev.push_back(excl.size() + 1);
        for (u64 x : excl)
            wr64(ev, x);
        wr64(ev, val);
        pushWork(ev, m);
    }
    else if (r == SAT)
        S->dropped++;
    events.push_back('V');
    wr64(events, val);
    addC(mk(OP_EQ, 1, w, id, K(w, val)));
}

// ------------------------------------------------------------------ shadow memory
static u32 ** dir; // addr >> 24
static inline u8 & pageflag(u64 a)
{
    return *(u8 *)(PAGEMAP_BASE + (a >> 12));
}
static inline u32 * shp(u64 a, bool create)
{
    u32 *& d = dir[a >> 24];
    if (!d)
    {
        if (!create)
            return nullptr;
        d = (u32 *)mmap(nullptr, 4ull << 24, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    return d + (a & 0xffffff);
}
static u32 shGet(u64 a)
{ // byte node or 0 (checks staleness)
    if (in_solver || !pageflag(a)) // the solver works on concrete data, also where it uses our templates
        return 0;
    u32 * p = shp(a, false);
    if (!p || !*p)
        return 0;
    if ((u8)N[*p].val != *(u8 *)a)
    {
        S->stale++;
        if (vp_debug)
        {
            void * bt[12];
            int n = backtrace(bt, 12);
            fprintf(stderr, "stale at %llx:", (unsigned long long)a);
            for (int i = 0; i < n; ++i)
                fprintf(stderr, " %p", bt[i]);
            fprintf(stderr, "\n");
        }
        *p = 0;
        return 0;
    }
    return *p;
}
static void shSet(u64 a, u32 id)
{
    if (!id)
    {
        if (!pageflag(a))
            return;
        u32 * p = shp(a, false);
        if (p)
            *p = 0;
        return;
    }
    *shp(a, true) = id;
    pageflag(a) = 1;
    if ((a & 4095) < 16)
        pageflag(a - 4096) = 1;
}
static void shClear(u64 a, u64 n)
{
    u64 e = a + n;
    while (a < e)
    {
        u64 pe = std::min(e, (a | 4095) + 1);
        if (pageflag(a))
            if (u32 * p = shp(a, false))
                memset(p, 0, (pe - a) * 4);
        a = pe;
    }
}
static bool anyFlag(u64 a, u64 n)
{
    for (u64 p = a >> 12; p <= (a + n - 1) >> 12; ++p)
        if (*(u8 *)(PAGEMAP_BASE + p))
            return true;
    return false;
}
static u32 loadBytes(u64 a, unsigned size)
{
    u32 b[8];
    bool any = false;
    for (unsigned i = 0; i < size; ++i)
    {
        b[i] = shGet(a + i);
        any |= b[i] != 0;
    }
    if (!any)
        return 0;
    u32 acc = 0;
    unsigned w = 0;
    for (unsigned i = 0; i < size; ++i)
    {
        u32 x = b[i] ? b[i] : K(8, *(u8 *)(a + i));
        acc = i == 0 ? x : mk(OP_CONCAT, w + 8, w, x, acc);
        w += 8;
    }
    return ext(acc);
}

extern "C"
{
u32 __sym_load(void * p, u32 size)
{
    return loadBytes((u64)p, size);
}
void __sym_store(void * p, u32 size, u32 id, u64)
{
    u64 a = (u64)p;
    if (!id || isK(id))
    {
        for (unsigned i = 0; i < size; ++i)
            shSet(a + i, 0);
        return;
    }
    for (unsigned i = 0; i < size; ++i)
        shSet(a + i, ext(mkExtr(id, 8 * i, 8)));
}
void __sym_memcpy(void * d, void * s, u64 n)
{
    if (!n || d == s)
        return;
    u64 a = (u64)d, b = (u64)s;
    bool fs = anyFlag(b, n), fd = anyFlag(a, n);
    if (!fs)
    {
        if (fd)
            shClear(a, n);
        return;
    }
    if (a < b)
        for (u64 i = 0; i < n; ++i)
            shSet(a + i, shGet(b + i));
    else
        for (u64 i = n; i-- > 0;)
            shSet(a + i, shGet(b + i));
}
void __sym_memset(void * d, u32 id, u64 n)
{
    if (!n)
        return;
    u64 a = (u64)d;
    if (id && !isK(id))
        for (u64 i = 0; i < n; ++i)
            shSet(a + i, id);
    else if (anyFlag(a, n))
        shClear(a, n);
}
u32 __sym_bin(u32 opw, u32 ia, u64 a, u32 ib, u64 b)
{
    if (!ia && !ib)
        return 0;
    unsigned op = opw & 255, w = opw >> 8;
    u32 x = ia ? ia : K(w, a), y = ib ? ib : K(w, b);
    if (iscmp(op) || (op >= OP_FCMP_BASE))
        return ext(mk(op, 1, w, x, y));
    switch (op)
    {
    case OP_UMIN: return ext(mk(OP_ITE, w, 0, mk(OP_ULT, 1, w, x, y), x, y));
    case OP_UMAX: return ext(mk(OP_ITE, w, 0, mk(OP_ULT, 1, w, x, y), y, x));
    case OP_SMIN: return ext(mk(OP_ITE, w, 0, mk(OP_SLT, 1, w, x, y), x, y));
    case OP_SMAX: return ext(mk(OP_ITE, w, 0, mk(OP_SLT, 1, w, x, y), y, x));
    case OP_USUBSAT: return ext(mk(OP_ITE, w, 0, mk(OP_ULT, 1, w, x, y), K(w, 0), mk(OP_SUB, w, 0, x, y)));
    case OP_UADDSAT:
    {
        u32 s = mk(OP_ADD, w, 0, x, y);
        return ext(mk(OP_ITE, w, 0, mk(OP_ULT, 1, w, s, x), K(w, ~0ull), s));
    }
    }
    return ext(mk(op, w, 0, x, y));
}
u32 __sym_ovf(u32 opw, u32 ia, u64 a, u32 ib, u64 b)
{
    unsigned op = opw & 255, w = opw >> 8;
    u32 x = ia ? ia : K(w, a), y = ib ? ib : K(w, b);
    auto neg = [&](u32 e)
    {
        return mk(OP_SLT, 1, w, e, K(w, 0));
    };
    switch (op)
    {
    case OP_UADDO: return ext(mk(OP_ULT, 1, w, mk(OP_ADD, w, 0, x, y), x));
    case OP_USUBO: return ext(mk(OP_ULT, 1, w, x, y));
    case OP_SADDO:
    {
        u32 s = mk(OP_ADD, w, 0, x, y);
        u32 same = mk(OP_EQ, 1, 1, neg(x), neg(y));
        return ext(mk(OP_AND, 1, 0, same, mkNot(mk(OP_EQ, 1, 1, neg(s), neg(x)))));
    }
    case OP_SSUBO:
    {
        u32 s = mk(OP_SUB, w, 0, x, y);
        u32 diff = mkNot(mk(OP_EQ, 1, 1, neg(x), neg(y)));
        return ext(mk(OP_AND, 1, 0, diff, mkNot(mk(OP_EQ, 1, 1, neg(s), neg(x)))));
    }
    case OP_UMULO:
    case OP_SMULO:
    {
        // multiplication by a constant: exact interval test
        if (isK(x))
            std::swap(x, y);
        if (isK(y))
        {
            if (op == OP_UMULO)
            {
                if (!N[y].val)
                    return 0;
                return ext(mk(OP_ULT, 1, w, K(w, mask(w) / N[y].val), x));
            }
            int64_t k = sx(N[y].val, w);
            if (k > 0)
            {
                int64_t mx = sx(mask(w) >> 1, w), mn = -mx - 1;
                return ext(mk(OP_OR,
                              1,
                              0,
                              mk(OP_SLT, 1, w, K(w, (u64)(mx / k)), x),
                              mk(OP_SLT, 1, w, x, K(w, (u64)(mn / k)))));
            }
        }
        return ext(mk(op, 1, w, x, y));
    }
    }
    return 0;
}
u32 __sym_fsh(u32 opw, u32 ia, u64 a, u32 ib, u64 b, u32 ic, u64 c)
{
    unsigned op = opw & 255, w = opw >> 8;
    if (ic)
        concretize(ic, c);
    c %= w;
    u32 x = ia ? ia : K(w, a), y = ib ? ib : K(w, b);
    if (op == OP_FSHL)
    {
        if (!c)
            return ext(x);
        return ext(mk(OP_OR, w, 0, mk(OP_SHL, w, 0, x, K(w, c)), mk(OP_LSHR, w, 0, y, K(w, w - c))));
    }
    if (!c)
        return ext(y);
    return ext(mk(OP_OR, w, 0, mk(OP_SHL, w, 0, x, K(w, w - c)), mk(OP_LSHR, w, 0, y, K(w, c))));
}
u32 __sym_cast(u32 op, u32 id, u32 fw, u32 tw)
{
    if (!id)
        return 0;
    return ext(mk(op, tw, fw, id));
}
u32 __sym_un(u32 op, u32 id, u32 w)
{
    if (!id)
        return 0;
    switch (op)
    {
    case OP_ABS: return ext(mk(OP_ITE, w, 0, mk(OP_SLT, 1, w, id, K(w, 0)), mk(OP_SUB, w, 0, K(w, 0), id), id));
    case OP_BSWAP:
    {
        u32 acc = mkExtr(id, w - 8, 8);
        for (unsigned i = 1; i < w / 8; ++i)
            acc = mk(OP_CONCAT, 8 * (i + 1), 8 * i, mkExtr(id, w - 8 * (i + 1), 8), acc);
        return ext(acc);
    }
    case OP_CTPOP:
    {
        u32 acc = K(w, 0);
        for (unsigned i = 0; i < w; ++i)
            acc = mk(OP_ADD, w, 0, acc, mk(OP_ZEXT, w, 1, mkExtr(id, i, 1)));
        return ext(acc);
    }
    case OP_CTLZ:
    {
        u32 acc = K(w, w);
        for (unsigned i = 0; i < w; ++i)
            acc = mk(OP_ITE, w, 0, mkExtr(id, i, 1), K(w, w - 1 - i), acc);
        return ext(acc);
    }
    case OP_CTTZ:
    {
        u32 acc = K(w, w);
        for (unsigned i = w; i-- > 0;)
            acc = mk(OP_ITE, w, 0, mkExtr(id, i, 1), K(w, i), acc);
        return ext(acc);
    }
    case OP_FNEG: return ext(mk(OP_FNEG, w, 0, id));
    }
    return 0;
}
u32 __sym_select(u32 ic, u32 c, u32 ia, u64 a, u32 ib, u64 b, u32 w)
{
    if (!ic || isK(ic))
        return c & 1 ? ia : ib;
    return ext(mk(OP_ITE, w, 0, ic, ia ? ia : K(w, a), ib ? ib : K(w, b)));
}
u32 __sym_select_br(u32 ic, u32 c, u32 ia, u32 ib)
{
    branch(ic, c & 1);
    return c & 1 ? ia : ib;
}
void __sym_branch(u32 id, u32 taken, u32)
{
    branch(id, taken & 1);
}
void __sym_concretize(u32 id, u64 v)
{
    concretize(id, v);
}
u32 __sym_load_sym(void * p, u32 size, u32 pid)
{
    if (!pid || isK(pid))
        return loadBytes((u64)p, size);
    Sup s = N[pid].s;
    if (s.count() == 1 && N[pid].val == (u64)p)
    {
        unsigned v = s.a ? __builtin_ctzll(s.a) : 64 + __builtin_ctzll(s.b);
        std::vector<u32> cs;
        for (u32 e : pc)
            if (N[e].s == s)
                cs.push_back(e);
        u8 m[MAXV];
        memcpy(m, vals, MAXV);
        std::vector<std::pair<unsigned, u64>> cand;
        u64 lo = ~0ull, hi = 0;
        for (unsigned x = 0; x < 256; ++x)
        {
            m[v] = x;
            ++evst;
            bool ok = true;
            for (u32 e : cs)
                if (evalN(e, m) != 1)
                {
                    ok = false;
                    break;
                }
            if (!ok)
                continue;
            u64 a = evalN(pid, m);
            cand.push_back({x, a});
            lo = std::min(lo, a);
            hi = std::max(hi, a);
        }
        if (hi - lo <= 4096)
        {
            S->symload++;
            // value for each candidate: group runs with the same content
            u32 acc = 0;
            u32 var = varnode[v];
            u32 prev = 0;
            for (size_t i = 0; i < cand.size();)
            {
                auto content = [&](u64 a)
                {
                    u32 l = loadBytes(a, size);
                    if (l)
                        return l;
                    u64 x = 0;
                    memcpy(&x, (void *)a, size);
                    return K(size * 8, x);
                };
                u32 c = content(cand[i].second);
                size_t j = i + 1;
                while (j < cand.size() && content(cand[j].second) == c)
                    ++j;
                if (!acc)
                    acc = c;
                else
                    acc = mk(OP_ITE, size * 8, 0, mk(OP_ULT, 1, 8, var, K(8, cand[i].first)), acc, c);
                (void)prev;
                i = j;
            }
            // acc was built with increasing thresholds: ITE(v < t_k, previous, c_k)
            return ext(acc);
        }
    }
    concretize(pid, (u64)p);
    return loadBytes((u64)p, size);
}
void __sym_fn(u32 i)
{
    if (S && i < MAXFN && !S->fnhit[i].load(std::memory_order_relaxed))
        S->fnhit[i].store(1, std::memory_order_relaxed);
}

static char const * const leak_ok[] = {
#include "leak_ok.inc"
    nullptr};
static bool leakAllowed(char const * n)
{
    for (auto p = leak_ok; *p; ++p)
        if (!strcmp(*p, n))
            return true;
    return false;
}
static bool symBytes(u64 p, unsigned n)
{
    if (p < 4096 || p >= 0x7fffffffffffull)
        return false;
    for (unsigned i = 0; i < n; ++i)
        if (pageflag(p + i))
        {
            u32 * q = shp(p + i, false);
            if (q && *q && (u8)N[*q].val == *(u8 *)(p + i))
                return true;
        }
    return false;
}
void __sym_ext(char const * name, u32 k)
{
    if (nvars == 0 || path_over)
        return;
    for (u32 i = 0; i < k; ++i)
    {
        u64 p = __sym_ext_vals[i];
        if (p < 4096 || p >= 0x7fffffffffffull)
            continue;
        bool leak = symBytes(p, 1);
        if (!leak && ((p & 7) == 0))
        {
            // an object holding a pointer to symbolic data (std::string)
            if (anyFlag(p, 32) && symBytes(p, 32))
                leak = true;
        }
        if (leak)
        {
            if (leakAllowed(name))
                return;
            S->leaks++;
            addLabel(S->leak, S->nleak, 128, name);
            if (vp_leakabort)
            {
                void * b[24];
                backtrace_symbols_fd(b, backtrace(b, 24), 2);
                abort();
            }
            return;
        }
    }
}
void __sym_indirect_ext(void * callee, u32 n)
{
    if (__sym_args_tag == callee)
    {
        __sym_args_tag = nullptr;
        for (u32 i = 0; i < n && i < 128; ++i)
            if (__sym_args[i])
            {
                char buf[64];
                snprintf(buf, sizeof buf, "indirect call to uninstrumented code");
                S->leaks++;
                addLabel(S->leak, S->nleak, 128, buf);
                return;
            }
    }
}
void __sym_unsup(char const * d, u32)
{
    S->unsup++;
    addLabel(S->leak, S->nleak, 128, d);
}

// ------------------------------------------------------------------ heap of the code under test
} // extern "C"
namespace
{
constexpr u64 ARENA = 0x300000000000ull, ARENA_SIZE = 1ull << 32;
u64 arena_top = 0;
u64 arena_free[129];
bool in_arena(void * p)
{
    return (u64)p >= ARENA && (u64)p < ARENA + ARENA_SIZE;
}
void * arena_alloc(u64 n)
{
    u64 c = (n + 15) / 16;
    if (!c)
        c = 1;
    if (!arena_top)
    {
        mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        arena_top = ARENA + 64;
    }
    u64 p;
    if (c <= 128 && arena_free[c])
    {
        p = arena_free[c];
        arena_free[c] = *(u64 *)p;
    }
    else
    {
        p = arena_top + 16;
        arena_top = p + 16 * c;
        if (arena_top > ARENA + ARENA_SIZE)
            throw std::bad_alloc{};
        *(u64 *)(p - 8) = c;
    }
    shClear(p, 16 * c);
    return (void *)p;
}
void arena_release(void * q)
{
    u64 p = (u64)q, c = *(u64 *)(p - 8);
    if (c > 128)
        return;
    shClear(p, 16 * c);
    *(u64 *)p = arena_free[c];
    arena_free[c] = p;
}
} // namespace
extern "C"
{
void * __arena_Znwm(u64 n)
{
    if (n > (1ull << 30))
        throw std::bad_alloc{};
    return in_solver ? malloc(n ? n : 1) : arena_alloc(n);
}
void * __arena_Znam(u64 n)
{
    return __arena_Znwm(n);
}
void * __arena_ZnwmRKSt9nothrow_t(u64 n, std::nothrow_t const &)
{
    return n > (1ull << 30) ? nullptr : in_solver ? malloc(n ? n : 1) : arena_alloc(n);
}
} // extern "C"
void operator delete(void * p) noexcept
{
    if (in_arena(p))
        arena_release(p);
    else
        free(p);
}
void operator delete(void * p, size_t) noexcept
{
    operator delete(p);
}
void operator delete[](void * p) noexcept
{
    operator delete(p);
}
void operator delete[](void * p, size_t) noexcept
{
    operator delete(p);
}
extern "C"
{
// ------------------------------------------------------------------ modelled libc functions
static void concArg(unsigned i, u64 v)
{
    if (__sym_args[i])
        concretize(__sym_args[i], v);
}
static int cmpModel(u8 const * a, u8 const * b, size_t n, bool order)
{
    __sym_ret[0] = 0;
    if (n == 0)
        return 0;
    int r = memcmp(a, b, n);
    r = r < 0 ? -1 : r > 0 ? 1 : 0;
    if (!anyFlag((u64)a, n) && !anyFlag((u64)b, n))
        return r;
    // concrete differing byte first: shortcut for equality tests
    std::vector<std::pair<u32, u32>> x(n);
    bool any = false, constdiff = false;
    for (size_t i = 0; i < n; ++i)
    {
        u32 p = shGet((u64)a + i), q = shGet((u64)b + i);
        any |= p || q;
        if (!p && !q && a[i] != b[i])
            constdiff = true;
        x[i] = {p ? p : K(8, a[i]), q ? q : K(8, b[i])};
    }
    if (!any)
        return r;
    if (!order)
    {
        if (constdiff)
            return 1;
        u32 eq = K(1, 1);
        for (auto & [p, q] : x)
            eq = mk(OP_AND, 1, 0, eq, mk(OP_EQ, 1, 8, p, q));
        __sym_ret[0] = ext(mk(OP_ITE, 32, 0, eq, K(32, 0), K(32, 1)));
        return r != 0;
    }
    u32 acc = K(32, 0);
    for (size_t i = n; i-- > 0;)
    {
        auto [p, q] = x[i];
        acc = mk(OP_ITE,
                 32,
                 0,
                 mk(OP_EQ, 1, 8, p, q),
                 acc,
                 mk(OP_ITE, 32, 0, mk(OP_ULT, 1, 8, p, q), K(32, (u64)-1), K(32, 1)));
    }
    __sym_ret[0] = ext(acc);
    return r;
}
int __symw_memcmp(void const * a, void const * b, size_t n)
{
    concArg(0, (u64)a);
    concArg(1, (u64)b);
    concArg(2, n);
    return cmpModel((u8 const *)a, (u8 const *)b, n, true);
}
int __symw_bcmp(void const * a, void const * b, size_t n)
{
    concArg(0, (u64)a);
    concArg(1, (u64)b);
    concArg(2, n);
    return cmpModel((u8 const *)a, (u8 const *)b, n, false);
}
static bool byteIs(u8 const * p, u32 cid, u8 c)
{
    u32 e = shGet((u64)p);
    if (e || cid)
    {
        u32 q = mk(OP_EQ, 1, 8, e ? e : K(8, *p), cid ? mkExtr(cid, 0, 8) : K(8, c));
        branch(ext(q), *p == c);
    }
    return *p == c;
}
size_t __symw_strlen(char const * s)
{
    concArg(0, (u64)s);
    __sym_ret[0] = 0;
    size_t i = 0;
    while (!byteIs((u8 const *)s + i, 0, 0))
        ++i;
    __sym_ret[0] = 0;
    return i;
}
void * __symw_memchr(void const * s, int c, size_t n)
{
    concArg(0, (u64)s);
    concArg(2, n);
    u32 cid = __sym_args[1];
    void * r = nullptr;
    for (size_t i = 0; i < n; ++i)
        if (byteIs((u8 const *)s + i, cid, (u8)c))
        {
            r = (void *)((u8 const *)s + i);
            break;
        }
    __sym_ret[0] = 0;
    return r;
}
char * __symw_strchr(char const * s, int c)
{
    concArg(0, (u64)s);
    concArg(1, c);
    char * r = nullptr;
    for (;; ++s)
    {
        if (byteIs((u8 const *)s, 0, (u8)c))
        {
            r = (char *)s;
            break;
        }
        if (byteIs((u8 const *)s, 0, 0))
            break;
    }
    __sym_ret[0] = 0;
    return r;
}
static int strcmpModel(u8 const * a, u8 const * b, size_t n)
{
    int r = 0;
    for (size_t i = 0; i < n; ++i)
    {
        u32 p = shGet((u64)(a + i)), q = shGet((u64)(b + i));
        if (p || q)
        {
            u32 P = p ? p : K(8, a[i]), R = q ? q : K(8, b[i]);
            branch(ext(mk(OP_EQ, 1, 8, P, R)), a[i] == b[i]);
            if (a[i] != b[i])
                branch(ext(mk(OP_ULT, 1, 8, P, R)), a[i] < b[i]);
        }
        if (a[i] != b[i])
        {
            r = a[i] < b[i] ? -1 : 1;
            break;
        }
        if (p)
            branch(ext(mk(OP_EQ, 1, 8, p, K(8, 0))), a[i] == 0);
        if (!a[i])
            break;
    }
    __sym_ret[0] = 0;
    return r;
}
int __symw_strcmp(char const * a, char const * b)
{
    return strcmpModel((u8 const *)a, (u8 const *)b, ~0ull);
}
int __symw_strncmp(char const * a, char const * b, size_t n)
{
    concArg(2, n);
    return strcmpModel((u8 const *)a, (u8 const *)b, n);
}
static int caseModel(int c, char lo, int delta)
{
    u32 id = __sym_args[0];
    int r = (c >= lo && c <= lo + 25) ? c + delta : c;
    __sym_ret[0] = 0;
    if (id)
    {
        u32 in = mk(OP_ULT, 1, 32, mk(OP_SUB, 32, 0, id, K(32, lo)), K(32, 26));
        __sym_ret[0] = ext(mk(OP_ITE, 32, 0, in, mk(OP_ADD, 32, 0, id, K(32, (u64)(int64_t)delta)), id));
    }
    return r;
}
int __symw_tolower(int c)
{
    return caseModel(c, 'A', 32);
}
int __symw_toupper(int c)
{
    return caseModel(c, 'a', -32);
}
void * __symw_memcpy(void * d, void const * s, size_t n)
{
    u32 keep = __sym_args[0];
    (void)keep;
    concArg(0, (u64)d);
    concArg(1, (u64)s);
    concArg(2, n);
    __sym_memcpy(d, (void *)s, n);
    __sym_ret[0] = 0;
    return memcpy(d, s, n);
}
void * __symw_memmove(void * d, void const * s, size_t n)
{
    concArg(0, (u64)d);
    concArg(1, (u64)s);
    concArg(2, n);
    __sym_memcpy(d, (void *)s, n);
    __sym_ret[0] = 0;
    return memmove(d, s, n);
}
void * __symw_memset(void * d, int c, size_t n)
{
    u32 cid = __sym_args[1];
    concArg(0, (u64)d);
    concArg(2, n);
    __sym_memset(d, cid ? ext(mkExtr(cid, 0, 8)) : 0, n);
    __sym_ret[0] = 0;
    return memset(d, c, n);
}
void __symw_exit(int code)
{
    concArg(0, (u64)(u32)code);
    if (exit_handler)
        exit_handler(code);
    sym_end();
}
void __symw__exit(int code)
{
    __symw_exit(code);
}
void __symw_abort()
{
    abort();
}

// ------------------------------------------------------------------ harness API
uint8_t sym_byte()
{
    if (nvars >= MAXV)
    {
        fprintf(stderr, "too many symbolic bytes\n");
        die(__LINE__);
    }
    unsigned i = nvars++;
    u32 id = mkraw(OP_VAR, 8, 0, i, 0, 0, 0);
    // VAR nodes use a as an index, not as a child
    varnode[i] = id;
    tapePush(true, i);
    __sym_ret[0] = id;
    return vals[i];
}
unsigned sym_choice(unsigned n)
{
    unsigned c = 0;
    __sym_ret[0] = 0;
    if (n > 1)
    {
        ++ndec;
        if (ppos < prefix.size())
        {
            if (prefix[ppos] != 'C')
                diverge("expected choice");
            c = prefix[ppos + 1];
            ppos += 2;
            events.push_back('C');
            events.push_back(c);
        }
        else
        {
            for (unsigned i = n; i-- > 1;)
            {
                events.push_back('C');
                events.push_back(i);
                pushWork(events, vals);
                events.pop_back();
                events.pop_back();
            }
            events.push_back('C');
            events.push_back(0);
        }
    }
    tapePush(false, c);
    __sym_ret[0] = 0;
    return c;
}
void sym_assume(bool c)
{
    u32 id = __sym_args[0];
    branch(id, c);
    if (!c)
        endPath(1);
}
void sym_assert(bool c, char const * msg)
{
    u32 id = __sym_args[0];
    if (id && isK(id))
        id = 0;
    if (id && (N[id].val != 0) != c)
        diverge("assert value mismatch");
    if (!c)
    {
        addViol("assert", msg, vals);
        // continue on the part of the path where it holds, so that other violations are found too
        if (id)
        {
            u8 m[MAXV];
            std::vector<u8> ev;
            (void)ev;
            (void)m;
        }
        endPath(0);
    }
    if (!id || asserted[id] == 1)
    {
        S->asserts_path++;
        return;
    }
    u8 m[MAXV];
    u64 c0 = S->q_cached;
    Res r = solve({mkNot(id)}, m);
    (void)c0;
    S->asserts_solver++;
    if (r == SAT)
        addViol("assert", msg, m);
    else if (r == UNKNOWN)
        S->outside++;
    addC(id);
}
void sym_fail(char const * msg)
{
    addViol("fail", msg, vals);
    endPath(0);
}
void sym_cover(char const * label)
{
    addLabel(S->lab, S->nlab, 256, label);
}
void sym_observe(uint64_t v)
{
    obs = mix(obs * 1099511628211ull + v);
}
void sym_finding(char const * id)
{
    addLabel(S->find, S->nfind, 64, id);
}
void sym_end()
{
    endPath(0);
}
void sym_on_exit(void (*h)(int))
{
    exit_handler = h;
}
bool sym_symbolic_run()
{
    __sym_ret[0] = 0;
    return true;
}
void sym_note(char const *, size_t)
{}
uint8_t sym_fold(uint8_t v)
{
    concretize(__sym_args[0], v);
    __sym_ret[0] = 0;
    return v;
}
bool sym_and(bool a, bool b)
{
    u32 x = __sym_args[0], y = __sym_args[1];
    __sym_ret[0] = (x || y) ? ext(mk(OP_AND, 1, 0, x ? x : K(1, a), y ? y : K(1, b))) : 0;
    return a & b;
}
bool sym_or(bool a, bool b)
{
    u32 x = __sym_args[0], y = __sym_args[1];
    __sym_ret[0] = (x || y) ? ext(mk(OP_OR, 1, 0, x ? x : K(1, a), y ? y : K(1, b))) : 0;
    return a | b;
}
// ---- interposed
void __assert_fail(char const * e, char const * f, unsigned l, char const * fn)
{
    if (widx >= 0 && in_child)
        snprintf(S->slot[widx].note, 256, "assertion failed: %.120s (%.60s:%u)", e, f, l);
    (void)fn;
    abort();
}
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * malloc(size_t n)
{
    void * p = __libc_malloc(n);
    if (in_child && p && n && anyFlag((u64)p, n))
        shClear((u64)p, n);
    return p;
}
} // extern C
namespace std
{
__attribute__((visibility("default"))) void __glibcxx_assert_fail(char const * file, int line, char const * fn, char const * cond) noexcept
{
    if (widx >= 0 && in_child)
        snprintf(S->slot[widx].note, 256, "libstdc++ assertion failed: %.100s (%.60s:%d)", cond ? cond : "", file ? file : "", line);
    (void)fn;
    abort();
}
} // namespace std

// ------------------------------------------------------------------ driver
static void runChild(std::vector<u8> & ev)
{
    in_child = true;
    prefix.swap(ev);
    alarm(path_timeout_s);
    try
    {
        harness_main();
    }
    catch (std::exception & e)
    {
        snprintf(S->slot[widx].note, 256, "uncaught exception: %.200s", e.what());
        abort();
    }
    catch (...)
    {
        snprintf(S->slot[widx].note, 256, "uncaught exception of unknown type");
        abort();
    }
    endPath(0);
}
static bool vp_wait;
static void on_segv(int, siginfo_t * si, void *)
{
    void * bt[40];
    int n = backtrace(bt, 40);
    fprintf(stderr, "SEGV at %p\n", si->si_addr);
    backtrace_symbols_fd(bt, n, 2);
    if (vp_wait)
        pause();
    signal(SIGSEGV, SIG_DFL);
}
static void worker()
{
    if (vp_debug)
    {
        struct sigaction sa{};
        sa.sa_sigaction = on_segv;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGSEGV, &sa, nullptr);
    }
    std::vector<u8> ev;
    u8 m[MAXV];
    int quiet = open("/dev/null", O_WRONLY);
    for (;;)
    {
        if (S->stop || now_us() - t_start > t_budget_us)
            return;
        memset(m, 0, sizeof m);
        if (!popWork(ev, m))
        {
            if (S->active == 0 && S->qitems == 0)
                return;
            usleep(300);
            continue;
        }
        S->slot[widx].nt = 0;
        S->slot[widx].note[0] = 0;
        pid_t p = fork();
        if (p == 0)
        {
            if (!vp_debug)
            {
                dup2(quiet, 1);
                dup2(quiet, 2);
            }
            memcpy(vals, m, MAXV);
            runChild(ev);
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        {}
        S->active--;
        auto crash = [&](char const * kind, int sig)
        {
            lk(S->vlock);
            auto & sl = S->slot[widx];
            char msg[360];
            snprintf(msg, sizeof msg, "%s %d%s%s", kind, sig, sl.note[0] ? ": " : "", sl.note);
            u32 n = S->nviol;
            unsigned same = 0;
            for (u32 i = 0; i < n; ++i)
                if (!strcmp(S->viol[i].msg, msg))
                    ++same;
            if (n < 64 && same < 3)
            {
                Viol & v = S->viol[n];
                snprintf(v.kind, sizeof v.kind, "crash");
                snprintf(v.msg, sizeof v.msg, "%s", msg);
                v.ntape = sl.nt;
                memcpy(v.tape, sl.tape, MAXTAPE);
                S->nviol = n + 1;
            }
            ul(S->vlock);
        };
        if (WIFSIGNALED(st))
        {
            if (WTERMSIG(st) == SIGALRM)
            {
                S->timeouts++;
                crash("path does not terminate, signal", SIGALRM);
            }
            else
            {
                S->crashed++;
                crash("killed by signal", WTERMSIG(st));
            }
        }
        else if (WIFEXITED(st) && WEXITSTATUS(st) != 0)
        {
            S->dropped++;
            if (WEXITSTATUS(st) != 97)
            {
                S->stop = 2;
                fprintf(stderr, "engine failure in child, status %d\n", WEXITSTATUS(st));
            }
        }
        if (S->nviol >= 40)
            S->stop = 1;
    }
}
static void jstr(FILE * f, char const * s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        if (*s == '"' || *s == '\\')
            fprintf(f, "\\%c", *s);
        else if ((u8)*s < 32 || (u8)*s > 126)
            fprintf(f, "\\u%04x", (u8)*s);
        else
            fputc(*s, f);
    }
    fputc('"', f);
}
static void jtape(FILE * f, u8 const * t, unsigned n)
{
    fputc('"', f);
    for (unsigned i = 0; i < n; ++i)
        fprintf(f, "%02x", t[i]);
    fputc('"', f);
}

static void * big(u64 n, int fl, void * at = nullptr)
{
    void * p = mmap(at, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        die(__LINE__);
    }
    return p;
}
// instrumented code runs during the initialisation of libstdc++.so (interposed templates)
static void early()
{
    big(1ull << 35, MAP_PRIVATE, (void *)PAGEMAP_BASE);
    dir = (u32 **)big(8ull << 23, MAP_PRIVATE);
    N = (Node *)big(sizeof(Node) * (u64)MAXN, MAP_PRIVATE);
    ht = (u32 *)big(4ull * HT, MAP_PRIVATE);
    asserted = (u8 *)big(MAXN, MAP_PRIVATE);
    S = (Shared *)big(sizeof(Shared), MAP_SHARED);
}
__attribute__((section(".preinit_array"), used)) static void (*early_ptr)() = early;

extern "C" int vp_main(int argc, char ** argv)
{
    char const * out = "result.json";
    char const * rec = nullptr;
    int workers = 8;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--out") out = argv[i + 1];
        else if (a == "--budget") t_budget_us = (u64)(atof(argv[i + 1]) * 1e6);
        else if (a == "--workers") workers = atoi(argv[i + 1]);
        else if (a == "--paths") rec = argv[i + 1];
        else if (a == "--path-timeout") path_timeout_s = atoi(argv[i + 1]);
        else if (a == "--dump") dump_fd = open(argv[i + 1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        else if (a == "--dump-mod") dump_mod = atoi(argv[i + 1]);
    }
    if (workers > 60)
        workers = 60;
    Q = (u8 *)big(QMAX, MAP_SHARED);
    if (rec)
        rec_fd = open(rec, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    // solver
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, zerr);
    ZS = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, ZS);
    Z3_params pr = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, pr);
    Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "timeout"), solver_timeout_ms);
    Z3_solver_set_params(Z, ZS, pr);
    {
        Z3_solver_push(Z, ZS);
        Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "v0"), Z3_mk_bv_sort(Z, 8));
        Z3_solver_assert(Z, ZS, Z3_mk_eq(Z, v, Z3_mk_unsigned_int64(Z, 3, Z3_mk_bv_sort(Z, 8))));
        Z3_solver_check(Z, ZS);
        Z3_solver_pop(Z, ZS, 1);
    }
    t_start = now_us();
    {
        std::vector<u8> e;
        pushWork(e, vals);
    }
    std::vector<pid_t> ps;
    for (int i = 0; i < workers; ++i)
    {
        pid_t p = fork();
        if (p == 0)
        {
            widx = i;
            worker();
            _exit(0);
        }
        ps.push_back(p);
    }
    for (pid_t p : ps)
    {
        int st;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st))
        {
            fprintf(stderr, "worker killed by signal %d\n", WTERMSIG(st));
            S->stop = 2;
        }
    }
    double wall = (now_us() - t_start) / 1e6;
    FILE * f = fopen(out, "w");
    bool complete = S->qitems == 0 && !S->dropped && !S->diverged && !S->q_unknown && !S->stop && !S->timeouts && !S->outside;
    fprintf(f, "{\n \"complete\": %s, \"wall_s\": %.3f, \"engine_error\": %s,\n", complete ? "true" : "false", wall,
            S->stop == 2 ? "true" : "false");
#define P(x) fprintf(f, " \"" #x "\": %llu,\n", (unsigned long long)S->x.load())
    P(paths); P(pruned); P(diverged); P(crashed); P(timeouts); P(branches); P(forced); P(q_sat); P(q_unsat); P(q_unknown);
    P(q_cached); P(solver_us); P(asserts_solver); P(asserts_path); P(stale); P(leaks); P(unsup); P(maxq); P(evalchk); P(conc);
    P(symload); P(nodes); P(depthmax); P(dropped); P(outside);
    fprintf(f, " \"queue_left\": %llu,\n", (unsigned long long)S->qitems.load());
    auto labels = [&](char const * nm, Label * L, u32 n)
    {
        fprintf(f, " \"%s\": [", nm);
        for (u32 i = 0; i < n; ++i)
        {
            fprintf(f, "%s\n  {\"name\": ", i ? "," : "");
            jstr(f, L[i].name);
            fprintf(f, ", \"count\": %llu, \"tape\": ", (unsigned long long)L[i].n.load());
            jtape(f, L[i].tape, L[i].ntape);
            fprintf(f, "}");
        }
        fprintf(f, "],\n");
    };
    labels("labels", S->lab, S->nlab);
    labels("leak_sites", S->leak, S->nleak);
    labels("findings", S->find, S->nfind);
    fprintf(f, " \"violations\": [");
    for (u32 i = 0; i < S->nviol; ++i)
    {
        fprintf(f, "%s\n  {\"kind\": ", i ? "," : "");
        jstr(f, S->viol[i].kind);
        fprintf(f, ", \"msg\": ");
        jstr(f, S->viol[i].msg);
        fprintf(f, ", \"tape\": ");
        jtape(f, S->viol[i].tape, S->viol[i].ntape);
        fprintf(f, "}");
    }
    fprintf(f, "],\n \"functions\": [");
    bool first = true;
    for (u32 i = 0; __sym_fn_names[i] && i < MAXFN; ++i)
        if (S->fnhit[i])
        {
            fprintf(f, "%s\n  ", first ? "" : ",");
            jstr(f, __sym_fn_names[i]);
            first = false;
        }
    fprintf(f, "]\n}\n");
    fclose(f);
    return S->stop == 2 ? 3 : 0;
}
int main(int argc, char ** argv)
{
    vp_debug = getenv("VP_DEBUG") && *getenv("VP_DEBUG");
    vp_leakabort = getenv("VP_LEAKABORT");
    vp_wait = getenv("VP_WAIT");
    // no address randomisation: all runs share one layout
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("VP_NOEXEC"))
    {
        if (personality(ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("VP_NOEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    return vp_main(argc, argv);
}
