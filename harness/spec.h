#pragma once
// Reference semantics of a command line (written from the documentation), independent of the
// implementation: one left-to-right pass over the tokens, in the manner of getopt_long.
#include "vp.h"

namespace vp
{
enum kind : int
{
    FLAG,
    INT,
    STR,
    SLIST,
    ILIST
};
struct decl
{
    kind k;
    char s;
    std::string l;
    bool required{false};
};
struct slot // the variable of a declaration
{
    bool f{false};
    int i{7};
    std::string t{"def"};
    std::vector<std::string> tl{"d1", "d2"};
    std::vector<int> il{5, 6};
};
struct expectation
{
    unsigned errs{0};         // bit set of admissible outcomes (enum outcome); 0: success
    bool ambiguous{false};    // the value of an option looks like a declared option
    bool repeated_flag{false};
    std::vector<std::vector<std::string>> by_short, by_long;
    std::vector<unsigned> flag_count;
    std::vector<std::string> rest;
    std::string pages{};      // all requests
    int page{0};              // last special request: 'h' 'H' 'v' 'c' 'm' 'w', 's' short help
    int version_check{-1};
    bool dashdash{false};
    bool fatal{false};        // a malformed special request: nothing else is looked at
};

inline bool starts(std::string const & s, std::string const & p)
{
    return s.size() >= p.size() && memcmp(s.data(), p.data(), p.size()) == 0;
}
inline bool eq(std::string const & a, char const * b)
{
    size_t n = __builtin_strlen(b);
    return a.size() == n && memcmp(a.data(), b, n) == 0;
}
inline bool eq(std::string const & a, std::string const & b)
{
    return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0;
}

// decimal integers: whole text, optional '-', digits; returns 0 ok, 1 syntax, 2 out of range
inline int spec_int(std::string const & s, bool is_signed, uint64_t max_pos, uint64_t max_neg, bool & neg, uint64_t & mag)
{
    size_t i = 0;
    neg = false;
    if (is_signed && !s.empty() && s[0] == '-')
        neg = true, i = 1;
    if (i == s.size())
        return 1;
    bool digits = true;
    for (size_t k = i; k < s.size(); ++k)
        digits = digits & (s[k] >= '0') & (s[k] <= '9');
    if (!digits)
        return 1;
    uint64_t v = 0;
    bool over = false;
    for (size_t k = i; k < s.size(); ++k)
    {
        uint64_t c = (uint64_t)(unsigned)(s[k] - '0');
        if (k - i >= 18) // 18 digits always fit
            over = over | (v > 1844674407370955161ull) | ((v == 1844674407370955161ull) & (c > 5));
        v = v * 10 + c;
    }
    if (over | (v > (neg ? max_neg : max_pos)))
        return 2;
    mag = v;
    return 0;
}
inline bool spec_i32(std::string const & s, int & v)
{
    bool neg;
    uint64_t mag;
    if (spec_int(s, true, 0x7fffffffull, 0x80000000ull, neg, mag))
        return false;
    v = (int)(neg ? 0 - mag : mag);
    return true;
}

// how does a token match a declared option? 0 no, 1 exact (value follows), 2 attached/after '='
inline int match_option(decl const & d, std::string const & t, bool & by_long, std::string & value, bool & empty_eq)
{
    empty_eq = false;
    if (d.k == FLAG)
        return 0;
    if (d.s && t.size() >= 2 && t[0] == '-' && t[1] == d.s)
    {
        by_long = false;
        if (t.size() == 2)
            return 1;
        value = t[2] == '=' ? t.substr(3) : t.substr(2);
        empty_eq = t[2] == '=' && value.empty();
        return 2;
    }
    if (!d.l.empty() && starts(t, "--" + d.l))
    {
        size_t n = d.l.size() + 2;
        by_long = true;
        if (t.size() == n)
            return 1;
        if (t[n] == '=')
        {
            value = t.substr(n + 1);
            empty_eq = value.empty();
            return 2;
        }
    }
    return 0;
}
inline bool looks_like_option(std::vector<decl> const & ds, std::string const & t)
{
    for (auto & d : ds)
    {
        bool b, e;
        std::string v;
        if (match_option(d, t, b, v, e))
            return true;
    }
    return false;
}

// The reference pass is goal directed: `got` is what parse() did on this path. As soon as an
// admissible reason for that error is found the pass stops (x.settled); for a successful parse
// the first error of the reference settles the comparison, too.
inline bool spec_sub{false}; // a subcommand follows: no short help
struct spec_pass
{
    std::vector<decl> const & ds;
    std::vector<std::string> const & a;
    unsigned npos;
    bool list_pos;
    int got;
    expectation x;
    bool settled{false};

    bool add_err(outcome o)
    {
        x.errs |= 1u << o;
        return settled = settled || got == OK || got == o;
    }
    // tokens of the parsing pass; false: settled
    bool requests(std::vector<std::string> & t)
    {
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (eq(a[i], "--"))
            {
                for (; i < a.size(); ++i)
                    t.push_back(a[i]);
                break;
            }
            bool consumed = false;
            for (auto & d : ds)
            {
                bool b, e;
                std::string v;
                if (!consumed && match_option(d, a[i], b, v, e) == 1)
                    consumed = true;
            }
            if (consumed)
            {
                t.push_back(a[i]);
                if (i + 1 < a.size() && !eq(a[i + 1], "--"))
                    t.push_back(a[++i]);
                continue;
            }
            if (eq(a[i], "-h") || eq(a[i], "--help"))
                x.pages += (char)(x.page = 'h');
            else if (eq(a[i], "-hh") || eq(a[i], "--advanced-help"))
                x.pages += (char)(x.page = 'H');
            else if (eq(a[i], "--version"))
                x.pages += (char)(x.page = 'v');
            else if (eq(a[i], "--copyright"))
                x.pages += (char)(x.page = 'c');
            else if (eq(a[i], "--export-help") || starts(a[i], "--export-help="))
            {
                std::string v;
                if (a[i].size() > 13)
                    v = a[i].substr(14);
                else if (i + 1 == a.size())
                {
                    x.fatal = true;
                    add_err(TOO_FEW);
                    return false;
                }
                else
                    v = a[++i];
                if (eq(v, "html"))
                    x.pages += (char)(x.page = 'w');
                else if (eq(v, "man"))
                    x.pages += (char)(x.page = 'm');
                else if (eq(v, "ctd") || eq(v, "cwl"))
                    x.page = 't'; // not in this build: rejected unless a later request replaces it
                else
                {
                    x.fatal = true;
                    add_err(VALIDATION);
                    return false;
                }
            }
            else if (eq(a[i], "--version-check"))
            {
                if (i + 1 == a.size())
                {
                    x.fatal = true;
                    add_err(TOO_FEW);
                    return false;
                }
                std::string const & v = a[++i];
                if (eq(v, "1") || eq(v, "true"))
                    x.version_check = 1;
                else if (eq(v, "0") || eq(v, "false"))
                    x.version_check = 0;
                else
                {
                    x.fatal = true;
                    add_err(VALIDATION);
                    return false;
                }
            }
            else
                t.push_back(a[i]);
        }
        if (!x.page && t.empty() && !spec_sub)
            x.page = 's';
        if (x.page == 's')
            x.pages = "s";
        if (x.page == 't')
        {
            x.page = 0;
            x.fatal = true;
            add_err(VALIDATION);
            return false;
        }
        return !x.page;
    }
    void parse(std::vector<std::string> const & t)
    {
        std::vector<unsigned> seen(ds.size()); // occurrences, with or without a value
        for (size_t i = 0; i < t.size(); ++i)
        {
            std::string const & s = t[i];
            if (eq(s, "--"))
            {
                x.dashdash = true;
                for (++i; i < t.size(); ++i)
                    x.rest.push_back(t[i]);
                break;
            }
            int m = 0;
            for (size_t d = 0; d < ds.size() && !m; ++d)
            {
                bool by_long, empty_eq;
                std::string v;
                m = match_option(ds[d], s, by_long, v, empty_eq);
                if (!m)
                    continue;
                ++seen[d];
                if ((ds[d].k == INT || ds[d].k == STR) && seen[d] > 1 && add_err(MULTIPLE))
                    return;
                if (m == 1)
                {
                    if (i + 1 == t.size() || eq(t[i + 1], "--"))
                    {
                        if (add_err(TOO_FEW))
                            return;
                        continue;
                    }
                    v = t[++i];
                    if (looks_like_option(ds, v))
                    {
                        x.ambiguous = settled = true;
                        return;
                    }
                }
                else if (empty_eq)
                {
                    if (add_err(TOO_FEW))
                        return;
                    continue;
                }
                (by_long ? x.by_long : x.by_short)[d].push_back(v);
                int dummy;
                if ((got == OK || got == USER_INPUT) && (ds[d].k == INT || ds[d].k == ILIST) && !spec_i32(v, dummy) && add_err(USER_INPUT))
                    return;
            }
            if (m)
                continue;
            if (s.size() >= 2 && s[0] == '-' && s[1] == '-')
            {
                bool hit = false;
                for (size_t d = 0; d < ds.size(); ++d)
                    if (ds[d].k == FLAG && !ds[d].l.empty() && eq(s, "--" + ds[d].l))
                    {
                        hit = true;
                        ++x.flag_count[d];
                    }
                if (!hit && add_err(UNKNOWN))
                    return;
            }
            else if (s.size() >= 2 && s[0] == '-')
            {
                bool all = true;
                for (size_t c = 1; c < s.size(); ++c)
                {
                    bool hit = false;
                    for (size_t d = 0; d < ds.size(); ++d)
                        if (ds[d].k == FLAG && ds[d].s)
                        {
                            bool h = s[c] == ds[d].s;
                            hit = hit | h;
                            x.flag_count[d] += (unsigned)h;
                        }
                    all = all & hit;
                }
                if ((got == OK || got == UNKNOWN) && !all && add_err(UNKNOWN))
                    return;
            }
            else
                x.rest.push_back(s);
        }
        if (got == OK || got == UNKNOWN)
        {
            bool twice = false;
            for (unsigned c : x.flag_count)
                twice = twice | (c > 1);
            if (twice)
            {
                x.repeated_flag = true;
                if (add_err(UNKNOWN))
                    return;
            }
        }
        for (size_t d = 0; d < ds.size(); ++d)
            if (ds[d].k != FLAG && ds[d].required && seen[d] == 0 && add_err(REQUIRED))
                return;
        if (x.rest.size() < npos + (list_pos ? 1u : 0u) && add_err(TOO_FEW))
            return;
        if (x.rest.size() > npos && !list_pos && add_err(TOO_MANY))
            return;
    }
};
// npos single positionals, then optionally one list positional
inline expectation spec_parse(std::vector<decl> const & ds, std::vector<std::string> const & a, unsigned npos, bool list_pos, int got)
{
    spec_pass p{ds, a, npos, list_pos, got};
    p.x.by_short.resize(ds.size());
    p.x.by_long.resize(ds.size());
    p.x.flag_count.resize(ds.size());
    std::vector<std::string> t;
    if (p.requests(t))
        p.parse(t);
    return p.x;
}

// ------------------------------------------------------------------ the parser under test
inline env_state env;
inline std::vector<decl> decls;
inline std::vector<slot> slots;
inline std::vector<std::string> args; // without the program name
inline std::string pos[3];
inline std::vector<std::string> pos_list{"p"};
inline unsigned npos = 0;
inline bool list_pos = false;
inline sharg::parser * parser = nullptr;
inline captured * cap = nullptr;
inline std::vector<unsigned> order; // declaration order
inline expectation want;
inline bool check_page{false}; // compare the printed page with the request

inline void declare(sharg::parser & p, decl const & d, slot & s)
{
    switch (d.k)
    {
    case FLAG: p.add_flag(s.f, sharg::config{.short_id = d.s, .long_id = d.l, .description = "x"}); break;
    case INT: p.add_option(s.i, sharg::config{.short_id = d.s, .long_id = d.l, .description = "x", .required = d.required}); break;
    case STR: p.add_option(s.t, sharg::config{.short_id = d.s, .long_id = d.l, .description = "x", .required = d.required}); break;
    case SLIST: p.add_option(s.tl, sharg::config{.short_id = d.s, .long_id = d.l, .description = "x", .required = d.required}); break;
    case ILIST: p.add_option(s.il, sharg::config{.short_id = d.s, .long_id = d.l, .description = "x", .required = d.required}); break;
    }
}
inline sharg::parser * make()
{
    std::vector<std::string> full{"app"};
    for (auto & s : args)
        full.push_back(s);
    auto * p = new sharg::parser{"app", full, sharg::update_notifications::off};
    if (order.empty())
        for (unsigned i = 0; i < decls.size(); ++i)
            order.push_back(i);
    slots.resize(decls.size());
    for (unsigned i : order)
        declare(*p, decls[i], slots[i]);
    if (check_page)
    {
        p->add_list_item("k", "advanced-marker", true);
        p->info.version = "1.0.0";
    }
    for (unsigned i = 0; i < npos; ++i)
        p->add_positional_option(pos[i], sharg::config{.description = "p"});
    if (list_pos)
        p->add_positional_option(pos_list, sharg::config{.description = "l"});
    return p;
}

inline void check_values()
{
    for (size_t d = 0; d < decls.size(); ++d)
    {
        auto & s = slots[d];
        std::vector<std::string> v = want.by_short[d];
        for (auto & y : want.by_long[d])
            v.push_back(y);
        switch (decls[d].k)
        {
        case FLAG:
            sym_assert(s.f == (want.flag_count[d] != 0), "a flag is true if and only if it was given");
            break;
        case STR:
            sym_assert(eq(s.t, v.empty() ? std::string{"def"} : v[0]), "a string option holds exactly the text given (or its default)");
            break;
        case INT:
        {
            int e = 7;
            if (!v.empty())
                spec_i32(v[0], e);
            sym_assert(s.i == e, "an integer option holds exactly the number given (or its default)");
            break;
        }
        case SLIST:
        {
            if (v.empty())
                v = {"d1", "d2"};
            sym_assert(s.tl.size() == v.size(), "a list option holds one element per occurrence");
            for (size_t k = 0; k < v.size(); ++k)
                sym_assert(eq(s.tl[k], v[k]), "a list option holds exactly the texts given, in order");
            break;
        }
        case ILIST:
        {
            std::vector<int> e{5, 6};
            if (!v.empty())
            {
                e.clear();
                for (auto & y : v)
                {
                    int n = 0;
                    spec_i32(y, n);
                    e.push_back(n);
                }
            }
            sym_assert(s.il.size() == e.size(), "a list option holds one element per occurrence");
            for (size_t k = 0; k < e.size(); ++k)
                sym_assert(s.il[k] == e[k], "a list option holds exactly the numbers given, in order");
            break;
        }
        }
    }
    for (unsigned i = 0; i < npos; ++i)
        sym_assert(eq(pos[i], want.rest[i]), "positional options receive the remaining tokens in order");
    if (list_pos)
    {
        sym_assert(pos_list.size() == want.rest.size() - npos, "the list positional receives all remaining tokens");
        for (size_t k = 0; k < pos_list.size(); ++k)
            sym_assert(eq(pos_list[k], want.rest[npos + k]), "the list positional receives the remaining tokens in order");
    }
}
// which page was printed?
inline int page_kind(std::string const & o)
{
    auto has = [&](char const * t) { return o.find(t) != std::string::npos; };
    if (has("<!DOCTYPE"))
        return 'w';
    if (starts(o, ".TH"))
        return 'm';
    if (has("Try -h or --help for more information."))
        return 's';
    if (has("Copyright information for"))
        return 'c';
    if (has("OPTIONS"))
        return has("advanced-marker") ? 'H' : 'h';
    if (has("VERSION"))
        return 'v';
    return 0;
}
inline void (*extra)(int) = nullptr;
inline void check_untouched()
{
    for (size_t d = 0; d < decls.size(); ++d)
    {
        auto & s = slots[d];
        sym_assert(!s.f && s.i == 7 && eq(s.t, "def") && s.tl.size() == 2 && s.il.size() == 2, "a special request touches no variable");
    }
    for (auto & p : pos)
        sym_assert(p.empty(), "a special request touches no variable");
    sym_assert(pos_list.size() == 1, "a special request touches no variable");
}
inline void check(int o)
{
    sym_cover(name(o));
    sym_assert(o != FOREIGN, "only exceptions derived from parser_error leave parse()");
    want = spec_parse(decls, args, npos, list_pos, o);
    if (want.ambiguous && !want.page)
    {
        sym_cover("ambiguous");
        return; // the value looks like another declared option: see the known findings of P01
    }
    if (want.page && !want.fatal)
    {
        sym_assert(o == EXITED, "a special request (or an empty command line) exits");
        sym_assert(exit_code == 0, "a special request exits with status 0");
        check_untouched();
        if (check_page)
        {
            int k = page_kind(cap->out.data);
            sym_observe((uint64_t)k);
            static char l[] = "page- ";
            l[5] = (char)k;
            sym_cover(l);
            sym_assert(k && want.pages.find((char)k) != std::string::npos, "the page that is printed was requested");
        }
    }
    else if (want.errs)
    {
        sym_assert(o != OK, "an incorrect command line is rejected");
        sym_assert(((want.errs >> o) & 1u) != 0, "the error that is raised applies to this command line");
        if (want.repeated_flag)
            sym_cover("repeated-flag");
    }
    else
    {
        sym_assert(o == OK, "a correct command line is accepted");
        check_values();
    }
    if (extra)
        extra(o);
}
inline void go()
{
    env_begin(env);
    cap = new captured;
    note_args(args);
    parser = make();
    run([] { parser->parse(); }, check);
}
} // namespace vp
