// P29: which message the answer of the server causes.
// @bounds the answer file: absent, or a first line of 0..6 (thorough 7) arbitrary bytes, or of three numbers of 1..2 arbitrary digits with an arbitrary byte (or none) in front, between and behind; a second line likewise (the other of the two fixed); the application's version 1.2.3, or three numbers of 1..2 arbitrary digits and 0..2 arbitrary bytes behind, or 0..4 arbitrary bytes
// @assume operating system calls are served by an in-memory model (harness/env.h); the check was asked for (--version-check 1); no number exceeds the range of int
// @cover newer, same, older, malformed, no-file, malformed-version
// @variant release -DNDEBUG
// @variant debug -UNDEBUG
// @budget 60 600
#include "update.h"
using namespace vp;
struct ver
{
    bool ok{false};
    unsigned v[3]{};
};
// three numbers separated by dots, at the start of the text or (whole) the text
static ver parse(std::string const & s, bool whole)
{
    ver r;
    size_t i = 0;
    for (int k = 0; k < 3; ++k)
    {
        size_t b = i;
        unsigned x = 0;
        while (i < s.size() && sym_fold((s[i] >= '0') & (s[i] <= '9')))
            x = x * 10 + (unsigned)(s[i++] & 15);
        if (i == b)
            return {};
        r.v[k] = x;
        if (k < 2)
        {
            if (i >= s.size() || s[i] != '.')
                return {};
            ++i;
        }
    }
    r.ok = !whole || i == s.size();
    return r.ok ? r : ver{};
}
static int cmp(ver const & a, ver const & b)
{
    for (int k = 0; k < 3; ++k)
        if (a.v[k] != b.v[k])
            return a.v[k] < b.v[k] ? -1 : 1;
    return 0;
}
static bool zero(ver const & a)
{
    return (a.v[0] | a.v[1] | a.v[2]) == 0;
}
static std::string numbers()
{
    std::string s;
    for (int k = 0; k < 3; ++k)
    {
        unsigned n = 1 + sym_choice(2);
        while (n--)
        {
            s.push_back((char)sym_byte());
            sym_assume((s.back() >= '0') & (s.back() <= '9'));
        }
        if (k < 2)
            s.push_back('.');
    }
    return s;
}
static std::string disturbed()
{
    std::string s = numbers();
    switch (sym_choice(4))
    {
    case 1: s = any(1) + s; break;
    case 2: s += any(1); break;
    case 3: s.insert(s.find('.'), any(1)); break;
    }
    return s;
}
static std::string version, line1, line2;
static bool file;
static bool has(char const * s)
{
    return cap->err.data.find(s) != std::string::npos;
}
static void check(int o)
{
    sym_assert(o == OK, "the answer never fails the parse");
    sym_assert(requests() == 1, "the server is asked");
    ver app = parse(version, false), srv = file ? parse(line1, true) : ver{}, lib = file ? parse(line2, true) : ver{};
    int c = cmp(srv, app);
#ifdef NDEBUG
    sym_assert(has("A new version of this application") == (srv.ok && c > 0), "the user is told exactly about a newer application");
    sym_assert(!has("SHARG VERSION INFO") && !has("We noticed"), "no message for the developer");
    if (!(srv.ok && c > 0))
        sym_assert(cap->err.data.empty(), "no other message");
#else
    ver own;
    own.v[0] = SHARG_VERSION_MAJOR, own.v[1] = SHARG_VERSION_MINOR, own.v[2] = SHARG_VERSION_PATCH;
    bool newlib = lib.ok && cmp(lib, own) > 0, reg = srv.ok && !zero(srv) && c < 0;
    sym_assert(has("A new Sharg version") == newlib, "the developer is told exactly about a newer library");
    sym_assert(has("We noticed the app version you use is newer") == reg, "the developer is told exactly about an older registered version");
    sym_assert(has("Do you wish to register") == (file && line1 == "UNREGISTERED_APP"), "registration is offered exactly to unregistered applications");
    sym_assert(!has("A new version of this application"), "no message for the user");
    if (!newlib && !reg && line1 != "UNREGISTERED_APP")
        sym_assert(cap->err.data.empty(), "no other message");
#endif
    sym_cover(!file ? "no-file" : !srv.ok ? "malformed" : !app.ok ? "malformed-version" : c > 0 ? "newer" : c < 0 ? "older" : "same");
}
extern "C" void harness_main()
{
    env_begin(uenv);
    uenv.nodes.reserve(32);
    add_node("/home/u/.config", 'd');
    add_node("/home/u/.config/seqan", 'd');
    version = "1.2.3";
    line1 = "1.2.4";
    line2 = "1.0.0";
    file = true;
    switch (sym_choice(7))
    {
    case 0: file = false; break;
    case 1: line1 = any(0, 6 + VP_TIER); break;
    case 2: line1 = disturbed(); break;
    case 3:
        version = numbers();
        version += any(0, 2);
        line1 = "10.2.9";
        break;
    case 4: version = any(0, 4); break;
    case 5:
        version = numbers();
        line1 = numbers();
        break;
    default:
        line1 = sym_choice(2) ? "UNREGISTERED_APP" : "1.2.3";
        line2 = sym_choice(2) ? any(0, 5) : disturbed();
    }
    for (char c : line1)
        sym_assume(c != '\n');
    for (char c : line2)
        sym_assume(c != '\n');
    if (file)
        add_node("/home/u/.config/seqan/app.version", 'f', true, true, line1 + "\n" + line2 + (sym_choice(2) ? "\n" : ""));
    note("version [" + version + "] answer [" + line1 + "] [" + line2 + "]");
    static sharg::parser p{"app", {"app", "--version-check", "1", "x"}};
    static std::vector<std::string> pos;
    p.add_positional_option(pos, sharg::config{});
    p.info.version = version;
    cap = new captured;
    run([&] { p.parse(); }, check);
}
