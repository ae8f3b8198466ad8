#pragma once
// Reading a printed page, for the properties of the help formats.
#include "vp.h"
#include <algorithm>
namespace vp
{
inline captured * cap = nullptr;
inline env_state penv;
// the lines of the page between two marker lines (exclusive); empty if a marker is missing or not unique
inline bool region(std::string const & page, std::string const & from, std::string const & to, std::string & out)
{
    size_t a = page.find(from);
    if (a == std::string::npos)
        return false;
    a += from.size();
    size_t b = page.find(to, a);
    if (b == std::string::npos)
        return false;
    out = page.substr(a, b - a);
    return true;
}
inline bool blank(char c)
{
    return (c == ' ') | ((c >= '\t') & (c <= '\r'));
}
inline std::vector<std::string> words(std::string const & s)
{
    std::vector<std::string> r;
    bool in = false;
    for (char c : s)
    {
        if (blank(c))
            in = false;
        else
        {
            if (!in)
                r.emplace_back();
            in = true;
            r.back().push_back(c);
        }
    }
    return r;
}
inline std::vector<std::string> lines(std::string const & s)
{
    std::vector<std::string> r;
    std::string l;
    for (char c : s)
    {
        if (c == '\n')
        {
            r.push_back(l);
            l.clear();
        }
        else
            l.push_back(c);
    }
    if (!l.empty())
        r.push_back(l);
    return r;
}
// what a text looks like on the console: "\-" is a dash, \fB \fI \fP switch the font
inline std::string rendered(std::string const & t, bool tty)
{
    std::string r;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (t[i] == '\\' && i + 1 < t.size() && t[i + 1] == '-')
        {
            r.push_back('-');
            ++i;
        }
        else if (t[i] == '\\' && i + 2 < t.size() && t[i + 1] == 'f' && (t[i + 2] == 'B' || t[i + 2] == 'I' || t[i + 2] == 'P'))
        {
            if (tty)
                r += t[i + 2] == 'B' ? "\033[1m" : t[i + 2] == 'I' ? "\033[4m" : "\033[0m";
            i += 2;
        }
        else if (t[i] == '\\' && i + 2 < t.size() && t[i + 1] == 'f') // no such font: stands for itself
        {
            r += t.substr(i, 3);
            i += 2;
        }
        else if (t[i] == '\\' && i + 1 < t.size()) // any other escaped character stands for itself, the backslash too
        {
            r.push_back(t[i]);
            r.push_back(t[++i]);
        }
        else
            r.push_back(t[i]);
    }
    return r;
}
// ------------------------------------------------------------------ HTML
// Empty if the page is well formed: '<', '>' only in the tags of the generator, '&' only in
// character references, quotes only inside tags, every element closed in order.
inline std::string html_error(std::string const & page)
{
    static char const * const known[] = {"html", "head", "title", "body", "h1", "h2", "h3", "div", "p", "dl", "dt", "dd", "strong", "em"};
    static char const * const refs[] = {"quot", "apos", "amp", "lt", "gt", "mdash"};
    std::vector<std::string> open;
    for (size_t i = 0; i < page.size(); ++i)
    {
        char c = page[i];
        if (c == '<')
        {
            size_t e = page.find('>', i);
            if (e == std::string::npos)
                return "unclosed tag";
            std::string tag = page.substr(i + 1, e - i - 1);
            i = e;
            if (tag.compare(0, 8, "!DOCTYPE") == 0 || tag.compare(0, 5, "meta ") == 0 || tag == "br")
                continue;
            bool closing = tag[0] == '/';
            std::string name = closing ? tag.substr(1) : tag.substr(0, tag.find(' '));
            bool ok = false;
            for (auto k : known)
                ok = ok || name == k;
            if (!ok)
                return "unknown tag " + name;
            if (!closing)
            {
                std::string in = open.empty() ? "" : open.back();
                if ((name == "dt" || name == "dd") != (in == "dl"))
                    return name + " in " + in;
                if ((name == "dl" || name == "p" || name == "h1" || name == "h2" || name == "h3" || name == "div") && in != "body")
                    return name + " in " + in;
                open.push_back(name);
            }
            else
            {
                if (open.empty() || open.back() != name)
                    return "wrong end of " + name;
                open.pop_back();
            }
        }
        else if (c == '&')
        {
            bool ok = false;
            for (auto k : refs)
                ok = ok || page.compare(i + 1, __builtin_strlen(k) + 1, k + std::string{";"}) == 0;
            if (!ok)
                return "bare &";
        }
        else if ((c == '>') | (c == '"') | (c == '\''))
            return "special character outside of tags";
    }
    return open.empty() ? "" : "unclosed " + open.back();
}
// the text of a piece of a page: without tags, references replaced
inline std::string html_text(std::string const & s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '<')
            while (i + 1 < s.size() && s[i] != '>')
                ++i;
        else if (s[i] == '&')
        {
            size_t e = i;
            while (e < s.size() && s[e] != ';')
                ++e;
            std::string n = s.substr(i + 1, e - i - 1);
            r.push_back(n == "quot" ? '"' : n == "apos" ? '\'' : n == "amp" ? '&' : n == "lt" ? '<' : n == "gt" ? '>' : '?');
            i = e;
        }
        else
            r.push_back(s[i]);
    return r;
}
} // namespace vp
