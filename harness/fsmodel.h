#pragma once
// The precompiled operations of std::filesystem (status, remove, ...) in the symbolic build, on the
// in-memory file system of env.h, so that file names with symbolic bytes stay symbolic. The replay
// build uses the real ones on the same file system, by interposed system calls.
#include "pathmodel.h"
#include "vp.h"
#ifdef VP_SYMBOLIC
#    include <filesystem>
namespace std::filesystem
{
inline error_code vp_errno()
{
    return error_code(errno, generic_category());
}
[[gnu::noinline]] inline void vp_throw(error_code ec)
{
    throw filesystem_error("file system", ec);
}
[[gnu::noinline]] inline file_status vp_status(path const & p, error_code & ec, bool follow) noexcept
{
    struct stat st;
    if (follow ? stat(p.c_str(), &st) : lstat(p.c_str(), &st))
    {
        int e = errno;
        if (e == ENOENT || e == ENOTDIR)
        {
            ec.assign(e, generic_category());
            return file_status(file_type::not_found);
        }
        ec.assign(e, generic_category());
        return file_status(file_type::none);
    }
    ec.clear();
    return file_status(S_ISDIR(st.st_mode) ? file_type::directory : S_ISFIFO(st.st_mode) ? file_type::fifo
                       : S_ISLNK(st.st_mode) ? file_type::symlink : file_type::regular);
}
file_status status(path const & p, error_code & ec) noexcept
{
    return vp_status(p, ec, true);
}
file_status symlink_status(path const & p, error_code & ec) noexcept
{
    return vp_status(p, ec, false);
}
file_status symlink_status(path const & p)
{
    error_code ec;
    file_status r = vp_status(p, ec, false);
    if (r.type() == file_type::none)
        vp_throw(ec);
    return r;
}
path read_symlink(path const & p, error_code & ec)
{
    char b[256];
    ssize_t n = readlink(p.c_str(), b, sizeof b);
    if (n < 0)
    {
        ec = vp_errno();
        return {};
    }
    ec.clear();
    return path(string(b, b + n));
}
path read_symlink(path const & p)
{
    error_code ec;
    path r = read_symlink(p, ec);
    if (ec)
        vp_throw(ec);
    return r;
}
path current_path()
{
    return path(string{vp::E ? "/w" : "/"});
}
path absolute(path const & p)
{
    return p.native()[0] == '/' ? p : path("/w/" + p.native());
}
path canonical(path const & p, error_code & ec)
{
    char b[256];
    if (!realpath(p.c_str(), b))
    {
        ec = vp_errno();
        return {};
    }
    ec.clear();
    return path(string{b});
}
path canonical(path const & p)
{
    error_code ec;
    path r = canonical(p, ec);
    if (ec)
        vp_throw(ec);
    return r;
}
path weakly_canonical(path const & p, error_code & ec)
{
    // the longest beginning that exists, without links, and the rest
    string s = p.native(), rest;
    struct stat st;
    while (!s.empty() && stat(s.c_str(), &st))
    {
        size_t k = s.rfind('/');
        rest = (k == string::npos ? s : s.substr(k + 1)) + (rest.empty() ? "" : "/" + rest);
        s = k == string::npos ? "" : s.substr(0, k ? k : 1);
        if (s == "/")
            break;
    }
    ec.clear();
    if (s.empty())
        return path(rest);
    path c = canonical(path(s), ec);
    return ec ? path() : rest.empty() ? c : path(c.native() + "/" + rest);
}
path weakly_canonical(path const & p)
{
    error_code ec;
    path r = weakly_canonical(p, ec);
    if (ec)
        vp_throw(ec);
    return r;
}
file_status status(path const & p)
{
    error_code ec;
    file_status r = status(p, ec);
    if (r.type() == file_type::none)
        vp_throw(ec);
    return r;
}
bool create_directory(path const & p, error_code & ec) noexcept
{
    if (mkdir(p.c_str(), 0777))
    {
        int e = errno;
        struct stat st;
        if (e == EEXIST && !stat(p.c_str(), &st) && S_ISDIR(st.st_mode))
        {
            ec.clear();
            return false;
        }
        ec.assign(e, generic_category());
        return false;
    }
    ec.clear();
    return true;
}
bool create_directory(path const & p)
{
    error_code ec;
    bool r = create_directory(p, ec);
    if (ec)
        vp_throw(ec);
    return r;
}
bool remove(path const & p, error_code & ec) noexcept
{
    if (::remove(p.c_str()) == 0)
    {
        ec.clear();
        return true;
    }
    int e = errno;
    if (e == ENOENT)
        ec.clear();
    else
        ec.assign(e, generic_category());
    return false;
}
bool remove(path const & p)
{
    error_code ec;
    bool r = remove(p, ec);
    if (ec)
        vp_throw(ec);
    return r;
}
uintmax_t remove_all(path const & p, error_code & ec)
{
    ec.clear();
    uintmax_t count = 0;
    int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (fd < 0)
    {
        if (errno == ENOENT)
            return 0;
        if (errno != ENOTDIR)
        {
            ec.assign(errno, generic_category());
            return (uintmax_t)-1;
        }
    }
    else
    {
        DIR * d = fdopendir(fd);
        while (dirent * e = readdir(d))
        {
            string child = p.native() + "/" + e->d_name;
            int n = vp::find_node(child.c_str());
            bool dir = n >= 0 && vp::E->nodes[n].kind == 'd';
            if (dir)
            {
                uintmax_t k = remove_all(path(child), ec);
                if (ec)
                {
                    closedir(d);
                    return (uintmax_t)-1;
                }
                count += k;
            }
            else
            {
                if (unlinkat(fd, e->d_name, 0))
                {
                    if (errno != ENOENT)
                    {
                        ec.assign(errno, generic_category());
                        closedir(d);
                        return (uintmax_t)-1;
                    }
                }
                else
                    ++count;
            }
        }
        closedir(d);
    }
    if (remove(p, ec))
        ++count;
    if (ec)
        return (uintmax_t)-1;
    return count;
}
uintmax_t remove_all(path const & p)
{
    error_code ec;
    uintmax_t r = remove_all(p, ec);
    if (ec)
        vp_throw(ec);
    return r;
}
directory_iterator::directory_iterator(path const & p, directory_options, error_code * ec)
{
    int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY);
    if (ec)
        ec->clear();
    if (fd < 0)
    {
        error_code e = vp_errno();
        if (!ec)
            vp_throw(e);
        *ec = e;
    }
}
} // namespace std::filesystem
#endif
