#pragma once
// Environment model. The operating system calls that sharg (directly or through libstdc++.so)
// makes are interposed and served from an in-memory state, in the symbolic and in the replay
// build alike. Everything here is part of the stated assumptions of every claim.
#include "sym.h"
#include <cerrno>
#include <dirent.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace vp
{
// ------------------------------------------------------------------ state
struct inode
{
    std::string path;      // absolute path
    char kind{'-'};        // 'f' file, 'd' directory, 'p' FIFO, 'l' symbolic link (data: its target), '-' gone
    bool readable{true};
    bool writable{true};   // for a directory: entries may be created/removed
    std::string data{};
    bool created_now{false};
    unsigned truncated{0};
};
struct open_file
{
    int node{-1};
    size_t pos{0};
    bool wr{false}, rd{false}, append{false};
};
struct env_state
{
    std::vector<inode> nodes;
    std::vector<open_file> files; // index + FD_BASE is the descriptor
    bool home_set{true};
    std::string home{"/home/u"};
    std::string * tmpdir{nullptr}; // TMPDIR, if set
    bool no_version_check{false};
    bool tty{false};
    bool tty_in{true}, tty_err{true}; // if tty: whether standard input and standard error are terminals
    unsigned columns{0};
    long now{1700000000};
    std::vector<std::string> system_calls;
    int system_result{0};
    bool write_fails{false}, unlink_fails{false}, rmdir_fails{false};
    bool mkdir_protected{false}; // new directories are write-protected (umask)
    char fault_op{0};         // the fault_nth call of kind (s)tat, (m)kdir, (o)pen, (u)nlink fails with fault_errno
    unsigned fault_nth{0};
    int fault_errno{0};
    unsigned faults_hit{0};
    unsigned destructive{0};  // unlink/rmdir/truncate of an entry that existed before
    bool fs_touched{false};
    bool links{false};        // there are symbolic links
};
constexpr int FD_BASE = 20000;
inline env_state * E = nullptr; // non-null: the model is active
inline int plain_node(std::string const & s)
{
    for (size_t i = 0; i < E->nodes.size(); ++i)
        if (E->nodes[i].kind != '-' && E->nodes[i].path == s)
            return (int)i;
    return -1;
}
// what a link's target is called from the working directory
inline std::string link_target(int n)
{
    std::string const & l = E->nodes[n].path;
    std::string const & t = E->nodes[n].data;
    size_t k = l.rfind('/');
    return t.empty() || t[0] == '/' || k == std::string::npos ? t : l.substr(0, k + 1) + t;
}
// a path whose directories are no links; the last component is not followed
inline std::string without_links(char const * p)
{
    std::string s{p};
    while (s.size() > 1 && s.back() == '/')
        s.pop_back();
    if (E->links)
    {
        if (s == "/w")
            s = ".";
        if (s.compare(0, 3, "/w/") == 0) // the working directory
            s.erase(0, 3);
        for (unsigned hops = 0; hops < 8; ++hops)
        {
            bool again = false;
            for (size_t i = 0; i < E->nodes.size() && !again; ++i)
            {
                std::string const & l = E->nodes[i].path;
                if (E->nodes[i].kind == 'l' && s.size() > l.size() + 1 && s.compare(0, l.size(), l) == 0 && s[l.size()] == '/')
                {
                    s = link_target((int)i) + s.substr(l.size());
                    again = true;
                }
            }
            if (!again)
                break;
        }
    }
    return s;
}
// the entry of that name: a link is not followed
inline int find_node(char const * p)
{
    return plain_node(without_links(p));
}
// where a name leads to
inline std::string followed(std::string s)
{
    for (unsigned hops = 0; E->links && hops < 8; ++hops)
    {
        int n = find_node(s.c_str());
        if (n < 0 || E->nodes[n].kind != 'l')
            break;
        s = link_target(n);
    }
    return s;
}
inline int parent_node(std::string s)
{
    s = without_links(s.c_str());
    size_t k = s.rfind('/');
    if (k == std::string::npos)
        s = ".";
    else if (k == 0)
        s = "/";
    else
        s.resize(k);
    int n = find_node(followed(s).c_str());
    return n;
}
inline int add_node(std::string p, char kind, bool r = true, bool w = true, std::string data = {})
{
    E->links = E->links || kind == 'l';
    E->nodes.push_back(inode{std::move(p), kind, r, w, std::move(data), false, 0});
    return (int)E->nodes.size() - 1;
}
inline void env_begin(env_state & e)
{
    E = &e;
    e.nodes.reserve(16);
    add_node("/", 'd');
    add_node(".", 'd');
    add_node("/home/u", 'd');
    add_node("/tmp", 'd');
}
inline bool has_children(int d)
{
    std::string pre = E->nodes[d].path + "/";
    for (auto & n : E->nodes)
        if (n.kind != '-' && n.path.compare(0, pre.size(), pre) == 0)
            return true;
    return false;
}
inline int err(int e)
{
    errno = e;
    return -1;
}
inline bool fault(char op)
{
    if (E->fault_op != op || E->fault_nth-- != 0)
        return false;
    E->fault_op = 0;
    ++E->faults_hit;
    errno = E->fault_errno;
    return true;
}
// hook for harnesses that need symbolic file names: all paths given to the OS resolve through it
inline int (*resolve)(char const *) = nullptr;
inline int (*system_answer)(char const *) = nullptr; // what a command returns
inline int node_of(char const * p)
{
    E->fs_touched = true;
    return resolve ? resolve(p) : find_node(p);
}
// the entry a name leads to
inline int target_of(char const * p)
{
    return E->links ? node_of(followed(p).c_str()) : node_of(p);
}
inline int fill_stat(char const * p, struct stat * st, bool follow = true)
{
    if (fault('s'))
        return -1;
    int n = follow || p[strlen(p) - (*p != 0)] == '/' ? target_of(p) : node_of(p);
    if (n < 0)
        return err(n == -2 ? EACCES : ENOENT);
    memset(st, 0, sizeof *st);
    st->st_mode = E->nodes[n].kind == 'd' ? (S_IFDIR | 0755) : E->nodes[n].kind == 'p' ? (S_IFIFO | 0644) : E->nodes[n].kind == 'l' ? (S_IFLNK | 0777) : (S_IFREG | 0644);
    return 0;
}
inline int do_mkdir(char const * p)
{
    if (fault('m'))
        return -1;
    int n = node_of(p);
    if (n >= 0)
        return err(EEXIST);
    int d = parent_node(p);
    if (d < 0)
        return err(ENOENT);
    if (E->nodes[d].kind != 'd')
        return err(ENOTDIR);
    if (!E->nodes[d].writable)
        return err(EACCES);
    if (n == -2)
        return err(EACCES);
    std::string s{p};
    while (s.size() > 1 && s.back() == '/')
        s.pop_back();
    if (E->links)
        s = without_links(s.c_str());
    int k = add_node(s, 'd', true, !E->mkdir_protected);
    E->nodes[k].created_now = true;
    return 0;
}
inline int do_unlink(char const * p, bool dir)
{
    if (fault('u'))
        return -1;
    int n = node_of(p);
    if (n < 0)
        return err(n == -2 ? EACCES : ENOENT);
    int d = parent_node(E->nodes[n].path);
    if (d >= 0 && !E->nodes[d].writable)
        return err(EACCES);
    if (dir)
    {
        if (E->nodes[n].kind != 'd')
            return err(ENOTDIR);
        if (has_children(n))
            return err(ENOTEMPTY);
        if (E->rmdir_fails)
            return err(EBUSY);
    }
    else
    {
        if (E->nodes[n].kind == 'd')
            return err(EISDIR);
        if (E->unlink_fails)
            return err(EBUSY);
    }
    if (!E->nodes[n].created_now)
        ++E->destructive;
    E->nodes[n].kind = '-';
    return 0;
}
inline int do_open(char const * p, bool rd, bool wr, bool create, bool trunc, bool append)
{
    if (fault('o'))
        return -1;
    std::string const goal = E->links ? followed(p) : std::string{p};
    p = goal.c_str();
    int n = node_of(p);
    if (n >= 0 && E->nodes[n].kind == 'l')
        return err(ELOOP);
    if (n == -2)
        return err(EACCES);
    if (n < 0)
    {
        if (!create)
            return err(ENOENT);
        int d = parent_node(p);
        if (d < 0)
            return err(ENOENT);
        if (E->nodes[d].kind != 'd')
            return err(ENOTDIR);
        if (!E->nodes[d].writable)
            return err(EACCES);
        n = add_node(E->links ? without_links(p) : p, 'f');
        E->nodes[n].created_now = true;
    }
    else
    {
        if (E->nodes[n].kind == 'd' && wr)
            return err(EISDIR);
        if (wr && !E->nodes[n].writable)
            return err(EACCES);
        if (rd && !E->nodes[n].readable)
            return err(EACCES);
        if (trunc)
        {
            if (!E->nodes[n].created_now)
            {
                ++E->destructive;
            }
            ++E->nodes[n].truncated;
            E->nodes[n].data.clear();
        }
    }
    E->files.push_back(open_file{n, append ? E->nodes[n].data.size() : 0, wr, rd, append});
    return FD_BASE + (int)E->files.size() - 1;
}
// opening a directory for reading its entries
inline int do_opendir(char const * p, bool follow = true)
{
    int n = follow ? target_of(p) : node_of(p);
    if (n < 0)
        return err(n == -2 ? EACCES : ENOENT);
    if (E->nodes[n].kind != 'd')
        return err(ENOTDIR);
    if (!E->nodes[n].readable)
        return err(EACCES);
    E->files.push_back(open_file{n, 0, false, true, false});
    return FD_BASE + (int)E->files.size() - 1;
}
// the path of a name relative to an open directory
inline std::string at(int dfd, char const * name)
{
    if (name[0] == '/' || dfd == AT_FDCWD || dfd < FD_BASE)
        return name;
    return E->nodes[E->files[dfd - FD_BASE].node].path + "/" + name;
}
inline FILE * fd_to_file(int fd)
{
    return reinterpret_cast<FILE *>(0x700000000000ull + 16ull * (fd - FD_BASE));
}
inline bool is_fake(FILE * f)
{
    return (uintptr_t)f >= 0x700000000000ull && (uintptr_t)f < 0x700000100000ull;
}
inline int file_to_fd(FILE * f)
{
    return FD_BASE + (int)(((uintptr_t)f - 0x700000000000ull) / 16);
}
inline bool is_fake(int fd)
{
    return E && fd >= FD_BASE && fd < FD_BASE + (int)E->files.size();
}
inline ssize_t do_write(int fd, char const * d, size_t n)
{
    auto & f = E->files[fd - FD_BASE];
    if (!f.wr)
        return err(EBADF);
    if (E->write_fails)
        return err(ENOSPC);
    E->nodes[f.node].data.append(d, n);
    f.pos += n;
    return (ssize_t)n;
}
} // namespace vp

extern "C"
{
inline char ** vp_environ()
{
    extern char ** environ;
    return environ;
}
__attribute__((used, noinline)) char * getenv(char const * n) noexcept
{
    if (vp::E)
    {
        if (!strcmp(n, "HOME"))
            return vp::E->home_set ? const_cast<char *>(vp::E->home.c_str()) : nullptr;
        if (vp::E->tmpdir && !strcmp(n, "TMPDIR"))
            return const_cast<char *>(vp::E->tmpdir->c_str());
        if (!strcmp(n, "SHARG_NO_VERSION_CHECK"))
            return vp::E->no_version_check ? const_cast<char *>("1") : nullptr;
        return nullptr;
    }
    size_t l = __builtin_strlen(n);
    if (char ** e = vp_environ())
        for (; *e; ++e)
            if (!strncmp(*e, n, l) && (*e)[l] == '=')
                return *e + l + 1;
    return nullptr;
}
__attribute__((used)) char * secure_getenv(char const * n) noexcept
{
    return getenv(n);
}
__attribute__((used)) int isatty(int fd) noexcept
{
    if (vp::E)
        return vp::E->tty && (fd != 0 || vp::E->tty_in) && (fd != 2 || vp::E->tty_err);
    struct termios_like { char b[256]; } t;
    return syscall(SYS_ioctl, fd, 0x5401 /*TCGETS*/, &t) == 0;
}
__attribute__((used)) int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void * a = va_arg(ap, void *);
    va_end(ap);
    if (vp::E && req == TIOCGWINSZ)
    {
        if (!vp::E->tty)
            return vp::err(ENOTTY);
        ((winsize *)a)->ws_col = (unsigned short)vp::E->columns;
        return 0;
    }
    if (vp::E && vp::is_fake(fd))
        return vp::err(ENOTTY);
    return (int)syscall(SYS_ioctl, fd, req, a);
}
__attribute__((used)) int system(char const * c)
{
    if (vp::E)
    {
        vp::E->system_calls.push_back(c);
        return vp::system_answer ? vp::system_answer(c) : vp::E->system_result;
    }
    abort();
}
__attribute__((used)) int stat(char const * p, struct stat * st) noexcept
{
    if (vp::E)
        return vp::fill_stat(p, st);
    return (int)syscall(SYS_stat, p, st);
}
__attribute__((used)) int lstat(char const * p, struct stat * st) noexcept
{
    if (vp::E)
        return vp::fill_stat(p, st, false);
    return (int)syscall(SYS_lstat, p, st);
}
__attribute__((used)) int mkdir(char const * p, mode_t m) noexcept
{
    if (vp::E)
        return vp::do_mkdir(p);
    return (int)syscall(SYS_mkdir, p, m);
}
__attribute__((used)) int remove(char const * p) noexcept
{
    if (vp::E)
    {
        int n = vp::node_of(p);
        return vp::do_unlink(p, n >= 0 && vp::E->nodes[n].kind == 'd');
    }
    return vp::err(EPERM);
}
inline int vp_open(char const * p, int fl)
{
    if (fl & O_DIRECTORY)
        return vp::do_opendir(p, !(fl & O_NOFOLLOW));
    int acc = fl & O_ACCMODE;
    return vp::do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND);
}
__attribute__((used)) int open(char const * p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = fl & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    if (vp::E)
        return vp_open(p, fl);
    return (int)syscall(SYS_open, p, fl, mode);
}
__attribute__((used)) int openat(int d, char const * p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int mode = fl & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    if (vp::E)
        return vp_open(vp::at(d, p).c_str(), fl);
    return (int)syscall(SYS_openat, d, p, fl, mode);
}
__attribute__((used)) int __openat_2(int d, char const * p, int fl) // fortified: called by libstdc++.so
{
    return openat(d, p, fl);
}
__attribute__((used)) int unlinkat(int d, char const * p, int fl) noexcept
{
    if (vp::E)
        return vp::do_unlink(vp::at(d, p).c_str(), fl & AT_REMOVEDIR);
    return vp::err(EPERM);
}
__attribute__((used)) int close(int fd)
{
    if (vp::is_fake(fd))
        return 0;
    return (int)syscall(SYS_close, fd);
}
__attribute__((used)) ssize_t readlink(char const * p, char * b, size_t n) noexcept
{
    if (vp::E)
    {
        int k = vp::node_of(p);
        if (k < 0)
            return vp::err(k == -2 ? EACCES : ENOENT);
        if (vp::E->nodes[k].kind != 'l')
            return vp::err(EINVAL);
        std::string const & t = vp::E->nodes[k].data;
        if (n > t.size())
            n = t.size();
        memcpy(b, t.data(), n);
        return (ssize_t)n;
    }
    return (ssize_t)syscall(SYS_readlink, p, b, n);
}
__attribute__((used)) char * getcwd(char * b, size_t n) noexcept
{
    if (vp::E)
    {
        if (!b)
            b = (char *)malloc(n < 3 ? 3 : n);
        memcpy(b, "/w", 3);
        return b;
    }
    if (!b)
        b = (char *)malloc(n = n ? n : 4096);
    return syscall(SYS_getcwd, b, n) < 0 ? nullptr : b;
}
__attribute__((used)) char * realpath(char const * p, char * b) noexcept
{
    if (!vp::E)
        abort();
    int n = vp::target_of(p);
    if (n < 0)
    {
        errno = n == -2 ? EACCES : ENOENT;
        return nullptr;
    }
    std::string r = vp::E->nodes[n].path;
    if (r == ".")
        r = "/w";
    else if (r[0] != '/')
        r = "/w/" + r;
    if (!b)
        b = (char *)malloc(r.size() + 1);
    memcpy(b, r.c_str(), r.size() + 1);
    return b;
}
struct vp_dir
{
    int fd;
    std::vector<std::string> names;
    size_t pos;
    dirent ent;
};
__attribute__((used)) DIR * fdopendir(int fd)
{
    if (!vp::is_fake(fd))
        abort();
    auto * d = new vp_dir{fd, {}, 0, {}};
    std::string pre = vp::E->nodes[vp::E->files[fd - vp::FD_BASE].node].path + "/";
    for (auto & n : vp::E->nodes)
        if (n.kind != '-' && n.path.compare(0, pre.size(), pre) == 0 && n.path.find('/', pre.size()) == std::string::npos)
            d->names.push_back(n.path.substr(pre.size()));
    return (DIR *)d;
}
__attribute__((used)) DIR * opendir(char const * p)
{
    if (!vp::E)
        abort();
    int fd = vp::do_opendir(p);
    return fd < 0 ? nullptr : fdopendir(fd);
}
__attribute__((used)) dirent * readdir(DIR * x)
{
    auto * d = (vp_dir *)x;
    if (d->pos >= d->names.size())
        return nullptr;
    memset(&d->ent, 0, sizeof d->ent);
    strncpy(d->ent.d_name, d->names[d->pos++].c_str(), sizeof d->ent.d_name - 1);
    d->ent.d_type = DT_UNKNOWN;
    return &d->ent;
}
__attribute__((used)) int closedir(DIR * x)
{
    delete (vp_dir *)x;
    return 0;
}
__attribute__((used)) int dirfd(DIR * x) noexcept
{
    return ((vp_dir *)x)->fd;
}
__attribute__((used)) FILE * fopen(char const * p, char const * mode)
{
    if (vp::E)
    {
        bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != nullptr;
        int fd = vp::do_open(p, r || plus, w || a || plus, !r, w, a);
        return fd < 0 ? nullptr : vp::fd_to_file(fd);
    }
    int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = (int)syscall(SYS_open, p, fl, 0644);
    return fd < 0 ? nullptr : fdopen(fd, mode);
}
int _IO_fclose(FILE *);
__attribute__((used)) int fclose(FILE * f)
{
    if (vp::is_fake(f))
        return 0;
    return _IO_fclose(f);
}
__attribute__((used)) int fileno(FILE * f) noexcept
{
    if (vp::is_fake(f))
        return vp::file_to_fd(f);
    return fileno_unlocked(f);
}
int _IO_fflush(FILE *);
__attribute__((used)) int fflush(FILE * f)
{
    if (vp::is_fake(f))
        return 0;
    return fflush_unlocked(f);
}
__attribute__((used)) ssize_t write(int fd, void const * d, size_t n)
{
    if (vp::is_fake(fd))
        return vp::do_write(fd, (char const *)d, n);
    return syscall(SYS_write, fd, d, n);
}
struct iovec;
__attribute__((used)) ssize_t writev(int fd, iovec const * v, int c)
{
    struct iov { char const * p; size_t n; };
    if (vp::is_fake(fd))
    {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i)
        {
            auto * q = (iov const *)v + i;
            if (!q->n)
                continue;
            ssize_t r = vp::do_write(fd, q->p, q->n);
            if (r < 0)
                return r;
            t += r;
        }
        return t;
    }
    return syscall(SYS_writev, fd, v, c);
}
__attribute__((used)) ssize_t read(int fd, void * d, size_t n)
{
    if (vp::is_fake(fd))
    {
        auto & f = vp::E->files[fd - vp::FD_BASE];
        auto & data = vp::E->nodes[f.node].data;
        if (vp::E->nodes[f.node].kind == 'd')
            return vp::err(EISDIR);
        if (!f.rd)
            return vp::err(EBADF);
        size_t k = f.pos >= data.size() ? 0 : data.size() - f.pos;
        if (k > n)
            k = n;
        char * out = (char *)d;
        for (size_t i = 0; i < k; ++i)
            out[i] = data[f.pos + i];
        f.pos += k;
        return (ssize_t)k;
    }
    return syscall(SYS_read, fd, d, n);
}
__attribute__((used)) off_t lseek(int fd, off_t o, int w) noexcept
{
    if (vp::is_fake(fd))
        return 0;
    return (off_t)syscall(SYS_lseek, fd, o, w);
}
__attribute__((used)) int fstat(int fd, struct stat * st) noexcept
{
    if (vp::is_fake(fd))
    {
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        return 0;
    }
    return (int)syscall(SYS_fstat, fd, st);
}
} // extern C
