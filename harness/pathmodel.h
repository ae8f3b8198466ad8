#pragma once
// The out-of-line parts of std::filesystem::path (they are precompiled in libstdc++.so), written in
// the same layout, so that file names with symbolic bytes stay symbolic. Only in the symbolic build;
// the replay build uses the real ones, so every witness and counterexample is checked against them.
#ifdef VP_SYMBOLIC
#    include <filesystem>
#    include <memory>
#    include <new>
#    include <string>
#    include <string_view>
struct std::filesystem::path::_List::_Impl
{
    using value_type = _Cmpt;
    alignas(value_type) int _M_size;
    int _M_capacity;
    value_type * begin() { return reinterpret_cast<value_type *>(this + 1); }
    value_type * end() { return begin() + _M_size; }
    void clear()
    {
        for (int i = 0; i < _M_size; ++i)
            begin()[i].~value_type();
        _M_size = 0;
    }
    static _Impl * make(int cap)
    {
        auto * p = static_cast<_Impl *>(::operator new(sizeof(_Impl) + cap * sizeof(value_type)));
        p->_M_size = 0;
        p->_M_capacity = cap;
        return p;
    }
    _Impl * copy()
    {
        _Impl * p = make(_M_size);
        for (int i = 0; i < _M_size; ++i)
            ::new (p->begin() + i) value_type(begin()[i]);
        p->_M_size = _M_size;
        return p;
    }
    static _Impl * plain(_Impl * p) { return reinterpret_cast<_Impl *>(reinterpret_cast<uintptr_t>(p) & ~uintptr_t{3}); }
};
inline void std::filesystem::path::_List::_Impl_deleter::operator()(_Impl * p) const noexcept
{
    p = _Impl::plain(p);
    if (p)
    {
        p->clear();
        ::operator delete(p);
    }
}
inline std::filesystem::path::_List::_List() : _M_impl(reinterpret_cast<_Impl *>(_Type::_Filename))
{}
inline std::filesystem::path::_List::_List(const _List & o)
{
    if (_Impl * p = _Impl::plain(o._M_impl.get()); p && p->_M_size)
        _M_impl.reset(p->copy());
    else
        _M_impl.reset(reinterpret_cast<_Impl *>(static_cast<uintptr_t>(o.type())));
}
inline std::filesystem::path::_List & std::filesystem::path::_List::operator=(const _List & o)
{
    if (this != &o)
    {
        _List t(o);
        _M_impl.swap(t._M_impl);
    }
    return *this;
}
inline void std::filesystem::path::_List::type(_Type t) noexcept
{
    auto val = reinterpret_cast<uintptr_t>(_Impl::plain(_M_impl.release()));
    _M_impl.reset(reinterpret_cast<_Impl *>(val | static_cast<unsigned char>(t)));
}
inline int std::filesystem::path::_List::size() const noexcept
{
    _Impl * p = _Impl::plain(_M_impl.get());
    return p ? p->_M_size : 0;
}
inline bool std::filesystem::path::_List::empty() const noexcept
{
    return size() == 0;
}
inline void std::filesystem::path::_List::clear()
{
    if (_Impl * p = _Impl::plain(_M_impl.get()))
        p->clear();
}
inline std::filesystem::path::_Cmpt * std::filesystem::path::_List::begin() noexcept
{
    return _Impl::plain(_M_impl.get())->begin();
}
inline std::filesystem::path::_Cmpt * std::filesystem::path::_List::end() noexcept
{
    return _Impl::plain(_M_impl.get())->end();
}
inline std::filesystem::path::_Cmpt const * std::filesystem::path::_List::begin() const noexcept
{
    return _Impl::plain(_M_impl.get())->begin();
}
inline std::filesystem::path::_Cmpt const * std::filesystem::path::_List::end() const noexcept
{
    return _Impl::plain(_M_impl.get())->end();
}
inline std::filesystem::path::path(std::basic_string_view<value_type> s, _Type t) : _M_pathname(s)
{
    _M_cmpts.type(t);
}
inline std::filesystem::path::_Cmpt::_Cmpt(std::basic_string_view<value_type> s, _Type t, size_t pos) : path(s, t), _M_pos(pos)
{}
inline void std::filesystem::path::_M_split_cmpts()
{
    _M_cmpts._M_impl.reset(reinterpret_cast<_List::_Impl *>(static_cast<uintptr_t>(_Type::_Filename)));
    size_t n = _M_pathname.size();
    if (n == 0)
        return;
    struct part { size_t pos, len; _Type t; };
    part parts[48];
    int k = 0;
    size_t i = 0;
    if (_M_pathname[0] == '/')
    {
        parts[k++] = {0, 1, _Type::_Root_dir};
        while (i < n && _M_pathname[i] == '/')
            ++i;
    }
    while (i < n && k < 46)
    {
        size_t b = i;
        while (i < n && _M_pathname[i] != '/')
            ++i;
        parts[k++] = {b, i - b, _Type::_Filename};
        if (i < n)
        {
            while (i < n && _M_pathname[i] == '/')
                ++i;
            if (i == n)
                parts[k++] = {n, 0, _Type::_Filename};
        }
    }
    if (k == 1)
    {
        _M_cmpts.type(parts[0].t);
        return;
    }
    auto * im = _List::_Impl::make(k);
    for (int j = 0; j < k; ++j)
    {
        ::new (im->begin() + j) _Cmpt(std::basic_string_view<value_type>(_M_pathname.data() + parts[j].pos, parts[j].len), parts[j].t, parts[j].pos);
        im->_M_size = j + 1;
    }
    _M_cmpts._M_impl.reset(im); // _Type::_Multi is 0
}
inline std::pair<std::filesystem::path::string_type const *, std::size_t> std::filesystem::path::_M_find_extension() const noexcept
{
    string_type const * s = nullptr;
    if (_M_type() == _Type::_Filename)
        s = &_M_pathname;
    else if (_M_type() == _Type::_Multi && !_M_cmpts.empty())
    {
        _Cmpt const & c = *(_M_cmpts.end() - 1);
        if (c._M_type() == _Type::_Filename)
            s = &c._M_pathname;
    }
    if (s)
    {
        if (auto sz = s->size())
        {
            if (sz <= 2 && (*s)[0] == '.')
                return {s, string_type::npos};
            auto const pos = s->rfind('.');
            return {s, pos ? pos : string_type::npos};
        }
    }
    return {};
}
inline bool std::filesystem::path::has_root_directory() const noexcept
{
    return !_M_pathname.empty() && _M_pathname[0] == '/';
}
inline bool std::filesystem::path::has_filename() const noexcept
{
    return !_M_pathname.empty() && _M_pathname.back() != '/';
}
inline void std::filesystem::path::_M_append(std::basic_string_view<value_type> s)
{
    if (_M_pathname.empty() || (!s.empty() && s[0] == '/'))
        _M_pathname.assign(s);
    else
    {
        if (has_filename())
            _M_pathname += '/';
        _M_pathname.append(s);
    }
    _M_split_cmpts();
}
inline std::filesystem::path & std::filesystem::path::operator/=(path const & p)
{
    std::string s = p._M_pathname;
    _M_append(s);
    return *this;
}
inline std::filesystem::path std::filesystem::path::parent_path() const
{
    size_t n = _M_pathname.size();
    size_t root = 0;
    while (root < n && _M_pathname[root] == '/')
        ++root;
    if (root == n) // nothing behind the root
        return *this;
    size_t e = n;
    while (e > root && _M_pathname[e - 1] != '/')
        --e;
    while (e > root && _M_pathname[e - 1] == '/')
        --e;
    if (e == root)
        e = root ? root : 0;
    path p;
    p._M_pathname.assign(_M_pathname, 0, e);
    p._M_split_cmpts();
    return p;
}
inline int std::filesystem::path::compare(const path & p) const noexcept
{
    if (_M_pathname == p._M_pathname)
        return 0;
    if (has_root_directory() != p.has_root_directory())
        return has_root_directory() ? 1 : -1;
    auto parts = [](path const & q, string_type const ** out)
    {
        int n = 0;
        if (q._M_type() == _Type::_Multi)
        {
            for (_Cmpt const * c = q._M_cmpts.begin(); c != q._M_cmpts.end() && n < 48; ++c)
                if (c->_M_type() == _Type::_Filename)
                    out[n++] = &c->_M_pathname;
        }
        else if (q._M_type() == _Type::_Filename)
            out[n++] = &q._M_pathname;
        return n;
    };
    string_type const *a[48], *b[48];
    int na = parts(*this, a), nb = parts(p, b);
    for (int i = 0; i < na && i < nb; ++i)
        if (int r = a[i]->compare(*b[i]))
            return r;
    return na < nb ? -1 : na > nb;
}
#endif
