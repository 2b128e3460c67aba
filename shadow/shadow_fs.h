// Lexical POSIX std::filesystem::path plus an in-memory file tree (no symlinks, no permissions).  Used
// only when the sources are compiled for symbolic execution; replays use the real file system.
#pragma once
#include "shadow_ios.h"
#include <string>
#include <vector>
#include <memory>
#include <system_error>
#include <chrono>
#include <iterator>
#include <functional>

namespace std
{
namespace filesystem
{
class path
{
public:
    typedef char value_type; typedef std::string string_type; static constexpr char preferred_separator = '/';
    enum format { native_format, generic_format, auto_format };
    path() noexcept {}
    path(const path&) = default;
    path(path&& o) noexcept : s_(std::move(o.s_)) { o.s_.clear(); }
    path(std::string&& s, format = auto_format) : s_(std::move(s)) {}
    path(const std::string& s, format = auto_format) : s_(s) {}
    path(std::string_view s, format = auto_format) : s_(s) {}
    path(const char* s, format = auto_format) : s_(s) {}
    template<class It> path(It a, It b, format = auto_format) : s_(a, b) {}
    path& operator=(const path&) = default;
    path& operator=(path&& o) noexcept { s_ = std::move(o.s_); o.s_.clear(); return *this; }
    path& operator=(const std::string& s) { s_ = s; return *this; }
    path& operator=(const char* s) { s_ = s; return *this; }
    path& assign(const std::string& s) { s_ = s; return *this; }
    path& operator/=(const path& p) { if (p.is_absolute()) { s_ = p.s_; return *this; } if (has_filename()) s_ += '/'; s_ += p.s_; return *this; }
    path& append(const path& p) { return *this /= p; }
    path& operator+=(const path& p) { s_ += p.s_; return *this; }
    path& operator+=(const std::string& p) { s_ += p; return *this; }
    path& operator+=(std::string_view p) { s_.append(p.data(), p.size()); return *this; }
    path& operator+=(const char* p) { s_ += p; return *this; }
    path& operator+=(char c) { s_ += c; return *this; }
    path& concat(const std::string& p) { s_ += p; return *this; }
    void clear() noexcept { s_.clear(); }
    path& make_preferred() { return *this; }
    path& remove_filename() { s_.resize(fnpos()); return *this; }
    path& replace_filename(const path& p) { remove_filename(); return *this /= p; }
    path& replace_extension(const path& r = path()) { std::string e = extension().s_; s_.resize(s_.size() - e.size()); if (!r.s_.empty()) { if (r.s_[0] != '.') s_ += '.'; s_ += r.s_; } return *this; }
    void swap(path& o) noexcept { s_.swap(o.s_); }
    const std::string& native() const noexcept { return s_; }
    const char* c_str() const noexcept { return s_.c_str(); }
    operator std::string() const { return s_; }
    std::string string() const { return s_; } std::string u8string() const { return s_; } std::string generic_string() const { return s_; } std::string generic_u8string() const { return s_; }
    std::wstring wstring() const { return std::wstring(s_.begin(), s_.end()); }
    int compare(const path& o) const noexcept { auto a = parts(), b = o.parts(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) { int c = a[i].compare(b[i]); if (c) return c; } return a.size() < b.size() ? -1 : a.size() > b.size(); }
    path root_name() const { return path(); }
    path root_directory() const { return has_root_directory() ? path("/") : path(); }
    path root_path() const { return root_directory(); }
    path relative_path() const { size_t i = 0; while (i < s_.size() && s_[i] == '/') ++i; return path(s_.substr(i)); }
    path parent_path() const
    {
        size_t b = 0; while (b < s_.size() && s_[b] == '/') ++b;
        if (b == s_.size()) return *this;
        size_t e = fnpos(); while (e > b && s_[e - 1] == '/') --e;
        return e <= b ? (b ? path(s_.substr(0, b)) : path()) : path(s_.substr(0, e));
    }
    path filename() const { return path(s_.substr(fnpos())); }
    path stem() const { auto f = s_.substr(fnpos()); return path(f.substr(0, f.size() - ext(f))); }
    path extension() const { auto f = s_.substr(fnpos()); return path(f.substr(f.size() - ext(f))); }
    bool empty() const noexcept { return s_.empty(); }
    bool has_root_name() const { return false; }
    bool has_root_directory() const { return !s_.empty() && s_[0] == '/'; }
    bool has_root_path() const { return has_root_directory(); }
    bool has_relative_path() const { return !relative_path().empty(); }
    bool has_parent_path() const { return !parent_path().empty(); }
    bool has_filename() const { return fnpos() < s_.size(); }
    bool has_stem() const { return !stem().empty(); }
    bool has_extension() const { return !extension().empty(); }
    bool is_absolute() const { return has_root_directory(); }
    bool is_relative() const { return !is_absolute(); }
    path lexically_normal() const
    {
        if (s_.empty()) return path();
        std::vector<std::string> out; bool abs = is_absolute(), trail = false;
        for (auto& c : parts()) {
            trail = false;
            if (c == "/") continue;
            if (c.empty() || c == ".") { trail = true; continue; }
            if (c == "..") { if (!out.empty() && out.back() != "..") { out.pop_back(); trail = true; } else if (!abs) out.push_back(c); else trail = false; continue; }
            out.push_back(c);
        }
        std::string r = abs ? "/" : "";
        for (size_t i = 0; i < out.size(); ++i) { if (i) r += '/'; r += out[i]; }
        if (trail && !out.empty() && out.back() != "..") r += '/';
        if (r.empty()) r = ".";
        return path(r);
    }
    path lexically_relative(const path& base) const
    {
        if (is_absolute() != base.is_absolute()) return path();
        auto a = parts(), b = base.parts(); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        if (i == a.size() && i == b.size()) return path(".");
        int n = 0; for (size_t k = i; k < b.size(); ++k) { if (b[k] == "..") --n; else if (!b[k].empty() && b[k] != ".") ++n; }
        if (n < 0) return path();
        if (n == 0 && (i == a.size() || a[i].empty())) return path(".");
        path r; for (; n > 0; --n) r /= ".."; for (; i < a.size(); ++i) r /= path(a[i]); return r;
    }
    path lexically_proximate(const path& b) const { path r = lexically_relative(b); return r.empty() ? *this : r; }
    class iterator
    {
    public:
        typedef bidirectional_iterator_tag iterator_category; typedef path value_type; typedef ptrdiff_t difference_type; typedef const path* pointer; typedef const path& reference;
        iterator() {}
        iterator(std::shared_ptr<std::vector<path>> v, size_t i) : v_(std::move(v)), i_(i) {}
        const path& operator*() const { return (*v_)[i_]; } const path* operator->() const { return &(*v_)[i_]; }
        iterator& operator++() { ++i_; return *this; } iterator operator++(int) { auto t = *this; ++i_; return t; }
        iterator& operator--() { --i_; return *this; }
        bool operator==(const iterator& o) const { return i_ == o.i_; } bool operator!=(const iterator& o) const { return i_ != o.i_; }
    private: std::shared_ptr<std::vector<path>> v_; size_t i_ = 0;
    };
    typedef iterator const_iterator;
    iterator begin() const { return iterator(pv(), 0); }
    iterator end() const { return iterator(nullptr, parts().size()); }
    std::vector<std::string> parts() const
    {
        std::vector<std::string> r; size_t i = 0, n = s_.size();
        if (n && s_[0] == '/') { r.push_back("/"); while (i < n && s_[i] == '/') ++i; if (i == n) return r; }
        while (i < n) { size_t j = i; while (j < n && s_[j] != '/') ++j; r.push_back(s_.substr(i, j - i)); if (j == n) return r; while (j < n && s_[j] == '/') ++j; i = j; if (i == n) r.push_back(""); }
        return r;
    }
    friend path operator/(const path& a, const path& b) { path r(a); r /= b; return r; }
    friend bool operator==(const path& a, const path& b) { return a.compare(b) == 0; }
    friend bool operator!=(const path& a, const path& b) { return a.compare(b) != 0; }
    friend bool operator<(const path& a, const path& b) { return a.compare(b) < 0; }
    friend bool operator>(const path& a, const path& b) { return a.compare(b) > 0; }
    friend bool operator<=(const path& a, const path& b) { return a.compare(b) <= 0; }
    friend bool operator>=(const path& a, const path& b) { return a.compare(b) >= 0; }
    friend std::ostream& operator<<(std::ostream& o, const path& p) { return o << std::quoted(p.s_); }
private:
    size_t fnpos() const { size_t i = s_.size(); while (i > 0 && s_[i - 1] != '/') --i; return i; }
    static size_t ext(const std::string& f) { if (f.empty() || f == "." || f == "..") return 0; size_t i = f.size(); while (i > 0 && f[i - 1] != '.') --i; if (i <= 1) return 0; return f.size() - (i - 1); }
    std::shared_ptr<std::vector<path>> pv() const { auto v = std::make_shared<std::vector<path>>(); for (auto& p : parts()) v->push_back(path(p)); return v; }
    std::string s_;
};
inline size_t hash_value(const path& p) noexcept { return std::hash<std::string>()(p.native()); }
inline void swap(path& a, path& b) noexcept { a.swap(b); }
template<class S> path u8path(const S& s) { return path(std::string(s)); }
template<class I> path u8path(I a, I b) { return path(std::string(a, b)); }

class filesystem_error : public std::system_error
{
public:
    filesystem_error(const std::string& s, std::error_code c) : system_error(c, "filesystem error: " + s) {}
    filesystem_error(const std::string& s, const path& p, std::error_code c) : system_error(c, "filesystem error: " + s + " [" + p.native() + "]"), p1_(p) {}
    filesystem_error(const std::string& s, const path& p, const path& q, std::error_code c) : system_error(c, "filesystem error: " + s), p1_(p), p2_(q) {}
    const path& path1() const noexcept { return p1_; } const path& path2() const noexcept { return p2_; }
private: path p1_, p2_;
};
enum class file_type : signed char { none = 0, not_found = -1, regular = 1, directory = 2, symlink = 3, block = 4, character = 5, fifo = 6, socket = 7, unknown = 8 };
enum class perms : unsigned { none = 0, all = 0777, unknown = 0xFFFF };
enum class copy_options : unsigned short { none = 0, skip_existing = 1, overwrite_existing = 2, update_existing = 4, recursive = 8 };
class file_status { file_type t_; public: file_status(file_type t = file_type::none) : t_(t) {} file_type type() const { return t_; } perms permissions() const { return perms::all; } };
struct space_info { uintmax_t capacity, free, available; };
typedef std::chrono::time_point<std::chrono::system_clock> file_time_type;

// ---- the file tree
struct _node { std::string path; bool dir; std::string data; long mtime = 0; bool link = false; }; // a symbolic link holds its target as data
struct _tree
{
    std::vector<std::shared_ptr<_node>> nodes; long clock = 1; size_t limit = (size_t)-1; // no file grows beyond this (RLIMIT_FSIZE)
    _tree() { mk("/", true); mk("/tmp", true); mk("/work", true); }
    std::shared_ptr<_node> mk(const std::string& p, bool d) { auto n = std::make_shared<_node>(); n->path = p; n->dir = d; n->mtime = clock++; nodes.push_back(n); return n; }
    std::shared_ptr<_node> get(const std::string& p) { for (auto& n : nodes) if (n->path == p) return n; return nullptr; }
};
inline _tree& _fs() { static _tree t; return t; }
// resolve to an absolute normalised name; ec set if an intermediate component is missing or no directory.
// leaf: returned even when it does not exist.
inline std::string _resolve(const path& p, int& err, bool follow = true, int depth = 0)
{
    err = 0;
    if (p.empty()) { err = ENOENT; return ""; }
    std::string cur = p.is_absolute() ? "/" : "/work";
    auto v = p.parts(); size_t k = v.size();
    for (size_t i = 0; i < k; ++i) {
        if (v[i] == "/") continue;
        auto n = _fs().get(cur);
        if (!n) { err = ENOENT; return ""; }
        if (!n->dir) { err = ENOTDIR; return ""; }
        if (v[i].empty() || v[i] == ".") continue;
        if (v[i] == "..") { size_t e = cur.rfind('/'); cur = e == 0 ? "/" : cur.substr(0, e); continue; }
        if (v[i].size() > 255) { err = ENAMETOOLONG; return ""; }
        std::string up = cur;
        if (cur != "/") cur += '/';
        cur += v[i];
        auto l = _fs().get(cur);
        if (l && l->link && (follow || i + 1 < k)) {
            if (depth > 8) { err = ELOOP; return ""; }
            cur = _resolve(l->data[0] == '/' ? path(l->data) : path(up) / path(l->data), err, true, depth + 1);
            if (err) return "";
        }
    }
    return cur;
}
inline std::shared_ptr<_node> _find(const path& p, int& err) { auto s = _resolve(p, err); if (err) return nullptr; auto n = _fs().get(s); if (!n) err = ENOENT; return n; }
inline std::error_code _ec(int e) { return std::error_code(e, std::generic_category()); }
inline file_status status(const path& p, std::error_code& ec) { int e; auto n = _find(p, e); ec = (e && e != ENOENT && e != ENOTDIR) ? _ec(e) : std::error_code(); if (!n) return file_status(file_type::not_found); return file_status(n->dir ? file_type::directory : file_type::regular); }
inline file_status status(const path& p) { std::error_code ec; auto s = status(p, ec); if (ec) throw filesystem_error("status", p, ec); return s; }
inline bool exists(file_status s) { return s.type() != file_type::not_found && s.type() != file_type::none; }
inline bool is_directory(file_status s) { return s.type() == file_type::directory; }
inline bool is_regular_file(file_status s) { return s.type() == file_type::regular; }
inline bool exists(const path& p) { return exists(status(p)); } inline bool exists(const path& p, std::error_code& ec) { return exists(status(p, ec)); }
inline bool is_directory(const path& p) { return is_directory(status(p)); } inline bool is_directory(const path& p, std::error_code& ec) { return is_directory(status(p, ec)); }
inline bool is_regular_file(const path& p) { return is_regular_file(status(p)); } inline bool is_regular_file(const path& p, std::error_code& ec) { return is_regular_file(status(p, ec)); }
inline std::shared_ptr<_node> _lfind(const path& p, int& err) { auto s = _resolve(p, err, false); if (err) return nullptr; auto n = _fs().get(s); if (!n) err = ENOENT; return n; }
inline bool is_symlink(const path& p) { int e; auto n = _lfind(p, e); return n && n->link; }
inline bool is_symlink(const path& p, std::error_code& ec) { ec.clear(); return is_symlink(p); }
inline bool is_symlink(file_status s) { return s.type() == file_type::symlink; }
inline file_status symlink_status(const path& p) { return is_symlink(p) ? file_status(file_type::symlink) : status(p); }
inline void create_symlink(const path& to, const path& p) { int e; auto s = _resolve(p, e, false); if (e || _fs().get(s)) throw filesystem_error("cannot create symlink", p, _ec(e ? e : EEXIST)); auto n = _fs().mk(s, false); n->data = to.native(); n->link = true; }
inline path read_symlink(const path& p) { int e; auto n = _lfind(p, e); if (!n || !n->link) throw filesystem_error("cannot read symlink", p, _ec(n ? EINVAL : e)); return path(n->data); }
inline path current_path() { return path("/work"); }
inline path temp_directory_path() { return path("/tmp"); } inline path temp_directory_path(std::error_code& ec) { ec.clear(); return path("/tmp"); }
inline path absolute(const path& p) { if (p.empty()) throw filesystem_error("cannot make absolute path", p, _ec(EINVAL)); return p.is_absolute() ? p : current_path() / p; }
inline path absolute(const path& p, std::error_code& ec) { ec.clear(); return p.is_absolute() ? p : current_path() / p; }
inline path canonical(const path& p) { int e; auto n = _find(p, e); if (!n) throw filesystem_error("cannot make canonical path", p, _ec(e)); return path(n->path); }
inline path weakly_canonical(const path& p) { return absolute(p).lexically_normal(); }
inline path relative(const path& p, const path& b = current_path()) { return weakly_canonical(p).lexically_relative(weakly_canonical(b)); }
inline bool equivalent(const path& a, const path& b) { int e, f; auto n = _find(a, e), m = _find(b, f); if (!n && !m) throw filesystem_error("cannot check file equivalence", a, b, _ec(ENOENT)); if (!n || !m) throw filesystem_error("cannot check file equivalence", a, b, _ec(ENOENT)); return n == m; }
inline bool equivalent(const path& a, const path& b, std::error_code& ec) { int e, f; auto n = _find(a, e), m = _find(b, f); if (!n || !m) { ec = _ec(ENOENT); return false; } ec.clear(); return n == m; }
inline bool create_directory(const path& p, std::error_code& ec)
{
    int e; auto s = _resolve(p, e); if (e) { ec = _ec(e); return false; }
    if (auto n = _fs().get(s)) { if (n->dir) ec.clear(); else ec = _ec(EEXIST); return false; }
    size_t k = s.rfind('/'); auto par = _fs().get(k == 0 ? "/" : s.substr(0, k)); if (!par) { ec = _ec(ENOENT); return false; } if (!par->dir) { ec = _ec(ENOTDIR); return false; }
    _fs().mk(s, true); ec.clear(); return true;
}
inline bool create_directory(const path& p) { std::error_code ec; bool b = create_directory(p, ec); if (ec) throw filesystem_error("cannot create directory", p, ec); return b; }
inline bool create_directories(const path& p, std::error_code& ec)
{
    if (p.empty()) { ec = _ec(ENOENT); return false; }
    ec.clear(); bool made = false; path cur = p.is_absolute() ? path("/") : path();
    for (auto& c : p.parts()) {
        if (c == "/" || c.empty()) continue;
        cur /= path(c); std::error_code e2; auto st = status(cur, e2); if (e2) { ec = e2; return false; }
        if (is_directory(st)) continue;
        if (exists(st)) { ec = _ec(ENOTDIR); return false; }
        if (create_directory(cur, ec)) made = true; if (ec) return false;
    }
    return made;
}
inline bool create_directories(const path& p) { std::error_code ec; bool b = create_directories(p, ec); if (ec) throw filesystem_error("cannot create directories", p, ec); return b; }
inline bool _below(const std::string& a, const std::string& d) { if (d == "/") return a != "/"; return a.size() > d.size() && a.compare(0, d.size(), d) == 0 && a[d.size()] == '/'; }
inline bool remove(const path& p, std::error_code& ec)
{
    int e; auto n = _lfind(p, e); if (!n) { if (e == ENOENT) ec.clear(); else ec = _ec(e); return false; }
    auto& v = _fs().nodes; if (n->dir) for (auto& m : v) if (_below(m->path, n->path)) { ec = _ec(ENOTEMPTY); return false; }
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == n) { v.erase(v.begin() + i); break; }
    ec.clear(); return true;
}
inline bool remove(const path& p) { std::error_code ec; bool b = remove(p, ec); if (ec) throw filesystem_error("cannot remove", p, ec); return b; }
inline uintmax_t remove_all(const path& p, std::error_code& ec)
{
    ec.clear(); int e; auto n = _lfind(p, e); if (!n) { if (e != ENOENT) { ec = _ec(e); return (uintmax_t)-1; } return 0; }
    uintmax_t k = 0; auto& v = _fs().nodes; for (size_t i = 0; i < v.size();) { if (v[i] == n || _below(v[i]->path, n->path)) { v.erase(v.begin() + i); ++k; } else ++i; }
    return k;
}
inline uintmax_t remove_all(const path& p) { std::error_code ec; auto k = remove_all(p, ec); if (ec) throw filesystem_error("cannot remove all", p, ec); return k; }
inline void rename(const path& a, const path& b) { int e, f; auto n = _find(a, e); if (!n) throw filesystem_error("cannot rename", a, b, _ec(e)); auto t = _resolve(b, f); if (f) throw filesystem_error("cannot rename", a, b, _ec(f)); std::error_code ec; if (!n->dir) remove(b, ec); std::string o = n->path; for (auto& m : _fs().nodes) if (m == n) m->path = t; else if (_below(m->path, o)) m->path = t + m->path.substr(o.size()); }
inline uintmax_t file_size(const path& p) { int e; auto n = _find(p, e); if (!n || n->dir) throw filesystem_error("cannot get file size", p, _ec(n ? EISDIR : e)); return n->data.size(); }
inline bool is_empty(const path& p) { int e; auto n = _find(p, e); if (!n) throw filesystem_error("cannot check if file is empty", p, _ec(e)); if (!n->dir) return n->data.empty(); for (auto& m : _fs().nodes) if (_below(m->path, n->path)) return false; return true; }
inline file_time_type last_write_time(const path& p) { int e; auto n = _find(p, e); if (!n) throw filesystem_error("cannot get file time", p, _ec(e)); return file_time_type(file_time_type::duration(n->mtime)); }
inline void last_write_time(const path& p, file_time_type t) { int e; auto n = _find(p, e); if (!n) throw filesystem_error("cannot set file time", p, _ec(e)); n->mtime = t.time_since_epoch().count(); }
inline bool copy_file(const path& a, const path& b, copy_options o = copy_options::none) { int e, f; auto n = _find(a, e); if (!n || n->dir) throw filesystem_error("cannot copy file", a, b, _ec(n ? EINVAL : e)); auto m = _find(b, f); if (m) { if (o == copy_options::skip_existing) return false; if (o != copy_options::overwrite_existing) throw filesystem_error("cannot copy file", a, b, _ec(EEXIST)); m->data = n->data; return true; } auto s = _resolve(b, f); if (f && f != ENOENT) throw filesystem_error("cannot copy file", a, b, _ec(f)); _fs().mk(s, false)->data = n->data; return true; }
inline void copy(const path& a, const path& b, copy_options o = copy_options::none) { copy_file(a, b, o); }
class directory_entry
{
public:
    directory_entry() {} explicit directory_entry(const class path& p) : p_(p) {}
    const filesystem::path& path() const noexcept { return p_; } operator const filesystem::path&() const noexcept { return p_; }
    bool is_directory() const { return filesystem::is_directory(p_); } bool is_regular_file() const { return filesystem::is_regular_file(p_); } bool exists() const { return filesystem::exists(p_); }
private: filesystem::path p_;
};
enum class directory_options : unsigned char { none = 0 };
template<bool R> class _dir_it
{
public:
    typedef input_iterator_tag iterator_category; typedef directory_entry value_type; typedef ptrdiff_t difference_type; typedef const directory_entry* pointer; typedef const directory_entry& reference;
    _dir_it() {}
    explicit _dir_it(const path& p) { std::error_code ec; init(p, ec); if (ec) throw filesystem_error("directory iterator cannot open directory", p, ec); }
    _dir_it(const path& p, std::error_code& ec) { init(p, ec); }
    const directory_entry& operator*() const { return (*v_)[i_]; } const directory_entry* operator->() const { return &(*v_)[i_]; }
    _dir_it& operator++() { ++i_; return *this; }
    bool operator==(const _dir_it& o) const { return at_end() == o.at_end() && (at_end() || (v_ == o.v_ && i_ == o.i_)); } bool operator!=(const _dir_it& o) const { return !(*this == o); }
    friend _dir_it begin(_dir_it i) { return i; } friend _dir_it end(const _dir_it&) { return _dir_it(); }
private:
    bool at_end() const { return !v_ || i_ >= v_->size(); }
    void init(const path& p, std::error_code& ec)
    {
        ec.clear(); int e; auto n = _find(p, e); if (!n) { ec = _ec(e); return; } if (!n->dir) { ec = _ec(ENOTDIR); return; }
        v_ = std::make_shared<std::vector<directory_entry>>(); size_t b = n->path == "/" ? 1 : n->path.size() + 1;
        for (auto& m : _fs().nodes) if (_below(m->path, n->path)) { std::string t = m->path.substr(b); if (R || t.find('/') == std::string::npos) v_->push_back(directory_entry(p / path(t))); }
    }
    std::shared_ptr<std::vector<directory_entry>> v_; size_t i_ = 0;
};
typedef _dir_it<false> directory_iterator; typedef _dir_it<true> recursive_directory_iterator;
} // namespace filesystem

template<class C, class T> class basic_filebuf : public basic_streambuf<C, T>
{
public:
    std::shared_ptr<filesystem::_node> n; size_t g = 0, p = 0; bool app = false, can_w = false, can_r = false, lost = false;
    bool is_open() const { return n != nullptr; }
    basic_filebuf* open(const filesystem::path& f, int m)
    {
        if (n) return nullptr;
        int e; auto s = filesystem::_resolve(f, e); bool w = m & (ios_base::out | ios_base::app);
        if (e) { errno = e; return nullptr; }
        auto x = filesystem::_fs().get(s);
        if (x && x->dir) { errno = EISDIR; return nullptr; }
        bool endslash = !f.native().empty() && f.native().back() == '/'; if (endslash) { errno = EISDIR; return nullptr; }
        if (!w) { if (!x) { errno = ENOENT; return nullptr; } }
        else {
            if (!x) {
                if ((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app))) { errno = ENOENT; return nullptr; }
                size_t k = s.rfind('/'); auto par = filesystem::_fs().get(k == 0 ? std::string("/") : s.substr(0, k)); if (!par) { errno = ENOENT; return nullptr; } if (!par->dir) { errno = ENOTDIR; return nullptr; }
                x = filesystem::_fs().mk(s, false);
            } else if ((m & ios_base::trunc) || !(m & (ios_base::app | ios_base::in))) { x->data.clear(); }
        }
        n = x; can_w = w; can_r = (m & ios_base::in); app = m & ios_base::app; lost = false; g = 0; p = (m & ios_base::ate) ? n->data.size() : 0; return this;
    }
    basic_filebuf* close() { if (!n) return nullptr; n.reset(); return lost ? nullptr : this; }
    int sync() override { return lost ? -1 : 0; }
    streamsize xsputn(const C* d, streamsize k) override { if (!n || !can_w) return 0; if (app) p = n->data.size(); std::string t; for (streamsize i = 0; i < k; ++i) t += (char)d[i]; if (p + k > (long long)filesystem::_fs().limit) { lost = true; t.resize(p < filesystem::_fs().limit ? filesystem::_fs().limit - p : 0); if (k >= 1024) k = t.size(); /* small writes are buffered and fail later */ } if (p == n->data.size()) n->data += t; else { size_t ov = n->data.size() > p ? n->data.size() - p : 0; if (ov > t.size()) ov = t.size(); n->data.replace(p, ov, t); } p += t.size(); n->mtime = filesystem::_fs().clock++; return k; }
    typename T::int_type underflow() override { return n && can_r && g < n->data.size() ? T::to_int_type((C)n->data[g]) : T::eof(); }
    typename T::int_type uflow() override { return n && can_r && g < n->data.size() ? T::to_int_type((C)n->data[g++]) : T::eof(); }
    long long seekoff_(long long o, int d, int w) override { if (!n) return -1; size_t& q = (w & ios_base::in) ? g : p; long long b = d == ios_base::beg ? 0 : d == ios_base::end ? (long long)n->data.size() : (long long)q; q = (size_t)(b + o); return b + o; }
};
#define SHADOW_FS(NAME, BASE, DEFM, ADD) \
    template<class C, class T> class NAME : public BASE<C, T> \
    { public: NAME() { this->init(&b_); } \
        explicit NAME(const char* s, int m = DEFM) { this->init(&b_); open(s, m); } explicit NAME(const std::string& s, int m = DEFM) { this->init(&b_); open(s, m); } explicit NAME(const filesystem::path& s, int m = DEFM) { this->init(&b_); open(s, m); } \
        NAME(NAME&& o) : b_(std::move(o.b_)) { this->init(&b_); this->clear(o.rdstate()); } \
        NAME& operator=(NAME&& o) { b_ = std::move(o.b_); this->clear(o.rdstate()); return *this; } \
        bool is_open() const { return b_.is_open(); } basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b_); } \
        void open(const char* s, int m = DEFM) { open(filesystem::path(s), m); } void open(const std::string& s, int m = DEFM) { open(filesystem::path(s), m); } \
        void open(const filesystem::path& s, int m = DEFM) { if (!b_.open(s, (m) | (ADD))) this->setstate(ios_base::failbit); else this->clear(); } \
        void close() { if (!b_.close()) this->setstate(ios_base::failbit); } \
      private: basic_filebuf<C, T> b_; };
SHADOW_FS(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
SHADOW_FS(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
SHADOW_FS(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)
} // namespace std
