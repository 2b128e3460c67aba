#pragma once
#include <string>
#include <stdexcept>
#include <pthread.h>
#include <unistd.h>
#include "shadow_fs.h"
// POSIX record locks belong to the process: within one process they never exclude each other, the first
// unlock releases them, and so does closing any descriptor of the file.  The model keeps the lock state of
// this process per file and of one other process, which harnesses set.
extern "C" { void sym_end_path(); int eng_yield(); }
namespace boost { namespace interprocess {
struct interprocess_exception : std::exception { const char* what() const noexcept override { return "interprocess"; } };
struct _flock_state { std::shared_ptr<std::filesystem::_node> node; int mode = 0; int other = 0; }; // 0 none, 1 shared, 2 exclusive
inline std::vector<_flock_state>& _flocks() { static std::vector<_flock_state> v; return v; }
inline _flock_state& _flock(const std::shared_ptr<std::filesystem::_node>& n) { for (auto& s : _flocks()) if (s.node == n) return s; _flocks().push_back(_flock_state{n}); return _flocks().back(); }
class file_lock
{
public:
    file_lock() {}
    explicit file_lock(const char* p) { int e; n_ = std::filesystem::_find(std::filesystem::path(p), e); if (!n_) throw interprocess_exception(); }
    file_lock(file_lock&& o) noexcept : n_(std::move(o.n_)) { o.n_ = nullptr; }
    file_lock& operator=(file_lock&& o) noexcept { file_lock m(std::move(o)); m.swap(*this); return *this; }
    file_lock(const file_lock&) = delete; file_lock& operator=(const file_lock&) = delete;
    ~file_lock() { if (!n_) return; eng_yield(); _flock(n_).mode = 0; }
    void lock() { if (!try_lock()) sym_end_path(); }
    bool try_lock() { eng_yield(); auto& s = _flock(n_); if (s.other) return false; s.mode = 2; return true; }
    void unlock() { eng_yield(); _flock(n_).mode = 0; }
    void lock_sharable() { if (!try_lock_sharable()) sym_end_path(); }
    bool try_lock_sharable() { eng_yield(); auto& s = _flock(n_); if (s.other == 2) return false; s.mode = 1; return true; }
    void unlock_sharable() { eng_yield(); _flock(n_).mode = 0; }
    void swap(file_lock& o) { n_.swap(o.n_); }
private:
    std::shared_ptr<std::filesystem::_node> n_;
};
}}
