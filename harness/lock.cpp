// C24: file locks, C23: file caches
#include "oslock.hpp"
#include <cosim/file_cache.hpp>
#include "cosim/utility/concurrency.hpp"
#include "cosim/utility/filesystem.hpp"
#include <memory>
#include <optional>
#include <thread>
#include <vector>
using namespace cosim;
using utility::file_lock;
using utility::file_lock_initial_state;
namespace fs = cosim::filesystem;
// every sequence of operations on up to three lock objects for two files (one of them also under other names)
extern "C" void h_lock_ops()
{
    int n = (int)sym_option("ops", 4), objects = (int)sym_option("objects", 3);
    auto d = scratch();
    // a symbolic link can only be told to name the same file when that exists
    const bool by_link = sym_flag("link");
    if (by_link) { spit(d / "a", ""); fs::create_symlink("a", d / "link"); }
    auto name = [&](int file, bool alias) { return file == 0 ? (alias ? by_link ? d / "link" : d / "." / "a" : d / "a") : d / "b"; };
    struct obj { std::optional<file_lock> l; int file = 0, mode = 0; };
    std::vector<obj> o(objects);
    int other = 0; // what another process holds on file a
    auto holders = [&](int file, int mode) { int k = 0; for (auto& x : o) if (x.l && x.file == file && x.mode == mode) ++k; return k; };
    auto can = [&](int file, int mode) { // would the lock be granted now?
        if (holders(file, 2)) return false;
        if (mode == 2 && holders(file, 1)) return false;
        if (file == 0 && (other == 2 || (mode == 2 && other))) return false;
        return true;
    };
    auto consistent = [&] {
        for (int f = 0; f < 2; ++f) {
            if (f == 0 && other) continue; // the other process' lock would show
            int want = holders(f, 2) ? 2 : holders(f, 1) ? 1 : 0;
            CHECK(os_lock::state(name(f, false)) == want, "other processes are locked out exactly while someone holds the lock, and as held");
        }
    };
    spit(d / "b", "");
    for (int k = 0; k < n; ++k) {
        int i = sym_choose("object", 0, objects - 1);
        obj& x = o[i];
        int op = sym_choose("op", 0, 8);
        if (!x.l) {
            if (op > 3) { sym_end_path(); }
            x.file = sym_flag("file"); bool alias = k > 0 && !x.file && i == 1;
            if (op == 0) { x.l.emplace(name(x.file, alias)); x.mode = 0; }
            else if (op == 1) { if (!can(x.file, 2)) sym_end_path(); x.l.emplace(name(x.file, alias), file_lock_initial_state::locked); x.mode = 2; }
            else if (op == 2) { if (!can(x.file, 1)) sym_end_path(); x.l.emplace(name(x.file, alias), file_lock_initial_state::locked_shared); x.mode = 1; }
            else { if (i || !fs::exists(d / "a") || holders(0, 2) || holders(0, 1) || sym_option("other", 1) == 0) sym_end_path(); x.file = 0; other = other ? 0 : sym_choose("other", 1, 2); os_lock::other(d / "a", other); }
        } else switch (op) {
            case 0: if (x.mode || !can(x.file, 2)) sym_end_path(); x.l->lock(); x.mode = 2; break;
            case 1: if (x.mode || !can(x.file, 1)) sym_end_path(); x.l->lock_shared(); x.mode = 1; break;
            case 2: case 3: {
                if (x.mode) sym_end_path();
                bool shared = op == 3;
                bool want = can(x.file, shared ? 1 : 2);
                bool got = shared ? x.l->try_lock_shared() : x.l->try_lock();
                CHECK(got == want, "a try succeeds exactly when nobody holds a conflicting lock");
                if (got) x.mode = shared ? 1 : 2;
                sym_reach(got ? "try succeeded" : "try failed");
                break; }
            case 4: if (x.mode == 0) sym_end_path(); if (x.mode == 2) x.l->unlock(); else x.l->unlock_shared(); x.mode = 0; break;
            case 5: x.l.reset(); x.mode = 0; break; // unlocks
            case 6: { // moved away and back
                file_lock m(std::move(*x.l));
                consistent();
                x.l.reset(); x.l.emplace(std::move(m));
                break; }
            default: sym_end_path();
        }
        consistent();
    }
    for (auto& x : o) { x.l.reset(); x.mode = 0; consistent(); }
    // everything has been released
    os_lock::other(d / "a", 0);
    for (int f = 0; f < 2; ++f) { file_lock l(name(f, false)); CHECK(l.try_lock(), "a released lock can be acquired again"); }
    sym_reach("end");
}
static fs::path g_file;
static int g_value, g_copy;
static void held(int mode) { CHECK(os_lock::state(g_file) == mode, "other processes are locked out while the lock is held"); }
static void locker(int how, int id)
{
    file_lock l(g_file);
    switch (how) {
        case 0: l.lock(); ++g_value; g_copy = g_value; held(2); l.unlock(); break;
        case 1: l.lock_shared(); held(1); CHECK(g_value == g_copy, "no writer while a shared lock is held"); l.unlock_shared(); break;
        case 2: if (l.try_lock()) { ++g_value; g_copy = g_value; held(2); l.unlock(); } break;
        case 3: if (l.try_lock_shared()) { held(1); CHECK(g_value == g_copy, "no writer while a shared lock is held"); l.unlock_shared(); } break;
        case 4: { std::lock_guard<file_lock> g(l); ++g_value; g_copy = g_value; } { std::lock_guard<file_lock> g(l); ++g_value; g_copy = g_value; } break;
    }
}
extern "C" void h_lock_threads()
{
    // threads that lock the same file, each through an object of its own; plain variables stand for what
    // the lock protects, so a missing exclusion is a data race
    g_file = scratch() / "f";
    int k = (int)sym_option("threads", 2);
    bool exists = sym_flag("exists");
    if (exists) spit(g_file, "");
    int max = (int)sym_option("hows", 4);
    std::vector<int> how;
    for (int i = 0; i <= k; ++i) { int h = sym_choose("how", 0, max); if (!how.empty() && i > 1 && h < how.back()) sym_end_path(); how.push_back(h); } // threads are interchangeable
    std::vector<std::thread> t;
    for (int i = 1; i <= k; ++i) t.emplace_back(locker, how[i], i);
    locker(how[0], 0);
    for (auto& x : t) x.join();
    int writes = 0, sure = 0;
    for (int h : how) { if (h == 0) { ++sure; ++writes; } if (h == 2) ++writes; if (h == 4) { sure += 2; writes += 2; } }
    CHECK(g_value >= sure && g_value <= writes, "no update under the lock is lost");
    file_lock l(g_file);
    CHECK(l.try_lock(), "a released lock can be acquired again");
    l.unlock();
    CHECK(os_lock::state(g_file) == 0, "nothing stays locked");
    sym_reach("end");
}
extern "C" void h_lock_one_object()
{
    // one lock object shared by several threads is not supported; one per thread, moved into the thread, is
    g_file = scratch() / "f";
    file_lock a(g_file), b(g_file);
    int v = 0;
    std::thread t([&v, l = std::move(a)]() mutable { l.lock(); ++v; l.unlock(); });
    b.lock(); ++v; b.unlock();
    t.join();
    CHECK(v == 2, "no update under the lock is lost");
    sym_reach("end");
}
// C23: every sequence of requests to the temporary cache
static bool inside(const fs::path& p, const fs::path& d)
{
    auto r = p.lexically_normal().lexically_relative(d.lexically_normal()).generic_string();
    return !r.empty() && r != "." && r != ".." && r.compare(0, 3, "../") != 0;
}
extern "C" void h_cache_temp()
{
    int n = (int)sym_option("ops", 5);
    fs::path tmproot;
    {
        temporary_file_cache c;
        // keys that look like path names are keys all the same
        static const char* const names[] = {"k", "", ".", "..", "a/b", "%2E", "k.data"};
        int nk = (int)sym_option("keys", 6);
        const std::string key[2] = {names[sym_choose("key1", 0, nk)], names[sym_choose("key2", 0, nk)]};
        bool same = key[0] == key[1];
        std::unique_ptr<file_cache::directory_rw> rw[2];
        std::unique_ptr<file_cache::directory_ro> ro[2][2];
        bool existed[2] = {false, false};
        fs::path path[2];
        for (int k = 0; k < n; ++k) {
            int i = sym_choose("i", 0, same ? 0 : 1);
            switch (sym_choose("op", 0, 3)) {
                case 0: { // read-write access
                    bool free = !rw[i] && !ro[i][0] && !ro[i][1];
                    bool ok = true;
                    std::unique_ptr<file_cache::directory_rw> g;
                    try { g = c.get_directory_rw(key[i]); } catch (const std::exception&) { ok = false; }
                    CHECK(ok == free, "read-write access is granted exactly when nobody uses the directory");
                    if (ok) {
                        CHECK(fs::is_directory(g->path()), "the directory exists");
                        if (!existed[i]) { path[i] = g->path(); existed[i] = true; CHECK(listing(g->path()).empty(), "a new directory is empty"); spit(g->path() / "mine", std::to_string(i)); }
                        rw[i] = std::move(g);
                    }
                    sym_reach(ok ? "rw granted" : "rw refused");
                    break; }
                case 1: case 2: { // read-only access
                    int slot = ro[i][0] ? 1 : 0;
                    if (ro[i][slot]) sym_end_path();
                    bool ok = true;
                    std::unique_ptr<file_cache::directory_ro> g;
                    try { g = c.get_directory_ro(key[i]); } catch (const std::exception&) { ok = false; }
                    CHECK(ok == (existed[i] && !rw[i]), "read-only access is granted exactly when the directory exists and nobody may write to it");
                    if (ok) { ro[i][slot] = std::move(g); CHECK(ro[i][slot]->path() == path[i], "the directory is the same every time"); CHECK(slurp(path[i] / "mine") == std::to_string(i), "the content is that of the key"); }
                    sym_reach(ok ? "ro granted" : "ro refused");
                    break; }
                case 3: // access is given up
                    if (rw[i]) rw[i].reset();
                    else if (ro[i][0] && ro[i][1]) ro[i][sym_flag("second")].reset();
                    else if (ro[i][0] || ro[i][1]) { ro[i][0].reset(); ro[i][1].reset(); }
                    else sym_end_path();
                    break;
            }
            if (existed[0] && existed[1]) {
                CHECK(path[0].lexically_normal() != path[1].lexically_normal() && !inside(path[0], path[1]) && !inside(path[1], path[0]), "different keys have separate directories");
            }
            for (int j = 0; j < 2; ++j) if (existed[j]) {
                if (tmproot.empty()) tmproot = fs::temp_directory_path();
                CHECK(inside(path[j], tmproot), "cache directories lie inside the cache");
                CHECK(slurp(path[j] / "mine") == std::to_string(j), "the content stays");
            }
        }
    }
    CHECK(tmproot.empty() || listing(tmproot).empty(), "the cache is removed in the end");
    sym_reach("end");
}
// sequences of requests to persistent caches for the same root (only ones that need not wait)
extern "C" void h_cache_persistent()
{
    int n = (int)sym_option("ops", 4);
    auto root = scratch() / "cache";
    static const char* const names[] = {"k", "", ".", "..", "a/b", "lock", "k.data"};
    int nk = (int)sym_option("keys", 6);
    std::string key[2] = {"k", "m"};
    if (nk > 0) for (auto& x : key) x = names[sym_choose("key", 0, nk)];
    if (key[0] == key[1]) sym_end_path();
    persistent_file_cache c1(root), c2(root);
    struct held { int i = 0; std::unique_ptr<file_cache::directory_rw> rw; std::unique_ptr<file_cache::directory_ro> ro; };
    std::vector<held> h;
    bool exists[2] = {false, false};
    fs::path path[2];
    auto writers = [&](int i) { int k = 0; for (auto& x : h) if (x.i == i && x.rw) ++k; return k; };
    auto readers = [&](int i) { int k = 0; for (auto& x : h) if (x.i == i && x.ro) ++k; return k; };
    for (int k = 0; k < n; ++k) {
        auto& c = sym_flag("which") ? c2 : c1;
        int i = sym_choose("i", 0, 1);
        switch (sym_choose("op", 0, 3)) {
            case 0: {
                if (writers(i) || readers(i)) sym_end_path(); // would wait
                held x; x.i = i; x.rw = c.get_directory_rw(key[i]);
                CHECK(fs::is_directory(x.rw->path()), "the directory exists");
                if (!exists[i]) { CHECK(listing(x.rw->path()).empty(), "a new directory is empty"); path[i] = x.rw->path(); exists[i] = true; spit(path[i] / "mine", std::to_string(i)); }
                CHECK(x.rw->path() == path[i], "the directory is the same every time");
                h.push_back(std::move(x));
                break; }
            case 1: {
                if (writers(i)) sym_end_path();
                held x; x.i = i; bool ok = true;
                try { x.ro = c.get_directory_ro(key[i]); } catch (const std::exception&) { ok = false; }
                CHECK(ok == exists[i], "read-only access is granted exactly when the directory exists");
                if (ok) { CHECK(x.ro->path() == path[i], "the directory is the same every time"); h.push_back(std::move(x)); }
                sym_reach(ok ? "ro granted" : "ro refused");
                break; }
            case 2:
                if (h.empty()) sym_end_path();
                h.erase(h.begin() + sym_choose("which", 0, (int)h.size() - 1));
                break;
            case 3: {
                c.cleanup();
                for (int j = 0; j < 2; ++j) {
                    if (writers(j) || readers(j)) CHECK(exists[j], "");
                    else if (exists[j] && !key[j].empty()) { CHECK(!fs::exists(path[j]), "cleaning up removes directories that are not in use"); exists[j] = false; }
                }
                sym_reach("cleaned");
                break; }
        }
        for (int j = 0; j < 2; ++j) if (exists[j]) {
            CHECK(inside(path[j], root), "cache directories lie inside the cache");
            CHECK(slurp(path[j] / "mine") == std::to_string(j), "a directory in use, or just created, keeps its content");
        }
        if (exists[0] && exists[1]) CHECK(path[0] != path[1] && !inside(path[0], path[1]) && !inside(path[1], path[0]), "different keys have separate directories");
    }
    sym_reach("end");
}
static int g_dir[2];
static void user(const fs::path& root, int what, int key)
{
    persistent_file_cache c(root);
    std::string k(1, (char)('a' + key));
    switch (what) {
        case 0: { auto d = c.get_directory_rw(k); ++g_dir[key]; CHECK(fs::exists(d->path()), "a directory in use stays"); break; }
        case 1: { try { auto d = c.get_directory_ro(k); volatile int x = g_dir[key]; (void)x; CHECK(fs::exists(d->path()), "a directory in use stays"); } catch (const std::logic_error&) { } break; }
        case 2: c.cleanup(); break;
    }
}
extern "C" void h_cache_threads()
{
    auto root = scratch() / "cache";
    int k = (int)sym_option("threads", 1);
    if (sym_flag("exists")) { user(root, 0, 0); }
    int n0 = g_dir[0];
    std::vector<int> what, key;
    for (int i = 0; i <= k; ++i) { what.push_back(sym_choose("what", 0, 2)); key.push_back(what.back() == 2 ? 0 : sym_choose("key", 0, (int)sym_option("keys", 2) - 1)); }
    std::vector<std::thread> t;
    for (int i = 1; i <= k; ++i) t.emplace_back(user, root, what[i], key[i]);
    user(root, what[0], key[0]);
    for (auto& x : t) x.join();
    int w[2] = {n0, 0};
    for (int i = 0; i <= k; ++i) if (what[i] == 0) ++w[key[i]];
    CHECK(g_dir[0] == w[0] && g_dir[1] == w[1], "writers exclude each other");
    sym_reach("end");
}
