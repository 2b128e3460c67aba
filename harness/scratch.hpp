// A writable directory: the model file system's working directory, or the replay's scratch directory.
#pragma once
#include "sym.h"
#include <cosim/fs_portability.hpp>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <set>
#include <string>
#ifndef SYM_ENGINE
#include <csignal>
#include <sys/resource.h>
#endif
inline cosim::filesystem::path scratch()
{
#ifdef SYM_ENGINE
    return "/work";
#else
    const char* s = std::getenv("SYM_SCRATCH");
    return s ? s : "/nonexistent";
#endif
}
inline std::string slurp(const cosim::filesystem::path& p)
{
    std::ifstream f(p.string(), std::ios::binary);
    if (!f) return "<missing>";
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline void spit(const cosim::filesystem::path& p, const std::string& s)
{
    std::ofstream f(p.string(), std::ios::binary | std::ios::trunc);
    f.write(s.data(), (std::streamsize)s.size());
}
// names of everything below d, relative to it (directories with a trailing slash)
inline std::set<std::string> listing(const cosim::filesystem::path& d)
{
    std::set<std::string> r;
    for (auto& e : cosim::filesystem::recursive_directory_iterator(d)) {
        auto n = e.path().lexically_relative(d).generic_string();
        if (n == ".obs") continue;
        r.insert(cosim::filesystem::is_directory(e.path()) ? n + "/" : n);
    }
    return r;
}
// while this exists, no file can grow beyond n bytes
struct disk_limit
{
#ifdef SYM_ENGINE
    explicit disk_limit(size_t n) { std::filesystem::_fs().limit = n; }
    ~disk_limit() { std::filesystem::_fs().limit = (size_t)-1; }
#else
    rlimit old;
    explicit disk_limit(size_t n) { std::signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
    ~disk_limit() { setrlimit(RLIMIT_FSIZE, &old); }
#endif
};
