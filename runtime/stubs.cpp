// Environment models that use the stream / file-system stand-ins.
#include "shadow_ios.h"
#include "shadow_fs.h"
#include <boost/interprocess/sync/file_lock.hpp>
#include <fcntl.h>
#include <stdarg.h>
namespace
{
template<class C> struct sink : std::basic_streambuf<C> { std::streamsize xsputn(const C*, std::streamsize n) override { return n; } };
sink<char> nul; sink<wchar_t> wnul;
}
namespace std { ostream cout(&nul), cerr(&nul), clog(&nul); istream cin(&nul); wostream wcout(&wnul); }
extern "C" {
// open(2)/close(2) as used for lock files
static std::vector<std::shared_ptr<std::filesystem::_node>>& fds() { static std::vector<std::shared_ptr<std::filesystem::_node>> v; return v; }
int open(const char* p, int flags, ...)
{
    eng_yield();
    int e; auto s = std::filesystem::_resolve(std::filesystem::path(p), e);
    if (e) { errno = e; return -1; }
    auto n = std::filesystem::_fs().get(s);
    if (n && n->dir) { errno = EISDIR; return -1; }
    if (!n) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        size_t k = s.rfind('/'); auto par = std::filesystem::_fs().get(k == 0 ? std::string("/") : s.substr(0, k));
        if (!par || !par->dir) { errno = ENOENT; return -1; }
        n = std::filesystem::_fs().mk(s, false);
    }
    fds().push_back(n);
    return 2 + (int)fds().size();
}
// closing a descriptor releases the process' record locks on the file
int close(int fd) { eng_yield(); if (fd >= 3 && fd < 3 + (int)fds().size() && fds()[fd - 3]) { boost::interprocess::_flock(fds()[fd - 3]).mode = 0; fds()[fd - 3] = nullptr; } return 0; }
}
