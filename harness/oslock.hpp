// What another process sees of (and does to) a lock file.
#pragma once
#include "scratch.hpp"
#ifdef SYM_ENGINE
#include <boost/interprocess/sync/file_lock.hpp>
struct os_lock
{
    // 0: not locked by us, 1: shared, 2: exclusively
    static int state(const cosim::filesystem::path& p) { eng_yield(); int e; auto n = std::filesystem::_find(std::filesystem::path(p.string()), e); return n ? boost::interprocess::_flock(n).mode : 0; }
    static void other(const cosim::filesystem::path& p, int mode) { int e; auto n = std::filesystem::_find(std::filesystem::path(p.string()), e); if (n) boost::interprocess::_flock(n).other = mode; }
};
#else
#include <fcntl.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
struct os_lock
{
    static int state(const cosim::filesystem::path& p)
    {
        sched_yield();
        pid_t c = fork();
        if (c == 0) {
            int fd = open(p.c_str(), O_RDWR);
            if (fd < 0) _exit(0);
            struct flock l = {};
            l.l_type = F_WRLCK; l.l_whence = SEEK_SET;
            syscall(SYS_fcntl, fd, F_GETLK, &l);
            _exit(l.l_type == F_UNLCK ? 0 : l.l_type == F_RDLCK ? 1 : 2);
        }
        int st = 0;
        waitpid(c, &st, 0);
        return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    }
    // a child process that holds the lock until told otherwise
    static void other(const cosim::filesystem::path& p, int mode)
    {
        static pid_t child = 0;
        static int to[2];
        if (child) { close(to[1]); int st; waitpid(child, &st, 0); child = 0; }
        if (!mode) return;
        int from[2];
        if (pipe(to) || pipe(from)) return;
        child = fork();
        if (child == 0) {
            close(to[1]); close(from[0]);
            int fd = open(p.c_str(), O_RDWR);
            struct flock l = {};
            l.l_type = mode == 2 ? F_WRLCK : F_RDLCK; l.l_whence = SEEK_SET;
            char c = fcntl(fd, F_SETLK, &l) ? '-' : '+';
            if (write(from[1], &c, 1) != 1) _exit(1);
            while (read(to[0], &c, 1) > 0) { }
            _exit(0);
        }
        close(to[0]); close(from[1]);
        char c = 0;
        if (read(from[0], &c, 1) != 1 || c != '+') sym_fail("replay: the other process could not lock the file");
        close(from[0]);
    }
};
#endif
