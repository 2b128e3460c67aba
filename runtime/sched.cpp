// Controlled scheduler for native replays of concurrent counterexamples: one thread runs at a time and
// every synchronisation operation is a scheduling point, decided by SCHED_SEED / SCHED_MODE.  The real
// operations are still executed (so ThreadSanitizer sees them), but only when they cannot block.
// exit 12: no thread can go on.
#include <chrono>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
namespace
{
enum class W { none, mutex, wr, rd, cond, join, futex };
struct thread
{
    volatile int turn = 0;
    bool done = false;
    W w = W::none;
    const void* addr = nullptr;
    unsigned val = 0;
    bool timed = false, timedOut = false;
    pthread_mutex_t* m = nullptr;
    pthread_t id{};
    uint64_t prio = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
};
struct lockstate { int owner = -1, count = 0, readers = 0; };
bool g_on = false;
thread g_t[64];
int g_n = 0;
__thread int me = -1;
// tables outside the instrumented allocator's view are fine: only the token holder touches them
struct table // no allocation: the allocator may be instrumented
{
    struct entry { const void* first; lockstate second; } e[512];
    int n = 0;
    entry* end() { return nullptr; }
    entry* find(const void* a) { for (int i = 0; i < n; ++i) if (e[i].first == a) return e + i; return nullptr; }
    lockstate& operator[](const void* a) { if (auto* x = find(a)) return x->second; if (n == 512) { printf("too many locks\n"); _exit(3); } e[n] = {a, lockstate()}; return e[n++].second; }
    void erase(entry* x) { *x = e[--n]; }
    void erase(const void* a) { if (auto* x = find(a)) erase(x); }
};
table g_table;
table* const g_locks = &g_table;
uint64_t g_rng;
int g_mode;
long g_points = 0;
uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng * 0x2545F4914F6CDD1Dull >> 11; }
template<typename F> F real(const char* n, const char* v = nullptr) { void* p = v ? dlvsym(RTLD_NEXT, n, v) : nullptr; if (!p) p = dlsym(RTLD_NEXT, n); return (F)p; }
void fwait(volatile int* a) { while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); *a = 0; }
void fwake(volatile int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
bool enabled(int i)
{
    thread& t = g_t[i];
    if (t.done) return false;
    switch (t.w) {
        case W::none: return true;
        case W::mutex: case W::wr: { auto it = g_locks->find(t.addr); return it == g_locks->end() || (it->second.owner < 0 && it->second.readers == 0); }
        case W::rd: { auto it = g_locks->find(t.addr); return it == g_locks->end() || it->second.owner < 0; }
        case W::join: return g_t[t.val].done;
        case W::futex: return __atomic_load_n((const unsigned*)t.addr, __ATOMIC_RELAXED) != t.val;
        case W::cond: return false;
    }
    return true;
}
int pick(bool canStay)
{
    int c[64], n = 0;
    for (int i = 0; i < g_n; ++i) if (enabled(i)) c[n++] = i;
    if (n == 0) { // only timeouts are left
        for (int i = 0; i < g_n; ++i) if (!g_t[i].done && g_t[i].timed && (g_t[i].w == W::cond || g_t[i].w == W::futex)) c[n++] = i;
        if (n == 0) return -1;
        int k = c[rnd() % n];
        g_t[k].timedOut = true; g_t[k].timed = false;
        if (g_t[k].w == W::cond) { g_t[k].w = W::mutex; g_t[k].addr = g_t[k].m; return pick(false); }
        g_t[k].w = W::none;
        return k;
    }
    ++g_points;
    bool meEn = canStay && enabled(me);
    switch (g_mode) {
        case 0: return c[rnd() % n];
        case 1: // priorities with a few change points
            if (rnd() % 16 == 0) g_t[rnd() % g_n].prio = rnd();
            { int b = c[0]; for (int i = 1; i < n; ++i) if (g_t[c[i]].prio > g_t[b].prio) b = c[i]; return b; }
        case 2: if (meEn && rnd() % 8) return me; return c[rnd() % n];
        default: if (meEn && rnd() % 3) return me; return c[rnd() % n];
    }
}
void yield_wait(bool canStay = true)
{
    int self = me;
    int k = pick(canStay);
    if (k < 0) {
        printf("DEADLOCK no thread can go on:");
        for (int i = 0; i < g_n; ++i) if (!g_t[i].done) printf(" thread %d waits (%d)", i, (int)g_t[i].w);
        printf("\n"); fflush(stdout); _exit(12);
    }
    if (k != self) { fwake(&g_t[k].turn); fwait(&g_t[self].turn); }
}
void block(W w, const void* a, unsigned v = 0)
{
    thread& t = g_t[me];
    t.w = w; t.addr = a; t.val = v;
    yield_wait();
    t.w = W::none;
}
void* start(void* p)
{
    int k = (int)(intptr_t)p;
    fwait(&g_t[k].turn);
    me = k;
    void* r = g_t[k].fn(g_t[k].arg);
    me = -2;
    g_t[k].done = true;
    int n = -1, c = 0;
    for (int i = 0; i < g_n; ++i) if (!g_t[i].done) ++c;
    if (c) {
        me = k; n = pick(false); me = -2;
        if (n < 0) { printf("DEADLOCK after the end of thread %d\n", k); fflush(stdout); _exit(12); }
        fwake(&g_t[n].turn);
    }
    return r;
}
bool ctl() { return g_on && me >= 0; }
}
extern "C" {
void sched_start()
{
    const char* s = getenv("SCHED_SEED"); const char* m = getenv("SCHED_MODE");
    if (!s) return;
    g_rng = 0x9E3779B97F4A7C15ull * (strtoull(s, nullptr, 10) + 1) | 1;
    for (int i = 0; i < 8; ++i) rnd();
    g_mode = m ? atoi(m) : 0;
    g_n = 1; me = 0; g_t[0].id = pthread_self(); g_t[0].prio = rnd();
    g_on = true;
}
int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!ctl() || g_n >= 64) return r(id, a, f, arg);
    int k = g_n;
    thread& t = g_t[k];
    t = thread(); t.fn = f; t.arg = arg; t.prio = rnd(); t.w = W::none;
    int e = r(&t.id, a, start, (void*)(intptr_t)k);
    if (e) return e;
    g_n++;
    *id = t.id;
    yield_wait();
    return 0;
}
int pthread_join(pthread_t id, void** v)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (ctl()) for (int k = 0; k < g_n; ++k) if (pthread_equal(g_t[k].id, id)) { block(W::join, nullptr, k); break; }
    return r(id, v);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!ctl()) return r(m);
    auto& l = (*g_locks)[m];
    if (l.owner == me && ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) { l.count++; return r(m); }
    block(W::mutex, m);
    int e = r(m);
    auto& q = (*g_locks)[m]; q.owner = me; q.count = 1;
    return e;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!ctl()) return r(m);
    yield_wait();
    auto& q = (*g_locks)[m];
    if (q.owner >= 0 && q.owner != me) return EBUSY;
    int e = r(m);
    if (!e) { q.count = q.owner == me ? q.count + 1 : 1; q.owner = me; }
    return e;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!ctl()) return r(m);
    int e = r(m);
    auto it = g_locks->find(m);
    if (it != g_locks->end() && --it->second.count <= 0) g_locks->erase(it);
    yield_wait();
    return e;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    thread& t = g_t[me];
    static auto ru = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    ru(m); g_locks->erase(m);
    t.timed = timed; t.timedOut = false; t.m = m;
    t.w = W::cond; t.addr = c;
    yield_wait();
    t.w = W::none; t.timed = false;
    rl(m);
    auto& q = (*g_locks)[m]; q.owner = me; q.count = 1;
    return t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait", "GLIBC_2.3.2");
    return ctl() ? cwait(c, m, false) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait", "GLIBC_2.3.2");
    return ctl() ? cwait(c, m, true) : r(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return ctl() ? cwait(c, m, true) : r(c, m, k, ts);
}
static void wake(pthread_cond_t* c, bool all)
{
    for (;;) {
        int w[64], n = 0;
        for (int i = 0; i < g_n; ++i) if (!g_t[i].done && g_t[i].w == W::cond && g_t[i].addr == c) w[n++] = i;
        if (!n) break;
        thread& t = g_t[w[rnd() % n]];
        t.w = W::mutex; t.addr = t.m;
        if (!all) break;
    }
}
int pthread_cond_signal(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal", "GLIBC_2.3.2");
    if (!ctl()) return r(c);
    wake(c, false); yield_wait();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast", "GLIBC_2.3.2");
    if (!ctl()) return r(c);
    wake(c, true); yield_wait();
    return 0;
}
#define RW(name, kind, tryit) \
    int name(pthread_rwlock_t* m) \
    { \
        static auto r = real<int (*)(pthread_rwlock_t*)>(#name); \
        if (!ctl()) return r(m); \
        if (tryit) { yield_wait(); auto& q = (*g_locks)[m]; if (q.owner >= 0 || (kind == W::wr && q.readers)) return EBUSY; } \
        else block(kind, m); \
        int e = r(m); \
        auto& q = (*g_locks)[m]; \
        if (!e) { if (kind == W::wr) q.owner = me; else q.readers++; } \
        return e; \
    }
RW(pthread_rwlock_wrlock, W::wr, false)
RW(pthread_rwlock_rdlock, W::rd, false)
RW(pthread_rwlock_trywrlock, W::wr, true)
RW(pthread_rwlock_tryrdlock, W::rd, true)
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    if (!ctl()) return r(m);
    int e = r(m);
    auto& q = (*g_locks)[m];
    if (q.owner == me) q.owner = -1; else if (q.readers) q.readers--;
    yield_wait();
    return e;
}
int close(int fd) { static auto r = real<int (*)(int)>("close"); if (ctl()) yield_wait(); return r(fd); }
int fcntl(int fd, int c, ...) { static auto r = real<int (*)(int, int, void*)>("fcntl"); va_list v; va_start(v, c); void* a = va_arg(v, void*); va_end(v); if (ctl()) yield_wait(); return r(fd, c, a); }
int sched_yield() { if (ctl()) yield_wait(); return 0; }
}
// std::future waits on these
namespace std {
struct __atomic_futex_unsigned_base
{
    static bool _M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds);
    static bool _M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds);
    static void _M_futex_notify_all(unsigned* a);
};
static bool fw(unsigned* a, unsigned v, bool timed)
{
    if (!ctl()) { if (timed) { struct timespec ts = {0, 1000000}; syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, &ts, nullptr, 0); return false; } syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); return true; }
    thread& t = g_t[me];
    t.timed = timed; t.timedOut = false;
    block(W::futex, a, v);
    t.timed = false;
    return !t.timedOut;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return fw(a, v, timed); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) { return fw(a, v, timed); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (!ctl()) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1 << 30, nullptr, nullptr, 0); return; }
    yield_wait();
}
}
