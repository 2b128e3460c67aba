// Sleeping: the requested time is passed on in nanoseconds, without libstdc++'s split into seconds and nanoseconds.
#ifndef _GLIBCXX_THIS_THREAD_SLEEP_H
#define _GLIBCXX_THIS_THREAD_SLEEP_H 1
#pragma GCC system_header
#include <bits/chrono.h>
#include <cerrno>
#include <time.h>
extern "C" void rt_sleep_(long long);
namespace std
{
namespace this_thread
{
template<typename R, typename P>
inline void sleep_for(const chrono::duration<R, P>& t)
{
    if (t <= t.zero()) return;
    rt_sleep_(chrono::duration_cast<chrono::nanoseconds>(t).count());
}
template<typename C, typename D>
inline void sleep_until(const chrono::time_point<C, D>& at)
{
    auto now = C::now();
    if (C::is_steady) { if (now < at) sleep_for(at - now); return; }
    while (now < at) { sleep_for(at - now); now = C::now(); }
}
}
}
#endif
