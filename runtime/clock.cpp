// Native side of the virtual clock: harnesses that define sym_clock_now/sym_clock_sleep get them behind
// std::chrono::steady_clock, system_clock and the sleep functions.
#include <chrono>
#include <cerrno>
#include <ctime>
extern "C" long long sym_clock_now();
extern "C" void sym_clock_sleep(long long ns);
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sym_clock_now())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sym_clock_now())); }
}}}
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { sym_clock_sleep(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { sym_clock_sleep(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
