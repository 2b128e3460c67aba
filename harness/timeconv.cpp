// C28: conversions between seconds (floating point) and ticks of simulation time
#include "sym.h"
#include <cosim/time.hpp>
#include <cmath>
using namespace cosim;
namespace
{
time_point tp(int64_t n) { return time_point(duration(n)); }
int64_t n(duration d) { return d.count(); }
int64_t n(time_point t) { return t.time_since_epoch().count(); }
int64_t sgn(const char* name, int bits) { return (int64_t)sym_make(name, bits) - (int64_t)(1ull << (bits - 1)); }
bool near(double a, double b, double e) { return (a - b <= e) & (b - a <= e); }
// a number of seconds: any double of magnitude up to 2^21 (24 days), or a decimal number
double any_seconds(const char* name) { double d = sym_double(name); sym_assume((d <= 2097152.0) & (d >= -2097152.0)); return d; }
double seconds(const char* name)
{
    switch (sym_choose("kind", 0, 2)) {
        case 0: return any_seconds(name);
        case 1: return (double)sgn(name, 32) / 1000.0;
        default: return (double)sgn(name, 50) * 0x1p-30;
    }
}
}
// ticks to seconds and back, for all ticks of magnitude below 2^51 (26 days)
extern "C" void h_roundtrip()
{
    int64_t t = sgn("t", 52);
    double s = to_double_time_point(tp(t));
    CHECK(near(s * 1e9, (double)t, 1.0001), "a time point in seconds, to the resolution of the clock");
    int64_t back = n(to_time_point(s));
    CHECK(back - t <= 1 && t - back <= 1, "to seconds and back, to the resolution of the clock");
    CHECK(n(to_duration(s)) == back, "a duration from time zero is the time point");
    CHECK((t < 0) == (s < 0) || s == 0, "the sign is kept");
    sym_reach("end");
}
// whole seconds are exact
extern "C" void h_whole()
{
    int64_t k = sgn("k", 32);
    CHECK(n(to_time_point((double)k)) == k * 1000000000, "whole seconds to ticks");
    CHECK(n(to_duration((double)k)) == k * 1000000000, "whole seconds to a duration");
    CHECK(to_double_time_point(tp(k * 1000000000)) == (double)k, "whole seconds from ticks");
    int64_t j = sgn("j", 32);
    CHECK(n(to_duration((double)k, (double)j)) == k * 1000000000, "whole seconds after whole seconds");
    CHECK(to_double_duration(duration(k * 1000000000), tp(j * 1000000000)) == (double)k, "whole seconds from ticks after whole seconds");
    sym_reach("end");
}
// seconds to ticks
extern "C" void h_seconds()
{
    double s = any_seconds("s");
    int64_t t = n(to_time_point(s));
    CHECK(near((double)t, s * 1e9, 1.5), "seconds to ticks, to the resolution of the clock");
    CHECK(n(to_duration(s)) == t, "a duration from time zero is the time point");
    CHECK(n(to_duration(s, 0.0)) == t, "a duration starting at time zero");
    CHECK(near(to_double_time_point(tp(t)), s, 2.1e-9), "to ticks and back, to the resolution of the clock");
    sym_reach("end");
}
// stepping in seconds and stepping in ticks stay together
extern "C" void h_steps()
{
    double s = seconds("s");
    time_point t = to_time_point(s);
    for (int k = 0; k < (int)sym_option("steps", 4); ++k) {
        double d = seconds("d");
        double s2 = s + d;
        t = t + to_duration(d, s);
        CHECK(t == to_time_point(s2), "the sum of the conversions is the conversion of the sum");
        s = s2;
    }
    sym_reach("end");
}
extern "C" void h_tick_steps()
{
    int64_t t = sgn("t", 51), d = sgn("d", 51); // any step from any time
    double a = to_double_time_point(tp(t)), b = to_double_time_point(tp(t + d)), x = to_double_duration(duration(d), tp(t));
    double m = std::fabs(b) + std::fabs(a);
    CHECK(near(a + x, b, m * 0x1p-51), "the sum of the conversions is the conversion of the sum, to the precision of the numbers");
    CHECK(near(x * 1e9, (double)d, 1.0001 + m * 1e9 * 0x1p-51), "a duration in seconds, to the precision of the numbers");
    if (d >= 0 && t / 2 >= d) CHECK(a + x == b, "for durations of up to half the time elapsed, the sum of the conversions is exactly the conversion of the sum");
    sym_reach("end");
}
