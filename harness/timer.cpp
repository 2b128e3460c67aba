// C27: pacing against the wall clock.  The clock is virtual: every reading is symbolic, sleeping advances it by at least what was asked for.
#include "sym.h"
#include "sim.hpp"
#include <cosim/timer.hpp>
#include <cmath>
#include <limits>
#include <vector>
using std::vector;
using std::chrono::milliseconds;
namespace
{
int64_t now_ = 1000000, asked, first_reading;
int sleeps, readings;
int bits;
int64_t tick; // what each reading of the clock advances it by, besides the symbolic part
// wall time = simulated time * den / num
struct rate { double factor; int64_t num, den; };
const rate rates[] = {{1, 1, 1}, {2, 2, 1}, {0.5, 1, 2}, {3, 3, 1}, {0.1, 1, 10}, {1.5, 3, 2}, {1000, 1000, 1}, {0, 1, 0}, {-1, 1, 0}, {-0.0, 1, 0}, {std::numeric_limits<double>::quiet_NaN(), 1, 0}};
const int n_rates = 10;
int64_t slack(const rate& r) { return 100010 * r.num; } // lags of up to 100 microseconds are not slept away
}
extern "C" long long sym_clock_now()
{
    now_ += 1 + tick;
    if (bits) now_ += (int64_t)sym_make("clock", bits);
    if (!readings++) first_reading = now_;
    return now_;
}
extern "C" void sym_clock_sleep(long long ns)
{
    CHECK(ns >= 0, "a sleep request is not negative");
    ++sleeps; asked += ns; now_ += ns + (int64_t)sym_make("oversleep", 20);
}
// one timer: any progress of simulated and wall-clock time, configuration changes between the steps
extern "C" void h_pace()
{
    bits = (int)sym_option("bits", 34);
    cosim::real_time_timer t;
    auto c = t.get_real_time_config();
    rate r = rates[sym_choose("factor", 0, n_rates)];
    bool on = sym_flag("enabled");
    c->real_time_simulation = on;
    c->real_time_factor_target = r.factor;
    int64_t s = (int64_t)sym_make("start", 40) - (int64_t)(1ull << 39);
    t.start(tp(s));
    // the changed configuration restarts the measurement at the first call
    readings = 0;
    t.sleep(tp(s));
    CHECK(sleeps == 0, "no sleep without progress");
    int64_t w0 = first_reading, s0 = s;
    int steps = (int)sym_option("steps", 3), change = sym_choose("change", 0, steps);
    for (int k = 0; k < steps; ++k) {
        bool restart = false;
        if (k == change) { // pause and resume, or another factor
            int what = sym_choose("what", 0, 3);
            if (what == 0) { readings = 0; now_ += (int64_t)sym_make("pause", bits); t.start(tp(s)); w0 = now_; s0 = s; }
            if (what == 1) { r = rates[r.factor == 2 ? 0 : 1]; c->real_time_factor_target = r.factor; restart = true; }
            if (what == 2) { on = !on; c->real_time_simulation = on; restart = true; }
            if (what == 3) { c->steps_to_monitor = 7; restart = true; }
        }
        s += 1 + (int64_t)sym_make("time", bits);
        readings = 0; asked = 0; sleeps = 0;
        t.sleep(tp(s));
        if (restart) { CHECK(sleeps == 0, "a changed configuration restarts the measurement"); w0 = first_reading; s0 = s; sym_reach("restarted"); continue; }
        if (!on || !r.den) { CHECK(sleeps == 0, "no pacing unless enabled with a positive factor"); continue; }
        int64_t sim = (s - s0) * r.den, before = (first_reading - w0) * r.num, after = (now_ - w0) * r.num;
        CHECK(sim - after <= slack(r), "the simulation does not run ahead of the wall clock");
        if (sleeps) { CHECK(sim > before, "no sleep when the simulation lags"); CHECK(asked * r.num <= sim - before + 10 * r.num, "no more sleep than needed"); sym_reach("slept"); }
        else sym_reach("did not sleep");
    }
    sym_reach("end");
}
namespace
{
bool ratio_is(double m, int64_t sim, int64_t wall)
{
    double x = (double)sim / (double)wall;
    return m >= x * 0.999999999 - 1e-9 && m <= x * 1.000000001 + 1e-9;
}
}
// the metrics
extern "C" void h_metrics()
{
    const int sbits = (int)sym_option("bits", 30);
    const bool wall = sym_option("wall", 0); // is the wall clock symbolic, or does it advance by one of a few amounts?
    bits = wall ? sbits : 0;
    cosim::real_time_timer t;
    auto c = t.get_real_time_config();
    auto m = t.get_real_time_metrics();
    CHECK(m->rolling_average_real_time_factor == 1.0 && m->total_average_real_time_factor == 1.0, "metrics before the start");
    int window = sym_choose("window", 1, (int)sym_option("window", 3));
    bool sampling = sym_flag("sampling");
    int64_t period = sampling ? sym_choose("period", 1, 2) * 500000000ll : 0;
    c->steps_to_monitor = window;
    if (sampling) c->sampling_period_to_monitor = milliseconds(period / 1000000);
    int64_t s = (int64_t)sym_make("start", 40);
    t.start(tp(s));
    t.sleep(tp(s)); // takes the configuration over
    readings = 0; t.start(tp(s));
    int64_t w0 = now_, s0 = s, wr = now_, sr = s;
    CHECK(readings == 1, "starting reads the clock once");
    double rolling = m->rolling_average_real_time_factor;
    int since = 0;
    for (int k = 0; k < (int)sym_option("steps", 5); ++k) {
        s += 1 + (int64_t)sym_make("time", sbits);
        if (!wall) { const int64_t ticks[] = {1000000000, 3, 300000000}; tick = ticks[sym_choose("tick", 0, sampling ? 2 : 1)]; }
        t.sleep(tp(s));
        ++since;
        CHECK(ratio_is(m->total_average_real_time_factor, s - s0, now_ - w0), "the total average is simulated time divided by wall-clock time since the start");
        bool updated = sampling ? now_ - wr > period : since > window;
        if (!sampling && since == window && sr != s0) updated = true; // the first window has one step more
        if (updated) { CHECK(ratio_is(m->rolling_average_real_time_factor, s - sr, now_ - wr), "the rolling average is simulated time divided by wall-clock time in the window"); wr = now_; sr = s; since = 0; rolling = m->rolling_average_real_time_factor; sym_reach(sampling ? "sampled" : "window"); }
        else CHECK(m->rolling_average_real_time_factor == rolling || (rolling != rolling), "the rolling average changes when a window is complete");
    }
    sym_reach("end");
}
// a whole execution, run twice with a pause in between; its steps take any time
extern "C" void h_pace_execution()
{
    const int wbits = (int)sym_option("bits", 28);
    bits = 0; // reading the clock takes no time to speak of here
    const int64_t h = 100000000;
    cosim::execution e(tp(sym_flag("begin") ? 0 : -12345678901), std::make_shared<cosim::fixed_step_algorithm>(duration(h), 0u));
    auto s = std::make_shared<fake_slave>();
    e.add_slave(s, "s", duration(0));
    s->on_step = [=](fake_slave&, int n) { if (n) now_ += (int64_t)sym_make("work", wbits); };
    auto o = std::make_shared<fake_observer>();
    e.add_observer(o);
    auto c = e.get_real_time_config();
    rate r = rates[sym_choose("factor", 1, 3)];
    c->real_time_simulation = true;
    c->real_time_factor_target = r.factor;
    auto next = [&](int n) { return e.current_time() + duration(n * h); };
    CHECK(e.simulate_until(next(1)) && sleeps == 0, "the configuration is taken over in the first step");
    now_ += sym_flag("pause") ? 5000000000 : 0;
    readings = 0;
    int n = (int)sym_option("steps", 2), done = 0;
    o->on_step = [&] { // before the sleep of this step, after those of the earlier ones
        int64_t sim = done++ * h * r.den;
        CHECK(sim - (now_ - first_reading) * r.num <= slack(r), "a step does not begin before its time");
    };
    asked = 0;
    CHECK(e.simulate_until(next(n)), "completed");
    CHECK(done == n && n * h * r.den - (now_ - first_reading) * r.num <= slack(r), "the simulation does not run ahead of the wall clock");
    CHECK(asked * r.num <= n * h * r.den + 10 * n * r.num, "no more sleep than needed");
    sym_reach(sleeps ? "slept" : "did not sleep");
}
