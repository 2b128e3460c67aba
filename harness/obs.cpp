// C12, C13, C14: the observers
#include "sim.hpp"
#include "scratch.hpp"
#include <cosim/error.hpp>
#include <cosim/observer/file_observer.hpp>
#include <cosim/observer/last_value_observer.hpp>
#include <cosim/observer/time_series_observer.hpp>
#include <algorithm>
#include <map>
#include <optional>
#include <sstream>
#include <thread>
using namespace cosim;
using std::make_shared;
using std::vector;
namespace
{
// a simulator as seen by an observer
struct fake_observable : observable
{
    std::string n = "x"; cosim::model_description md;
    std::map<std::pair<int, value_reference>, val> v;
    std::set<std::pair<int, value_reference>> exposed;
    std::string name() const override { return n; }
    cosim::model_description model_description() const override { return md; }
    void expose_for_getting(variable_type t, value_reference r) override { exposed.insert({(int)t, r}); }
    const val& at(variable_type t, value_reference r) const { CHECK(exposed.count({(int)t, r}), "a variable is exposed before it is read"); return v.at({(int)t, r}); }
    double get_real(value_reference r) const override { return at(variable_type::real, r).real(); }
    int get_integer(value_reference r) const override { return at(variable_type::integer, r).integer(); }
    bool get_boolean(value_reference r) const override { return at(variable_type::boolean, r).boolean(); }
    std::string_view get_string(value_reference r) const override { return at(variable_type::string, r).text; }
};
struct sample { step_number step; int64_t t; val v; };
}
// C12: buffers of any size, observation started and stopped at any time, any spacing of the steps
extern "C" void h_samples()
{
    int ops = (int)sym_option("ops", 5), maxbuf = (int)sym_option("buffer", 3);
    int size = sym_choose("buffer", 1, maxbuf);
    time_series_observer o((size_t)size);
    auto T = sym_flag("real") ? variable_type::real : variable_type::integer;
    auto O = T == variable_type::real ? variable_type::integer : variable_type::real;
    fake_observable sim[2];
    // variable 0: reference 1 of type T of simulator 0; variable 1: reference 1 of type T of simulator 1; variable 2: reference 1 of the other type of simulator 0
    struct var { int sim; variable_type t; value_reference r; };
    const var vars[3] = {{0, T, 1}, {1, T, 1}, {0, O, 1}};
    auto t0 = sym_range64("start", -(1ll << 40), 1ll << 40);
    vector<sample> held[3]; bool on[3] = {};
    vector<std::pair<step_number, int64_t>> times[2];
    auto fresh = [&](int s) { for (auto& x : vars) if (x.sim == s) sim[s].v[{(int)x.t, x.r}] = sym_val("v", x.t); };
    fresh(0); fresh(1);
    for (int s = 0; s < 2; ++s) o.simulator_added(s, &sim[s], tp(t0));
    CHECK(throws([&] { o.start_observing(variable_id{2, T, 1}); }), "observing an unknown simulator is an error");
    CHECK(throws([&] { o.start_observing(variable_id{0, variable_type::string, 1}); }), "observing a variable of an unsupported type is an error");
    auto start = [&](int i) { o.start_observing(variable_id{vars[i].sim, vars[i].t, vars[i].r}); on[i] = true; held[i].clear(); };
    auto record = [&](int s, step_number n, int64_t t) {
        for (int i = 0; i < 3; ++i) if (on[i] && vars[i].sim == s) { held[i].push_back({n, t, sim[s].v[{(int)vars[i].t, vars[i].r}]}); if ((int)held[i].size() > size) held[i].erase(held[i].begin()); }
        if (!times[s].empty() && times[s].back().first == n) times[s].pop_back();
        times[s].push_back({n, t}); if ((int)times[s].size() > size) times[s].erase(times[s].begin());
    };
    start(0);
    if (sym_flag("early")) { start(1); start(2); }
    o.simulation_initialized(0, tp(t0));
    record(0, 0, t0); record(1, 0, t0);
    step_number n = 0; int64_t t = t0;
    bool stopped = false;
    for (int k = 0; k < ops; ++k) {
        int op = sym_choose("op", 0, 4);
        if (op <= 1) { // one or both simulators complete a step
            n += 1; t += sym_range64("dt", 1, 1ll << 40);
            for (int s = 0; s < 2; ++s) if (s == 1 || op == 0) { fresh(s); o.simulator_step_complete(s, n, duration(1), tp(t)); record(s, n, t); }
            o.step_complete(n, duration(1), tp(t));
        } else if (op == 2) { sym_assume(!on[1]); start(1); }
        else if (op == 3) { sym_assume(!on[2]); start(2); }
        else if (on[0]) { sym_assume(!stopped); o.stop_observing(variable_id{0, T, 1}); on[0] = false; held[0].clear(); stopped = true; }
        else start(0);
    }
    // ask for m samples of any of the variables, from any step on
    int i = sym_choose("asked", 0, 2), m = sym_choose("number", 1, (int)sym_option("number", 3));
    auto from = (step_number)sym_choose("from", 0, (int)n + 1);
    vector<step_number> ss(m, -7); vector<time_point> ts(m); vector<double> rs(m); vector<int> is(m);
    auto get = [&]() -> size_t { return vars[i].t == variable_type::real ? o.get_real_samples(vars[i].sim, 1, from, rs, ss, ts) : o.get_integer_samples(vars[i].sim, 1, from, is, ss, ts); };
    if (on[i] && held[i].empty()) { bool ok = true; try { ok = get() == 0; } catch (const std::out_of_range&) { } CHECK(ok, "there are no samples before the first step observed"); sym_reach("no samples"); }
    else {
        size_t got = get();
        vector<sample> want;
        if (on[i]) for (auto& x : held[i]) if (x.step >= from && x.step < from + m) want.push_back(x);
        CHECK(got == want.size(), "exactly the samples held for the steps asked for are returned");
        for (size_t k = 0; k < got; ++k) {
            CHECK(ss[k] == want[k].step, "samples are returned oldest first, with their step numbers");
            CHECK(ns(ts[k]) == want[k].t, "a sample has the time of its step");
            CHECK((vars[i].t == variable_type::real ? vr(rs[k]) : vi(is[k])) == want[k].v, "a sample has the value of its step");
        }
        sym_reach(got == 0 ? "none" : got == (size_t)m ? "all" : "some");
    }
    CHECK(throws([&] { vector<step_number> few(m + 1); vars[i].t == variable_type::real ? o.get_real_samples(vars[i].sim, 1, from, rs, few, ts) : o.get_integer_samples(vars[i].sim, 1, from, is, few, ts); }), "arrays of different sizes are refused");
    CHECK(throws([&] { o.get_real_samples(5, 1, from, rs, ss, ts); }), "an unknown simulator is an error");
    // synchronised series
    if (T == variable_type::real) {
        vector<double> a(m), b(m);
        if (!on[0] || !on[1] || held[0].empty() || held[1].empty()) CHECK(throws([&] { o.get_synchronized_real_series(0, 1, 1, 1, from, a, b); }), "series without samples are refused");
        else {
            size_t got = o.get_synchronized_real_series(0, 1, 1, 1, from, a, b), k = 0;
            for (auto& x : held[0]) for (auto& y : held[1]) if (x.step == y.step && x.step >= from && x.step < from + m) {
                CHECK(k < got, "every step recorded for both variables is in the synchronised series");
                CHECK(vr(a[k]) == x.v && vr(b[k]) == y.v, "the synchronised values are those of one step");
                ++k;
            }
            CHECK(k == got, "only steps recorded for both variables are in the synchronised series");
            if (got) sym_reach("synchronised");
        }
    }
    sym_reach("end");
}
// C12: the step numbers of a time interval, for arbitrary times
extern "C" void h_step_numbers()
{
    int steps = (int)sym_option("steps", 4);
    int size = sym_choose("buffer", 2, steps + 2);
    time_series_observer o((size_t)size);
    fake_observable sim;
    auto t0 = sym_range64("start", -(1ll << 44), 1ll << 44);
    o.simulator_added(0, &sim, tp(t0));
    o.simulation_initialized(0, tp(t0));
    vector<std::pair<step_number, int64_t>> held{{0, t0}};
    int64_t t = t0;
    int n = sym_choose("steps", 0, steps), every = sym_choose("every", 1, 2);
    for (int k = 1; k <= n; ++k) {
        auto next = sym_range64("time", -(1ll << 44), 1ll << 44); sym_assume(next > t); t = next;
        o.simulator_step_complete(0, k * every, duration(1), tp(t));
        held.push_back({k * every, t}); if ((int)held.size() > size) held.erase(held.begin());
    }
    auto a = sym_range64("a", -(1ll << 44), 1ll << 44), b = sym_range64("b", -(1ll << 44), 1ll << 44);
    step_number s[2] = {-1, -1};
    bool span = sym_flag("duration");
    if (span) { b = t; sym_assume(a <= b); o.get_step_numbers(0, duration(b - a), gsl::span<step_number>(s)); }
    else sym_assume(a <= b), o.get_step_numbers(0, tp(a), tp(b), gsl::span<step_number>(s));
    // the last recorded step at or before the beginning, or the oldest; the first one at or after the end, or the latest
    step_number first = held.front().first, last = held.back().first;
    for (auto& h : held) if (h.second <= a) first = h.first;
    for (auto i = held.rbegin(); i != held.rend(); ++i) if (i->second >= b) last = i->first;
    CHECK(s[0] == first, "the first step of the interval");
    CHECK(s[1] == last, "the last step of the interval");
    sym_observe("first", s[0]); sym_observe("last", s[1]);
    sym_reach("end");
}
// C12: samples are read by another thread while the simulation runs
extern "C" void h_samples_threads()
{
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto A = make_shared<fake_slave>();
    A->add("o", 1, variable_type::integer, output);
    A->on_step = [&](fake_slave& s, int n) { s.at(variable_type::integer, 1) = vi(100 + n); };
    auto o = make_shared<time_series_observer>(2);
    exe.add_observer(o);
    exe.add_slave(A, "a");
    o->start_observing(variable_id{0, variable_type::integer, 1});
    exe.step();
    std::thread th([&] {
        int v[3]; step_number s[3]; time_point t[3];
        auto n = o->get_integer_samples(0, 1, 0, gsl::span<int>(v), gsl::span<step_number>(s), gsl::span<time_point>(t));
        CHECK(n == 2, "the buffer holds as many samples as it can");
        for (size_t i = 0; i < n; ++i) {
            CHECK(v[i] == 100 + (int)s[i] && ns(t[i]) == 10 * s[i], "a sample has the value and the time of its step");
            if (i) CHECK(s[i] == s[i - 1] + 1, "consecutive samples are returned");
        }
        step_number r[2];
        o->get_step_numbers(0, duration(10), gsl::span<step_number>(r));
        CHECK(r[1] == r[0] + 1, "the step numbers of an interval belong together");
    });
    exe.step();
    th.join();
    sym_reach("end");
}
// C13
extern "C" void h_last_value()
{
    int steps = (int)sym_option("steps", 3), maxf = (int)sym_option("maxf", 2);
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto o = make_shared<last_value_observer>();
    bool first = sym_flag("observer first");
    if (first) exe.add_observer(o);
    std::shared_ptr<fake_slave> sl[2];
    val last[2][4][MAXREF], now[2][4][MAXREF]; // after the latest step; what the slave has now
    auto T = all_types[sym_choose("type", 0, 3)];
    int f[2];
    static const value_reference refs[3] = {4, 1, 2};
    for (int s = 0; s < 2; ++s) {
        sl[s] = make_shared<fake_slave>();
        for (auto t : all_types) for (auto r : refs) if (t == T || r == 1) sl[s]->add(std::string("v") + to_text(t) + std::to_string(r), r, t, r == 2 ? input : r == 4 ? output : local);
        auto fresh = [&, s](fake_slave& x) { for (auto t : all_types) for (auto r : refs) if (t == T || r == 1) x.at(t, r) = now[s][(int)t][r] = sym_val("v", t, 1); };
        sl[s]->on_setup = fresh;
        sl[s]->on_step = [fresh](fake_slave& x, int n) { if (n) fresh(x); };
        f[s] = sym_choose("f", 1, maxf);
        exe.add_slave(sl[s], std::string("s") + std::to_string(s), duration(10 * f[s]));
    }
    if (!first) exe.add_observer(o);
    auto keep = [&](int s) { for (int t = 0; t < 4; ++t) for (auto r : refs) last[s][t][r] = now[s][t][r]; };
    auto check = [&] {
        for (int s = 0; s < 2; ++s) {
            const value_reference ask[3] = {2, 4, 1};
            auto span = gsl::span<const value_reference>(ask);
            val got[3];
            switch (T) {
                case variable_type::real: { double v[3]; o->get_real(s, span, v); for (int i = 0; i < 3; ++i) got[i] = vr(v[i]); break; }
                case variable_type::integer: { int v[3]; o->get_integer(s, span, v); for (int i = 0; i < 3; ++i) got[i] = vi(v[i]); break; }
                case variable_type::boolean: { bool v[3]; o->get_boolean(s, span, v); for (int i = 0; i < 3; ++i) got[i] = vb(v[i]); break; }
                default: { std::string v[3]; o->get_string(s, span, v); for (int i = 0; i < 3; ++i) got[i] = vs(v[i]); }
            }
            for (int i = 0; i < 3; ++i) CHECK(got[i] == last[s][(int)T][ask[i]], "the value is the one after the simulator's latest completed step");
            const value_reference one[1] = {1}; double d[1]; int n[1]; bool b[1]; std::string x[1];
            o->get_real(s, one, d); o->get_integer(s, one, n); o->get_boolean(s, one, b); o->get_string(s, one, x);
            CHECK(vr(d[0]) == last[s][0][1] && vi(n[0]) == last[s][1][1] && vb(b[0]) == last[s][2][1] && vs(x[0]) == last[s][3][1], "variables of different types are told apart");
        }
    };
    // initialised, before any step: seen by an observer that is notified after o
    bool initial = false, mid = false;
    struct watcher : fake_observer { std::function<void()> f; void simulation_initialized(step_number, time_point) override { f(); } };
    auto w = make_shared<watcher>();
    w->f = [&] { keep(0); keep(1); check(); initial = true; };
    exe.add_observer(w);
    for (int k = 1; k <= steps; ++k) {
        exe.step();
        CHECK(initial, "observers are notified of the initialisation");
        for (int s = 0; s < 2; ++s) if (k % f[s] == 0) keep(s); else mid = true;
        check();
    }
    if (mid) sym_reach("in the middle of a step");
    const value_reference bad[1] = {5}, good[1] = {1}; double d[1]; double dd[2]; int n[1]; bool b[1]; std::string x[1];
    CHECK(throws([&] { o->get_real(0, bad, d); }) && throws([&] { o->get_integer(0, bad, n); }) && throws([&] { o->get_boolean(0, bad, b); }) && throws([&] { o->get_string(0, bad, x); }), "an unknown variable is an error");
    CHECK(throws([&] { o->get_real(2, good, d); }) && throws([&] { o->get_integer(2, good, n); }) && throws([&] { o->get_boolean(-1, good, b); }) && throws([&] { o->get_string(2, good, x); }), "an unknown simulator is an error");
    CHECK(throws([&] { o->get_real(0, good, dd); }), "arrays of different sizes are refused");
    sym_reach("end");
}
// C13: values are read by another thread while the simulation runs
extern "C" void h_last_value_threads()
{
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto A = make_shared<fake_slave>();
    A->add("o", 1, variable_type::integer, output); A->add("p", 2, variable_type::integer, output); A->add("s", 1, variable_type::string, output);
    A->on_step = [&](fake_slave& s, int n) { s.at(variable_type::integer, 1) = vi(n); s.at(variable_type::integer, 2) = vi(10 + n); s.at(variable_type::string, 1) = vs(n == 1 ? "one" : "a longer text, not stored in place"); };
    auto o = make_shared<last_value_observer>();
    exe.add_observer(o);
    exe.add_slave(A, "a");
    exe.step();
    std::thread th([&] {
        const value_reference refs[2] = {1, 2};
        int v[2];
        o->get_integer(0, refs, v);
        CHECK((v[0] == 1 || v[0] == 2) && v[1] == v[0] + 10, "values read together are those of one step");
        const value_reference one[1] = {1}; std::string x[1];
        o->get_string(0, one, x);
        CHECK(x[0] == "one" || x[0] == "a longer text, not stored in place", "a value is that of one step");
    });
    exe.step();
    th.join();
    sym_reach("end");
}
// C14
namespace
{
std::string text(const val& v)
{
    std::ostringstream s;
    switch (v.type) {
        case variable_type::real: s << v.real(); break;
        case variable_type::integer: s << v.integer(); break;
        case variable_type::boolean: s << v.boolean(); break;
        default: s << v.text;
    }
    return s.str();
}
// the rows of a file; numbers are written as text or, when they are symbolic, as tokens of ten bytes
vector<std::string> lines(const std::string& s)
{
    vector<std::string> r; std::string l;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == 1 && i + 10 <= s.size()) { l += s.substr(i, 10); i += 9; }
        else if (s[i] == '\n') { r.push_back(l); l.clear(); }
        else l += s[i];
    }
    if (!l.empty()) r.push_back(l + "<no newline>");
    return r;
}
}
// any selection of variables, decimation of the log and of the simulators, recording switched on and off at any time
extern "C" void h_file_rows()
{
    int steps = (int)sym_option("steps", 4), maxf = (int)sym_option("maxf", 2), maxd = (int)sym_option("maxd", 2);
    auto dir = scratch() / "logs";
    // 0: no configuration; 1: named variables; 2: all variables; 3: only the other simulator; 4: named, nothing of one type
    int mode = sym_choose("mode", 0, 4);
    int decimation = mode && mode != 3 ? sym_choose("decimation", 1, maxd) : 1;
    int f = sym_choose("f", 1, maxf);
    bool stamped = mode == 0;
    if (mode && sym_flag("old")) { cosim::filesystem::create_directories(dir); spit(dir / "b.csv", "old contents\n"); }
    auto algo = make_shared<fixed_step_algorithm>(to_duration(0.5), 0u);
    std::optional<file_observer_config> config;
    if (mode) {
        config.emplace();
        config->set_timestamped_filenames(false);
        std::optional<size_t> d; if (decimation != 1) d = (size_t)decimation;
        if (mode == 1) config->log_simulator_variables("b", {"s", "i2", "o", "r"}, d);
        if (mode == 4) config->log_simulator_variables("b", {"i"}, d);
        if (mode == 2) config->log_all_simulator_variables("b", d);
        config->log_simulator_variables("a", {"x"});
    }
    auto o = make_shared<file_observer>(dir, config);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>();
    A->add("x", 1, variable_type::integer, output);
    B->add("s", 1, variable_type::string, output); B->add("i", 1, variable_type::integer, output); B->add("r", 3, variable_type::real, output);
    B->add("b", 0, variable_type::boolean, output); B->add("i2", 2, variable_type::integer, local); B->add("o", 1, variable_type::boolean, input);
    struct col { const char* n; variable_type t; value_reference r; };
    const col s{"s", variable_type::string, 1}, i{"i", variable_type::integer, 1}, r{"r", variable_type::real, 3}, b{"b", variable_type::boolean, 0}, i2{"i2", variable_type::integer, 2}, ob{"o", variable_type::boolean, 1};
    vector<col> cols;
    if (mode == 0) cols = {r, i, b, ob, s};
    if (mode == 1) cols = {r, i2, ob, s};
    if (mode == 2) cols = {r, i, i2, b, ob, s};
    if (mode == 4) cols = {i};
    val now[4][MAXREF];
    int na = 0;
    bool flip = sym_flag("flip");
    auto fresh = [&](fake_slave& x, int n) {
        for (auto& c : {s, i, r, b, i2, ob}) {
            val v = c.t == variable_type::string ? vs("t" + std::to_string(n)) : c.t == variable_type::boolean ? vb((n % 2 == 1) != (flip != (c.r == 0))) : sym_val("v", c.t);
            x.at(c.t, c.r) = now[(int)c.t][c.r] = v;
        }
    };
    B->on_setup = [&](fake_slave& x) { fresh(x, 0); };
    B->on_step = [&](fake_slave& x, int n) { if (n) fresh(x, n); };
    A->on_step = [&](fake_slave& x, int n) { x.at(variable_type::integer, 1) = vi(na = n); };
    auto header = [&] { std::string h = "Time,StepCount"; for (auto& c : cols) h += std::string(",") + c.n; return h; };
    auto row = [&](double t, int n) { std::ostringstream ss; ss << t << "," << n; std::string l = ss.str(); for (auto& c : cols) l += "," + text(now[(int)c.t][c.r]); return l; };
    vector<vector<std::string>> want; // one list of rows per file
    bool open = false, rec = true, was_opened = false;
    auto expect = [&](int k) {
        if (!rec) return;
        if (!open) { open = true; if (stamped || !was_opened) want.push_back({header()}); was_opened = true; }
        if (k % decimation == 0) want.back().push_back(row(0.5 * k, k));
    };
    auto check = [&] {
        if (!cosim::filesystem::exists(dir)) { CHECK(!was_opened, "a file is written"); return; }
        vector<std::string> names;
        for (auto& e : listing(dir)) if (e[0] == 'b' && e.size() > 4 && e.substr(e.size() - 4) == ".csv") names.push_back(e);
        if (mode == 3) { CHECK(names.empty() || slurp(dir / "b.csv") == "old contents\n", "nothing is recorded for a simulator that is not logged"); return; }
        vector<vector<std::string>> got;
        for (auto& n : names) got.push_back(lines(slurp(dir / n)));
        if (!stamped && got.size() == 1 && got[0].empty()) got.clear(); // an old file that was emptied
        CHECK(got.size() == want.size(), "one file per simulator and recording");
        for (size_t k = 0; k < got.size(); ++k) {
            CHECK(got[k].size() == want[k].size(), "one header and one row per due step");
            for (size_t j = 0; j < got[k].size(); ++j) {
                CHECK(got[k][j].size() == want[k][j].size() && got[k][j] == want[k][j], j ? "a row holds the time, the step number and the values of its step" : "the header names the logged variables in order");
                if (!j) sym_obs_str("header", got[k][j]);
            }
        }
    };
    {
        execution exe(tp(0), algo);
        if (sym_flag("observer first")) { exe.add_observer(o); exe.add_slave(A, "a"); exe.add_slave(B, "b", to_duration(0.5 * f)); }
        else { exe.add_slave(A, "a"); exe.add_slave(B, "b", to_duration(0.5 * f)); exe.add_observer(o); }
        struct watcher : fake_observer { std::function<void()> f; void simulation_initialized(step_number, time_point) override { f(); } };
        auto w = make_shared<watcher>();
        w->f = [&] { expect(0); };
        exe.add_observer(w);
        for (int k = 1; k <= steps; ++k) {
            if (sym_flag("switch")) {
                if (rec) { CHECK(throws([&] { o->start_recording(); }), "starting twice is an error"); o->stop_recording(); rec = open = false; check(); sym_reach("stopped"); }
                else { CHECK(throws([&] { o->stop_recording(); }), "stopping twice is an error"); o->start_recording(); rec = true; sym_reach("restarted"); }
                CHECK(o->is_recording() == rec, "the observer tells whether it is recording");
            }
            exe.step();
            if (k % f == 0) expect(k);
        }
    }
    o.reset();
    check();
    sym_reach("end");
}
extern "C" void h_file_config()
{
    // what is formatted how: concrete values
    auto dir = scratch() / "logs";
    file_observer_config config;
    config.set_timestamped_filenames(false);
    int precision = sym_choose("precision", -1, 3);
    if (precision >= 0) config.fixed_precision(precision);
    static const double values[] = {0.0, -1.5, 0.1234567, 1234567.25, 3e-7};
    double x = values[sym_choose("value", 0, 4)];
    bool unknown = sym_flag("unknown");
    config.log_simulator_variables("b", {"r", unknown ? "nothing" : "i"});
    auto algo = make_shared<fixed_step_algorithm>(to_duration(0.25), 0u);
    auto o = make_shared<file_observer>(dir, config);
    auto B = make_shared<fake_slave>();
    B->add("r", 0, variable_type::real, output); B->add("i", 1, variable_type::integer, output);
    B->at(variable_type::real, 0) = vr(x); B->at(variable_type::integer, 1) = vi(-42);
    {
        execution exe(tp(0), algo);
        exe.add_observer(o);
        bool threw = throws([&] { exe.add_slave(B, "b"); });
        CHECK(threw == unknown, "a configuration that names an unknown variable is an error, and only such a one");
        if (threw) { sym_reach("unknown variable"); return; }
        exe.step(); exe.step();
    }
    o.reset();
    char v[64], line[128];
    snprintf(v, sizeof v, precision >= 0 ? "%.*f" : "%.*g", precision >= 0 ? precision : 6, x);
    auto got = lines(slurp(dir / "b.csv"));
    CHECK(got.size() == 4 && got[0] == "Time,StepCount,r,i", "one header and one row per step");
    for (int k = 0; k < 3; ++k) { snprintf(line, sizeof line, "%g,%d,%s,-42", 0.25 * k, k, v); CHECK(got[k + 1] == line, "a row holds the time, the step number and the values of its step"); }
    CHECK(listing(dir) == (std::set<std::string>{"b.csv", "b_metadata.yaml"}), "one data and one metadata file per logged simulator");
    sym_reach("end");
}
// recording is switched by another thread while the simulation runs
extern "C" void h_file_threads()
{
    auto dir = scratch() / "logs";
    file_observer_config config;
    config.set_timestamped_filenames(false);
    config.log_simulator_variables("b", {"i"});
    auto algo = make_shared<fixed_step_algorithm>(to_duration(0.5), 0u);
    auto o = make_shared<file_observer>(dir, config);
    auto B = make_shared<fake_slave>();
    B->add("i", 1, variable_type::integer, output);
    B->on_step = [&](fake_slave& x, int n) { x.at(variable_type::integer, 1) = vi(100 + n); };
    bool restarted = false;
    {
        execution exe(tp(0), algo);
        exe.add_observer(o);
        exe.add_slave(B, "b");
        exe.step();
        bool again = restarted = sym_flag("again");
        std::thread th([&] { o->stop_recording(); if (again) o->start_recording(); });
        exe.step();
        th.join();
        CHECK(o->is_recording() == again, "the observer tells whether it is recording");
        exe.step();
    }
    o.reset();
    auto got = lines(slurp(dir / "b.csv"));
    CHECK(got.size() >= 3 && got[0] == "Time,StepCount,i" && got[1] == "0,0,100" && got[2] == "0.5,1,101", "rows recorded before recording is stopped are kept");
    int last = 1;
    for (size_t k = 3; k < got.size(); ++k) {
        int n = 0;
        for (int c = last + 1; c <= 3; ++c) { char l[64]; snprintf(l, sizeof l, "%g,%d,%d", 0.5 * c, c, 100 + c); if (got[k] == l) n = c; }
        CHECK(n > last, "every row is a whole row of a later step");
        last = n;
    }
    if (restarted) CHECK(last == 3, "a step after recording was started again is recorded"); else CHECK(last < 3, "nothing is recorded after recording was stopped");
    sym_reach("end");
}
