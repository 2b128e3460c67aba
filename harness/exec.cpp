// C01 C02 C03 C04 C05 C08: the fixed-step algorithm and the execution
#include "sim.hpp"
#include <cosim/error.hpp>
#include <future>
using namespace cosim;
using std::make_shared;
using std::shared_ptr;
using std::vector;
namespace
{
struct world
{
    shared_ptr<fixed_step_algorithm> algo;
    std::unique_ptr<execution> exe;
    vector<shared_ptr<fake_slave>> sl;
    world(int64_t t0, int64_t h, unsigned workers = 0)
    {
        algo = make_shared<fixed_step_algorithm>(duration(h), workers);
        exe = std::make_unique<execution>(tp(t0), algo);
    }
    simulator_index add(shared_ptr<fake_slave> s, int64_t hint = 0) { sl.push_back(s); return exe->add_slave(s, "s" + std::to_string(sl.size()), duration(hint)); }
};
int64_t sym_start() { return sym_range64("t0", -(1ll << 50), 1ll << 50); }
vector<event> only(const fake_slave& s, char op) { vector<event> r; for (auto& e : s.log) if (e.op == op) r.push_back(e); return r; }
int factor(int64_t d, int64_t h) { auto q = d / h; return q < 1 ? 1 : (int)q; }
}
// C01: who steps when, from where, how far; what is reported as finished
static void schedule(int nsims, int steps, unsigned workers, const vector<int64_t>& hint, const vector<int>& f, int64_t t0, int64_t h, bool setf)
{
    world w(t0, h, workers);
    auto obs = make_shared<fake_observer>();
    w.exe->add_observer(obs);
    for (int i = 0; i < nsims; ++i) {
        auto x = w.add(make_shared<fake_slave>(), hint[i]);
        CHECK(x == i, "simulators are numbered in order");
        if (setf && i == 0) w.algo->set_stepsize_decimation_factor(x, f[0]);
    }
    for (int k = 0; k < steps; ++k) {
        size_t mark = obs->log.size();
        auto dt = w.exe->step();
        CHECK(dt.count() == h, "the step has the base step size");
        CHECK(ns(w.exe->current_time()) == t0 + (k + 1) * h, "time advances by the base step size");
        // finished simulators
        vector<bool> fin(nsims, false);
        int nf = 0;
        for (size_t i = mark; i < obs->log.size(); ++i) if (obs->log[i].op == 'F') { auto a = obs->log[i].a; CHECK(a >= 0 && a < nsims && !fin[a], "a finished simulator is reported once"); fin[a] = true; ++nf; }
        for (int i = 0; i < nsims; ++i) CHECK(fin[i] == ((k + 1) % f[i] == 0), "exactly the simulators that end a step of their own are reported as finished");
        for (int i = 0; i < nsims; ++i) CHECK(w.sl[i]->steps == k / f[i] + 1, "a simulator is stepped on the multiples of its decimation factor only");
    }
    for (int i = 0; i < nsims; ++i) {
        auto d = only(*w.sl[i], 'D');
        CHECK((int)d.size() == (steps + f[i] - 1) / f[i], "number of steps of a simulator");
        for (size_t n = 0; n < d.size(); ++n) {
            CHECK(d[n].t == t0 + (int64_t)n * f[i] * h, "a simulator's step starts where its previous one ended");
            CHECK(d[n].dt == f[i] * h, "a simulator's step length is its decimation factor times the base step");
        }
        sym_observe("steps", d.size());
    }
}
extern "C" void h_schedule()
{
    int nsims = (int)sym_option("sims", 2), steps = (int)sym_option("steps", 5), maxf = (int)sym_option("maxf", 3);
    static const int64_t hs[] = {1, 7, 100000000, 1000000000000ll};
    int64_t h = hs[sym_choose("h", 0, 3)];
    vector<int64_t> hint; vector<int> f;
    bool setf = sym_flag("setf");
    for (int i = 0; i < nsims; ++i) {
        int64_t d = sym_range64("hint", 0, (maxf + 1) * h - 1);
        hint.push_back(d);
        f.push_back((int)sym_concretize(factor(d, h)));
    }
    if (setf) f[0] = sym_choose("f0", 1, maxf);
    sym_reach("run");
    schedule(nsims, steps, 0, hint, f, sym_start(), h, setf);
    sym_reach("end");
}
extern "C" void h_schedule_h()
{
    // an arbitrary base step size, hints stated as arbitrary durations around a multiple of it
    int64_t h = sym_range64("h", 1, sym_option("hmax", 1ll << 40));
    int m = sym_choose("m", 0, (int)sym_option("maxf", 3));
    int64_t rest = sym_range64("rest", 0, 1ll << 40);
    sym_assume(rest < h);
    vector<int64_t> hint{m * h + rest}; vector<int> f{m < 1 ? 1 : m};
    schedule(1, (int)sym_option("steps", 4), 0, hint, f, sym_start(), h, false);
    sym_reach("end");
}
extern "C" void h_schedule_threads()
{
    int nsims = (int)sym_option("sims", 2);
    vector<int64_t> hint; vector<int> f;
    for (int i = 0; i < nsims; ++i) { f.push_back(sym_choose("f", 1, 2)); hint.push_back(f[i] * 10); }
    schedule(nsims, (int)sym_option("steps", 2), (unsigned)sym_option("workers", 2), hint, f, 5, 10, false);
    sym_reach("end");
}
// C02: transfers between simulators
extern "C" void h_transfer()
{
    int steps = (int)sym_option("steps", 6), maxf = (int)sym_option("maxf", 3);
    int64_t h = 10;
    int fa = sym_choose("fa", 1, maxf), fb = sym_choose("fb", 1, maxf);
    variable_type t = all_types[sym_choose("type", 0, 3)];
    world w(0, h);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>();
    A->add("o", 1, t, output); A->add("o2", 2, t, output);
    B->add("i", 1, t, input); B->add("i2", 3, t, input); B->add("i3", 0, t, input);
    // every output takes an arbitrary new value at every step
    vector<val> o1, o2; // value after start (0) and after the n-th own step
    auto a_init1 = sym_val("o1", t), a_init2 = sym_val("o2", t);
    A->at(t, 1) = a_init1; A->at(t, 2) = a_init2;
    A->on_step = [&](fake_slave& s, int) { o1.push_back(sym_val("o1", t)); o2.push_back(sym_val("o2", t)); s.at(t, 1) = o1.back(); s.at(t, 2) = o2.back(); };
    bool afirst = sym_flag("afirst");
    simulator_index a, b;
    if (afirst) { a = w.add(A, fa * h); b = w.add(B, fb * h); } else { b = w.add(B, fb * h); a = w.add(A, fa * h); }
    w.exe->connect_variables(variable_id{a, t, 1}, variable_id{b, t, 1});
    w.exe->connect_variables(variable_id{a, t, 2}, variable_id{b, t, 3});
    // the last base step with the connection to i2 in place; afterwards it is disconnected
    int cut = sym_choose("cut", -1, (int)sym_option("cutmax", 2));
    if (cut == -1) w.algo->disconnect_variable(variable_id{b, t, 3});
    vector<val> seen1, seen2; vector<int> at; // B's inputs as its steps begin
    auto start1 = zero_val(t);
    B->on_step = [&](fake_slave& s, int n) { if (n == 0) start1 = s.at(t, 1); else { seen1.push_back(s.at(t, 1)); seen2.push_back(s.at(t, 3)); } };
    size_t writes0 = 0;
    for (int k = 0; k < steps; ++k) {
        w.exe->step();
        if (k == 0) { for (auto& e : B->log) if (e.op == 'W') ++writes0; }
        if (k == cut) w.algo->disconnect_variable(variable_id{b, t, 3});
    }
    CHECK(start1 == a_init1, "initial values are propagated during initialisation");
    size_t n = 0;
    val cur1 = zero_val(t), cur2 = zero_val(t);
    if (cut >= 0) cur2 = a_init2;
    for (int k = 0; k < steps; ++k) {
        // transfers at the end of initialisation (k = 0) and after base step k
        if (k % fa == 0 && k % fb == 0) { cur1 = o1.at(k / fa); if (cut >= 0 && k <= cut + 1) cur2 = o2.at(k / fa); }
        if (k % fb == 0) {
            CHECK(seen1.at(n) == cur1, "the target has the source's value of the last synchronisation point");
            CHECK(seen2.at(n) == cur2, "a second and a disconnected connection deliver exactly what they should");
            ++n;
        }
    }
    CHECK(n == seen1.size(), "number of target steps");
    // nothing else is written
    int writes1 = 0, writes3 = 0;
    bool started = false;
    for (auto& e : B->log) {
        if (e.op == 'S') started = true;
        if (e.op == 'W') { CHECK(e.ref == 1 || e.ref == 3, "only connected variables are written"); if (started) { if (e.ref == 1) ++writes1; else ++writes3; } }
    }
    int due = 0, due3 = 0;
    for (int k = 0; k < steps; ++k) if (k % fa == 0 && k % fb == 0) { ++due; if (cut >= 0 && k <= cut + 1) ++due3; }
    CHECK(writes1 == due, "the target variable is written once per synchronisation point");
    CHECK(writes3 == due3, "a disconnected variable is not written any more");
    CHECK(A->log.size() == (size_t)(2 + (steps + fa - 1) / fa), "nothing is written to the source");
    if (t != variable_type::string) sym_observe("in", B->at(t, 1).bits);
    sym_reach("end");
}
// C02: simulator -> function -> simulator
extern "C" void h_transfer_function()
{
    int steps = (int)sym_option("steps", 6), maxf = (int)sym_option("maxf", 3);
    int64_t h = 10;
    int fa = sym_choose("fa", 1, maxf), fb = sym_choose("fb", 1, maxf), fc = sym_choose("fc", 0, 2);
    variable_type t = all_types[sym_choose("type", 0, 3)];
    world w(0, h);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>(), C = make_shared<fake_slave>();
    auto F = make_shared<fake_function>();
    A->add("o", 1, t, output); B->add("i", 1, t, input); C->add("i", 1, t, input);
    vector<val> o;
    A->at(t, 1) = sym_val("o", t);
    A->on_step = [&](fake_slave& s, int) { o.push_back(sym_val("o", t)); s.at(t, 1) = o.back(); };
    auto a = w.add(A, fa * h), b = w.add(B, fb * h);
    simulator_index c = -1;
    if (fc > 0) c = w.add(C, fc * h);
    auto f = w.exe->add_function(F);
    w.exe->connect_variables(variable_id{a, t, 1}, fin(f, t));
    w.exe->connect_variables(fout(f, t), variable_id{b, t, 1});
    if (fc > 0) w.exe->connect_variables(fout(f, t), variable_id{c, t, 1});
    bool nofun = sym_flag("cut"); // the connection from the function is broken half way
    vector<std::pair<val, val>> ev; // input and output of each evaluation
    F->on_calculate = [&](fake_function& x) { x.out[(int)t] = sym_val("f", t); ev.push_back({x.in[(int)t], x.out[(int)t]}); };
    vector<val> seen, seenc;
    B->on_step = [&](fake_slave& s, int n) { if (n) seen.push_back(s.at(t, 1)); };
    C->on_step = [&](fake_slave& s, int n) { if (n) seenc.push_back(s.at(t, 1)); };
    int ff = fb; // the function's own period: that of its targets together
    if (fc > 0) while (ff % fc) ff += fb;
    val in = zero_val(t), out = zero_val(t), outc = zero_val(t);
    size_t n = 0, nc = 0;
    int half = steps / 2;
    for (int k = 0; k < steps; ++k) {
        size_t before = ev.size();
        w.exe->step();
        if (k == 0) {
            CHECK(ev.size() >= 1, "functions are evaluated during initialisation");
            // the transfer at the end of initialisation is the last evaluation before the first step ended
            before = ev.size();
            size_t last = ev.size() - 1;
            if (1 % ff == 0) --last;
            CHECK(ev[last].first == o.at(0), "the function sees the value at the end of initialisation");
            out = outc = ev[last].second; in = o.at(0);
        }
        if (k % fb == 0) { CHECK(seen.at(n) == out, "the target has the function's output of the last synchronisation point"); ++n; }
        if (fc > 0 && k % fc == 0) { CHECK(seenc.at(nc) == outc, "the second target has the function's output of the last synchronisation point"); ++nc; }
        int k1 = k + 1;
        if (k1 % ff == 0) {
            CHECK(k == 0 || ev.size() == before + 1, "the function is evaluated once at its synchronisation point");
            if (k1 % fa == 0) in = o.at(k1 / fa);
            CHECK(ev.back().first == in, "the function is evaluated on the inputs current at the synchronisation point");
            if (!(nofun && k >= half)) out = ev.back().second;
            outc = ev.back().second;
        } else CHECK(ev.size() == before, "the function is not evaluated between its synchronisation points");
        if (nofun && k + 1 == half) {
            w.algo->disconnect_variable(variable_id{b, t, 1});
            // with B gone the period is that of the remaining target
            ff = fc > 0 ? fc : 1;
        }
    }
    sym_observe("evaluations", ev.size());
    sym_reach("end");
}
// C02: initial values travel along chains
extern "C" void h_transfer_chain()
{
    variable_type t = all_types[sym_choose("type", 0, 3)];
    int n = (int)sym_option("chain", 3);
    bool rev = sym_flag("reverse"), fun = sym_flag("fun");
    world w(0, 10);
    vector<shared_ptr<fake_slave>> c;
    vector<simulator_index> idx(n);
    vector<val> start(n, zero_val(t));
    for (int i = 0; i < n; ++i) {
        auto s = make_shared<fake_slave>();
        s->add("i", 0, t, input); s->add("o", 1, t, output);
        s->on_read = [t, i](fake_slave& x) { if (i > 0) x.at(t, 1) = x.at(t, 0); }; // feed-through
        s->on_step = [&start, t, i](fake_slave& x, int k) { if (k == 0) start[i] = x.at(t, 0); };
        c.push_back(s);
    }
    for (int j = 0; j < n; ++j) { int i = rev ? n - 1 - j : j; idx[i] = w.add(c[i]); }
    auto v = sym_val("v", t);
    c[0]->at(t, 1) = v;
    auto F = make_shared<fake_function>();
    F->on_calculate = [&](fake_function& x) { x.out[(int)t] = x.in[(int)t]; };
    auto f = w.exe->add_function(F);
    for (int i = 0; i + 1 < n; ++i) {
        if (i == 0 && fun) { w.exe->connect_variables(variable_id{idx[0], t, 1}, fin(f, t)); w.exe->connect_variables(fout(f, t), variable_id{idx[1], t, 0}); }
        else w.exe->connect_variables(variable_id{idx[i], t, 1}, variable_id{idx[i + 1], t, 0});
    }
    w.exe->step();
    for (int i = 1; i < n; ++i) CHECK(start[i] == v, "an initial value reaches the end of a chain before the simulation starts");
    sym_reach("end");
}
// C03: which connections are accepted
extern "C" void h_connect()
{
    world w(0, 10);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>();
    static const variable_causality cs[] = {output, input, local, parameter, calculated_parameter};
    // one side has a variable of arbitrary type and causality and is asked for by an arbitrary reference;
    // the other side is a valid variable of an arbitrary type
    bool side = sym_flag("side");
    variable_type ta[2] = {variable_type::real, variable_type::real}, tb[2] = {variable_type::real, variable_type::real};
    variable_causality ca[2] = {output, output}, cb[2] = {input, input};
    variable_type at = all_types[sym_choose("atype", 0, 3)], ot = all_types[sym_choose("otype", 0, 3)];
    (side ? ta : tb)[0] = all_types[sym_choose("type", 0, 3)];
    (side ? ca : cb)[0] = cs[sym_choose("causality", 0, 4)];
    (side ? tb : ta)[0] = ot;
    for (int i = 0; i < 2; ++i) { A->add(i ? "y" : "x", i, ta[i], ca[i]); B->add(i ? "v" : "u", i, tb[i], cb[i]); }
    auto a = w.add(A), b = w.add(B);
    variable_id asked{sym_choose("sim", -1, 2), at, (value_reference)sym_choose("ref", 0, 2)}, other{side ? b : a, ot, 0};
    variable_id src = side ? asked : other, tgt = side ? other : asked;
    auto has = [&](const variable_id& v, variable_causality c) {
        if (v.simulator == a) { for (int i = 0; i < 2; ++i) if (v.reference == (value_reference)i && v.type == ta[i] && ca[i] == c) return true; }
        if (v.simulator == b) { for (int i = 0; i < 2; ++i) if (v.reference == (value_reference)i && v.type == tb[i] && cb[i] == c) return true; }
        return false;
    };
    bool must = has(src, output) && has(tgt, input) && src.type == tgt.type;
    bool may = (has(src, output) || has(src, calculated_parameter)) && (has(tgt, input) || has(tgt, parameter)) && src.type == tgt.type;
    bool ok = true;
    try { w.exe->connect_variables(src, tgt); } catch (const std::exception&) { ok = false; }
    CHECK(!ok || may, "an invalid connection is rejected");
    CHECK(ok || !must, "a valid connection is accepted");
    sym_reach(ok ? "accepted" : "rejected");
    // whatever was asked for, only an accepted connection transfers anything
    auto x = sym_val("x", ta[0]), y = sym_val("y", ta[1]);
    A->at(ta[0], 0) = x; A->at(ta[1], 1) = y;
    w.exe->step(); w.exe->step();
    for (auto& e : B->log) if (e.op == 'W') CHECK(ok && tgt.simulator == b && e.ref == tgt.reference && e.v.type == tgt.type, "a rejected connection changes nothing");
    if (ok && src.simulator == a && tgt.simulator == b) CHECK(B->at(tgt.type, tgt.reference) == A->at(src.type, src.reference), "an accepted connection delivers the source's value");
}
extern "C" void h_connect_twice()
{
    // two sources compete for one input; the sources may be simulators or functions
    world w(0, 10);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>();
    variable_type t = all_types[sym_choose("type", 0, 3)];
    for (int i = 0; i < 2; ++i) { A->add(i ? "y" : "x", i, t, output); B->add(i ? "v" : "u", i, t, input); }
    auto a = w.add(A), b = w.add(B);
    auto F = make_shared<fake_function>(), G = make_shared<fake_function>();
    auto f = w.exe->add_function(F), g = w.exe->add_function(G);
    val v[4];
    for (auto& z : v) z = sym_val("v", t);
    A->at(t, 0) = v[0]; A->at(t, 1) = v[1]; F->out[(int)t] = v[2]; G->out[(int)t] = v[3];
    int owner[2] = {-1, -1};
    int n = (int)sym_option("connections", 3);
    for (int k = 0; k < n; ++k) {
        int s = sym_choose("src", 0, 3), to = sym_choose("tgt", 0, 1);
        bool ok = true;
        variable_id in{b, t, (value_reference)to};
        try {
            if (s < 2) w.exe->connect_variables(variable_id{a, t, (value_reference)s}, in);
            else w.exe->connect_variables(fout(s == 2 ? f : g, t), in);
        } catch (const std::exception&) { ok = false; }
        CHECK(ok == (owner[to] < 0), "an input accepts a connection exactly when it has none yet");
        if (ok) owner[to] = s;
    }
    w.exe->step(); w.exe->step();
    for (int i = 0; i < 2; ++i) CHECK(B->at(t, i) == (owner[i] < 0 ? zero_val(t) : v[owner[i]]), "the input is driven by the accepted connection only");
    int writes[2] = {0, 0};
    bool started = false;
    for (auto& e : B->log) { if (e.op == 'S') started = true; if (started && e.op == 'W') ++writes[e.ref]; }
    for (int i = 0; i < 2; ++i) CHECK(writes[i] == (owner[i] < 0 ? 0 : 2), "the input is written once per synchronisation point");
    sym_reach("end");
}
extern "C" void h_connect_function()
{
    world w(0, 10);
    auto A = make_shared<fake_slave>();
    for (int t = 0; t < 4; ++t) { A->add("o", 1, all_types[t], output); A->add("i", 2, all_types[t], input); }
    auto a = w.add(A);
    auto F = make_shared<fake_function>();
    auto f = w.exe->add_function(F);
    bool into = sym_flag("into");
    variable_type vt = all_types[sym_choose("vt", 0, 3)], ft = all_types[sym_choose("ft", 0, 3)];
    function_io_id io{sym_choose("fn", -1, 1), ft, function_io_reference{sym_choose("group", -1, 2), sym_range("gi", -1, 1), sym_choose("io", -1, 4), sym_range("ii", -1, 1)}};
    bool valid = io.function == f && io.reference.group == (into ? 0 : 1) && io.reference.group_instance == 0 && io.reference.io == (int)ft && io.reference.io_instance == 0 && vt == ft;
    bool ok = true;
    try {
        if (into) w.exe->connect_variables(variable_id{a, vt, 1}, io);
        else w.exe->connect_variables(io, variable_id{a, vt, 2});
    } catch (const std::exception&) { ok = false; }
    CHECK(ok == valid, "a function connection is accepted exactly when it is valid");
    if (ok) {
        bool again = true;
        try { if (into) w.exe->connect_variables(variable_id{a, vt, 1}, io); else w.exe->connect_variables(io, variable_id{a, vt, 2}); } catch (const std::exception&) { again = false; }
        CHECK(!again, "a second connection to the same input is rejected");
    }
    sym_reach(ok ? "accepted" : "rejected");
    w.exe->step();
    CHECK(F->sets == 0 || (ok && into), "a rejected connection transfers nothing to the function");
    int writes = 0;
    for (auto& e : A->log) if (e.op == 'W') ++writes;
    CHECK(writes == 0 || (ok && !into), "a rejected connection transfers nothing to the simulator");
    CHECK((F->sets > 0) == (ok && into) && (writes > 0) == (ok && !into), "an accepted connection transfers");
}
// C04: an algorithm with arbitrary step sizes and finished sets; the execution's bookkeeping
namespace
{
struct fake_algorithm : algorithm
{
    int inits = 0;
    vector<int64_t> dts, ts;
    vector<vector<int>> fins;
    int nsims = 0;
    bool fail = false, few = false; // few: step sizes from a small set
    void add_simulator(simulator_index, simulator*, duration) override { ++nsims; }
    void remove_simulator(simulator_index) override {}
    void add_function(function_index, function*) override {}
    void connect_variables(variable_id, variable_id) override {}
    void connect_variables(variable_id, function_io_id) override {}
    void connect_variables(function_io_id, variable_id) override {}
    void disconnect_variable(variable_id) override {}
    void disconnect_variable(function_io_id) override {}
    void setup(time_point, std::optional<time_point>) override {}
    void initialize() override { ++inits; }
    std::pair<duration, std::unordered_set<simulator_index>> do_step(time_point t) override
    {
        ts.push_back(ns(t));
        if (fail) throw std::runtime_error("failed");
        static const int64_t set[] = {10000000, 7, 1000000000000001ll};
        int64_t dt = few ? set[sym_choose("dt", 0, 2)] : sym_range64("dt", 1, 1ll << 40);
        dts.push_back(dt);
        std::unordered_set<simulator_index> s;
        vector<int> v;
        for (int i = 0; i < nsims; ++i) if (sym_flag("finished")) { s.insert(i); v.push_back(i); }
        fins.push_back(v);
        return {duration(dt), s};
    }
};
}
extern "C" void h_notify()
{
    int64_t t0 = sym_start();
    auto algo = make_shared<fake_algorithm>();
    execution exe(tp(t0), algo);
    vector<int> order;
    vector<shared_ptr<fake_observer>> ob; vector<shared_ptr<fake_manipulator>> mp;
    int nobs = 2, nman = 2, nsim = (int)sym_option("sims", 2), steps = (int)sym_option("steps", 2);
    vector<int> simAdded;
    // arbitrary interleaving of adding simulators, observers and manipulators before the start
    int left[3] = {nobs, nman, nsim};
    while (left[0] + left[1] + left[2]) {
        int what = sym_choose("what", 0, 2);
        if (left[what] == 0) { sym_end_path(); return; }
        --left[what];
        if (what == 0) { auto o = make_shared<fake_observer>(); o->order = &order; o->id = (int)ob.size(); ob.push_back(o); exe.add_observer(o); }
        else if (what == 1) { auto m = make_shared<fake_manipulator>(); mp.push_back(m); exe.add_manipulator(m); }
        else exe.add_slave(make_shared<fake_slave>(), "s", duration(0));
    }
    CHECK(ns(exe.current_time()) == t0, "the execution starts at its start time");
    shared_ptr<fake_observer> late;
    bool uselate = sym_flag("late");
    int64_t t = t0;
    for (int k = 0; k < steps; ++k) {
        vector<size_t> mark; for (auto& o : ob) mark.push_back(o->log.size());
        order.clear();
        auto dt = exe.step().count();
        CHECK(dt == algo->dts[k], "step() returns the duration the algorithm used");
        CHECK(algo->ts[k] == t, "the algorithm is given the current time");
        CHECK(algo->inits == 1, "the algorithm is initialised once");
        for (auto& m : mp) {
            int n = 0; for (auto& e : m->log) if (e.op == 'B') ++n;
            CHECK(n == k + 1 && m->log.back().a == t, "manipulators are told a step commences with the time before it");
        }
        t += dt;
        CHECK(ns(exe.current_time()) == t, "time advances by the duration used");
        for (size_t i = 0; i < ob.size(); ++i) {
            auto& L = ob[i]->log; size_t p = mark[i];
            if (k == 0) { CHECK(p < L.size() && L[p].op == 'I' && L[p].a == 0 && L[p].b == t0, "initialisation is announced first, with step 0 and the start time"); ++p; }
            vector<bool> got(nsim, false);
            for (size_t f = 0; f < algo->fins[k].size(); ++f, ++p) {
                CHECK(p < L.size() && L[p].op == 'F' && L[p].b == k + 1 && L[p].c == dt && L[p].d == t, "finished simulators are announced with step number, duration and time after the step");
                CHECK(L[p].a >= 0 && L[p].a < nsim && !got[L[p].a], "each finished simulator is announced once");
                got[L[p].a] = true;
            }
            for (int f : algo->fins[k]) CHECK(got[f], "every finished simulator is announced");
            CHECK(p < L.size() && L[p].op == 'C' && L[p].a == k + 1 && L[p].b == dt && L[p].c == t, "then the step is announced as complete");
            CHECK(p + 1 == L.size(), "and nothing more");
        }
        // observers are served in the order they were added
        if (k > 0) for (size_t i = 1; i < order.size(); ++i) CHECK(order[i] >= order[i - 1], "observers are told in the order they were added");
        if (uselate && k == 0) {
            late = make_shared<fake_observer>(); exe.add_observer(late);
            CHECK(late->log.size() == (size_t)nsim + 1 && late->log.back().op == 'I' && late->log.back().a == 1 && late->log.back().b == t, "an observer added later is told of the simulators and of initialisation at once");
            late->order = &order; late->id = 99; ob.push_back(late);
        }
    }
    for (auto& o : ob) { vector<int> n(nsim, 0); int inits = 0; for (auto& e : o->log) { if (e.op == 'A') ++n[e.a]; if (e.op == 'I') ++inits; } for (int c : n) CHECK(c == 1, "a simulator is announced to an observer exactly once"); CHECK(inits == 1, "initialisation is announced exactly once"); }
    for (auto& m : mp) { vector<int> n(nsim, 0); for (auto& e : m->log) if (e.op == 'A') ++n[e.a]; for (int c : n) CHECK(c == 1, "a simulator is announced to a manipulator exactly once"); }
    // a failing step changes nothing
    if (sym_flag("fail")) {
        algo->fail = true;
        vector<size_t> mark; for (auto& o : ob) mark.push_back(o->log.size());
        bool threw = false;
        try { exe.step(); } catch (const std::exception&) { threw = true; }
        CHECK(threw && ns(exe.current_time()) == t, "a failing step raises an error and time does not advance");
        for (size_t i = 0; i < ob.size(); ++i) CHECK(ob[i]->log.size() == mark[i], "nothing is announced for a failing step");
        sym_reach("failed");
    }
    sym_reach("end");
}
// C05
extern "C" void h_until()
{
    int64_t t0 = sym_start();
    auto algo = make_shared<fake_algorithm>();
    algo->few = true;
    execution exe(tp(t0), algo);
    int maxsteps = (int)sym_option("steps", 4);
    bool bounded = sym_flag("bounded");
    int64_t T = sym_range64("T", -(1ll << 51), 1ll << 51);
    int stopAt = sym_choose("stopAt", 0, maxsteps), failAt = sym_choose("failAt", 0, maxsteps);
    auto obs = make_shared<fake_observer>();
    int n = 0;
    bool stopped = false;
    CHECK(!exe.is_running(), "not running before the call");
    obs->on_step = [&] {
        ++n;
        CHECK(exe.is_running() || stopped, "running during the call");
        if (n == stopAt) { exe.stop_simulation(); stopped = true; }
        if (n == failAt) algo->fail = true;
        if (n > maxsteps) sym_end_path(); // outside the bound
    };
    exe.add_observer(obs);
    bool threw = false, r = false;
    try { r = exe.simulate_until(bounded ? std::optional<time_point>(tp(T)) : std::nullopt); } catch (const std::exception&) { threw = true; }
    CHECK(!exe.is_running(), "not running after the call");
    int64_t t = ns(exe.current_time());
    CHECK(n >= 1 || threw, "at least one step is taken");
    if (threw) { CHECK(failAt > 0 && n == failAt, "an error comes from the failing step only"); sym_reach("threw"); return; }
    int64_t last = algo->dts.back();
    // to within one hundredth of a step (one nanosecond either way for rounding)
    auto reached = [&](int64_t time, int64_t step) { return bounded && T - time <= step / 100; };
    auto within = [&](int64_t time, int64_t step) { return bounded && T - time < step / 100; };
    if (n == stopAt) { CHECK(!r, "a stopped simulation reports that it was stopped"); sym_reach("stopped"); }
    else {
        CHECK(r, "a simulation that was not stopped reports completion");
        CHECK(bounded, "without an end only a stop request ends the simulation");
        CHECK(reached(t, last), "the target time has been reached");
        sym_reach("completed");
    }
    int64_t u = t0;
    for (int k = 0; k + 1 < n; ++k) { u += algo->dts[k]; CHECK(!within(u, algo->dts[k]) && !(bounded && u >= T), "no step is taken once the target time has been reached"); CHECK(k + 1 != stopAt, "no step is taken after a stop request"); }
    u += last;
    CHECK(u == t, "whole steps are taken");
    // a second call works the same way: at least one step, runs again
    if (sym_flag("again")) {
        int m = n; stopped = false; algo->fail = false; stopAt = n + 1; failAt = 0; maxsteps = n + 1;
        bool q = exe.simulate_until(std::nullopt);
        CHECK(!q && n == m + 1 && !exe.is_running(), "a stopped execution can be run again");
        sym_reach("again");
    }
}
extern "C" void h_until_async()
{
    // a stop request from another thread
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto s = make_shared<fake_slave>();
    exe.add_slave(s, "s", duration(10));
    int m = (int)sym_option("steps", 2);
    int mode = sym_choose("mode", 0, 2);
    std::promise<void> requested, begun;
    auto r = requested.get_future();
    auto b = begun.get_future();
    s->on_step = [&](fake_slave&, int n) { if (n == 1) begun.set_value(); if (n == m) r.wait(); if (n > m) sym_fail("a step is taken after a stop request"); };
    auto fut = exe.simulate_until_async(mode == 2 ? std::optional<time_point>(tp(10 * m)) : std::nullopt);
    CHECK(exe.is_running(), "running from the call on");
    if (mode == 1) b.wait(); // otherwise the request may come before the first step
    exe.stop_simulation();
    requested.set_value();
    bool result = fut.get();
    CHECK(!result, "a stop request decides the result");
    CHECK(!exe.is_running(), "not running after the call");
    CHECK(s->steps >= 1 && s->steps <= m, "the request ends the simulation after the step in progress");
    CHECK(ns(exe.current_time()) == 10 * s->steps, "whole steps are taken");
    sym_reach("end");
}
// C08
static void lifecycle(fake_slave& s)
{
    int phase = 0; // 0 created, 1 initialising, 2 running
    for (auto& e : s.log) {
        if (e.op == 'U') { CHECK(phase == 0, "setup comes first and once"); phase = 1; }
        else if (e.op == 'S') { CHECK(phase == 1, "the start is announced once, after setup"); phase = 2; }
        else if (e.op == 'D') CHECK(phase == 2, "steps come after the start of the simulation");
        else if (e.op == 'W') CHECK(phase >= 1, "variables are set after setup");
        else CHECK(false, "no other call");
    }
}
extern "C" void h_lifecycle()
{
    unsigned workers = (unsigned)sym_option("workers", 0);
    int nsims = (int)sym_option("sims", 2), steps = (int)sym_option("steps", 2);
    world w(sym_option("workers", 0) ? 5 : sym_start(), 10, workers);
    int64_t t0 = ns(w.exe->current_time());
    // where things go wrong: which slave, in which call, at which occurrence
    int who = sym_choose("who", 0, nsims - 1), where = sym_choose("where", 0, (int)sym_option("where", 6)), when = 0;
    bool alsoOther = sym_flag("both");
    if (where == 3 || where == 4) when = sym_choose("when", 1, steps);
    struct boom : std::runtime_error { boom() : std::runtime_error("boom") {} };
    bool inSetup = false;
    for (int i = 0; i < nsims; ++i) {
        auto s = make_shared<fake_slave>();
        s->add("i", 0, variable_type::real, input); s->add("o", 1, variable_type::real, output);
        bool bad = i == who || alsoOther;
        s->on_setup = [=](fake_slave&) { if (bad && where == 1) throw boom(); };
        s->on_step = [=](fake_slave& x, int n) {
            if (bad && where == 2 && n == 0) throw boom();
            if (bad && where == 3 && n == when) throw boom();
            if (bad && where == 4 && n == when) x.result = sym_flag("canceled") ? step_result::canceled : step_result::failed;
        };
        s->on_read = [=](fake_slave& x) {
            CHECK(x.setups == 1, "variables are read after setup");
            if (bad && where == 5 && x.steps == 0) throw boom();
            if (bad && where == 6 && x.steps == 1) throw boom();
        };
        w.add(s);
    }
    for (int i = 0; i < nsims; ++i) w.exe->connect_variables(variable_id{i, variable_type::real, 1}, variable_id{(i + 1) % nsims, variable_type::real, 0});
    bool threw = false;
    int done = 0;
    int64_t before = t0;
    try { for (; done < steps; ++done) { before = ns(w.exe->current_time()); w.exe->step(); } }
    catch (const std::exception& e) { threw = true; }
    CHECK(threw == (where != 0), "a failure of a slave raises an error, and only that");
    if (threw) {
        CHECK(ns(w.exe->current_time()) == before, "time does not advance in a failing step");
        int fails = where == 3 || where == 4 ? when - 1 : 0;
        CHECK(done == fails, "the error is raised by the call that caused it");
        sym_reach("failed");
    } else sym_reach("fine");
    for (auto& s : w.sl) {
        lifecycle(*s);
        CHECK(s->setups == 1 || where == 1, "every slave is set up once");
        if (!threw) CHECK(s->starts == 1 && s->steps == steps, "every slave is started once and stepped");
        if (where == 3 || where == 4) CHECK(s->steps == when, "the other slaves finish the step too");
    }
    sym_observe("done", done);
}
