// C06, C07: the variable caches and modifiers of slave_simulator
#include "sim.hpp"
#include "cosim/slave_simulator.hpp"
#include <map>
#include <optional>
using namespace cosim;
using std::make_shared;
using std::vector;
namespace
{
struct bench
{
    std::shared_ptr<fake_slave> s = make_shared<fake_slave>();
    std::unique_ptr<slave_simulator> sim;
    int phase = 0; // 1 initialisation, 2 simulation
    int64_t t = 0;
    int64_t dt = 0;
    void build() { sim = std::make_unique<slave_simulator>(s, "s"); }
    void setup() { sim->setup(tp(0), std::nullopt, std::nullopt); phase = 1; }
    // what: 0 iterate, 1 start, 2 step
    void go(int what)
    {
        if (what == 0) { dt = 0; sim->do_iteration(); }
        else if (what == 1) { dt = 0; sim->start_simulation(); phase = 2; }
        else { dt = 10; CHECK(sim->do_step(tp(t), duration(10)) == step_result::complete, "the step result is the slave's"); t += 10; }
    }
    int pick() { return phase == 1 ? sym_choose("initstep", 0, 1) : 2; }
};
int nth(variable_type t) { return (int)t; }
}
extern "C" void h_set_cache()
{
    int n = (int)sym_option("ops", 5);
    auto t = all_types[sym_choose("type", 0, 3)];
    auto t2 = all_types[(nth(t) + 1) % 4];
    bench b;
    struct var { variable_type t; value_reference r; };
    const var vars[3] = {{t, 0}, {t, 3}, {t2, 0}}; // two of a type, and one of another type with the same reference
    val start[3];
    for (int i = 0; i < 3; ++i) {
        b.s->add("v" + std::to_string(i), vars[i].r, vars[i].t, input);
        if (i == 1) { start[1] = sym_val("start", t); b.s->md.variables.back().start = scalar(start[1]); }
    }
    b.build();
    auto& sim = *b.sim;
    CHECK(throws([&] { set_value(sim, 0, zero_val(t)); }), "setting a variable that is not exposed is an error");
    CHECK(throws([&] { sim.expose_for_setting(t, 5); }), "exposing a variable that does not exist is an error");
    for (int i = 0; i < 3; ++i) sim.expose_for_setting(vars[i].t, vars[i].r);
    bool early = sym_flag("early");
    std::map<int, val> pending;
    if (early) { pending[0] = sym_val("v", t); set_value(sim, 0, pending[0]); }
    b.setup();
    for (auto& e : b.s->log) CHECK(e.op != 'W', "nothing is set at setup");
    for (int k = 0; k < n; ++k) {
        int op = sym_choose("op", 0, 4);
        if (op < 3) { auto v = sym_val("v", vars[op].t, (int)sym_option("len", 2)); set_value(sim, vars[op].r, v); pending[op] = v; }
        else if (op == 3) { sim.expose_for_setting(t, 0); sim.expose_for_setting(t, 3); } // once more: no effect
        if (op < 4 && k + 1 < n) continue;
        size_t mark = b.s->log.size();
        b.go(b.pick());
        size_t w = 0;
        bool stepped = false;
        for (size_t i = mark; i < b.s->log.size(); ++i) {
            auto& e = b.s->log[i];
            if (e.op == 'D' || e.op == 'S') stepped = true;
            if (e.op != 'W') continue;
            ++w;
            CHECK(!stepped, "values are delivered before the step");
            bool found = false;
            for (auto& p : pending) if (vars[p.first].r == e.ref && vars[p.first].t == e.v.type) { found = true; CHECK(p.second == e.v, "the value set last is delivered, bit for bit"); }
            CHECK(found, "only variables that were set are written");
        }
        CHECK(w == pending.size(), "every value set is delivered exactly once");
        pending.clear();
        sym_reach(b.phase == 2 ? "delivered in a step" : "delivered in an iteration");
    }
    if (pending.empty()) { size_t mark = b.s->log.size(); b.go(b.pick()); for (size_t i = mark; i < b.s->log.size(); ++i) CHECK(b.s->log[i].op != 'W', "nothing is delivered twice"); }
    sym_reach("end");
}
extern "C" void h_get_cache()
{
    int n = (int)sym_option("ops", 4);
    auto t = all_types[sym_choose("type", 0, 3)];
    auto t2 = all_types[(nth(t) + 1) % 4];
    bench b;
    struct var { variable_type t; value_reference r; };
    const var vars[3] = {{t, 4}, {t, 1}, {t2, 1}};
    for (int i = 0; i < 3; ++i) b.s->add("v" + std::to_string(i), vars[i].r, vars[i].t, output);
    auto fresh = [&] { for (auto& v : vars) b.s->at(v.t, v.r) = sym_val("v", v.t, (int)sym_option("len", 2)); };
    bool exposed[3] = {false, false, false};
    std::optional<val> current[3];
    auto update = [&] { for (int i = 0; i < 3; ++i) if (exposed[i]) current[i] = b.s->at(vars[i].t, vars[i].r); };
    fresh();
    b.s->on_step = [&](fake_slave&, int) { fresh(); };
    b.build();
    auto& sim = *b.sim;
    auto expose = [&](int i) { sim.expose_for_getting(vars[i].t, vars[i].r); if (!exposed[i]) { exposed[i] = true; current[i].reset(); } };
    int first = sym_choose("first", -1, 2);
    if (first >= 0) expose(first);
    b.setup(); update();
    for (int k = 0; k < n; ++k) {
        int op = sym_choose("op", 0, 3);
        if (op < 3) expose(op);
        else {
            b.go(b.pick()); update();
            b.s->at(t, 1) = sym_val("later", t); // the slave's value between steps does not show
        }
        for (int i = 0; i < 3; ++i) {
            if (!exposed[i]) CHECK(throws([&] { get_value(sim, vars[i].t, vars[i].r); }), "reading a variable that is not exposed is an error");
            else if (current[i]) { CHECK(get_value(sim, vars[i].t, vars[i].r) == *current[i], "the value read is the slave's value after the last step"); sym_reach("read"); }
        }
    }
    sym_reach("end");
}
extern "C" void h_modifiers()
{
    int n = (int)sym_option("ops", 4);
    auto t = all_types[sym_choose("type", 0, 3)];
    auto t2 = all_types[(nth(t) + 1) % 4];
    bench b;
    // inputs 0 and 3, outputs 1 and 4, and one of each of another type with the same references
    struct var { variable_type t; value_reference r; bool in; };
    const var vars[6] = {{t, 0, true}, {t, 3, true}, {t2, 0, true}, {t, 1, false}, {t, 4, false}, {t2, 1, false}};
    val last[6]; // last value set or start value; the value the slave has
    for (int i = 0; i < 6; ++i) { b.s->add("v" + std::to_string(i), vars[i].r, vars[i].t, vars[i].in ? input : output); last[i] = zero_val(vars[i].t); }
    last[1] = sym_val("start", t); b.s->md.variables[1].start = scalar(last[1]);
    auto fresh = [&] { for (int i = 3; i < 6; ++i) last[i] = b.s->at(vars[i].t, vars[i].r) = sym_val("v", vars[i].t); };
    fresh();
    b.s->on_step = [&](fake_slave&, int) { fresh(); };
    b.build();
    auto& sim = *b.sim;
    bool installed[6] = {};
    int calls[6] = {};
    val result[6], shown[6];
    bool send[6] = {}; // the slave is to be given a value at the next opportunity
    auto install = [&](int i) {
        set_modifier(sim, vars[i].in, vars[i].t, vars[i].r, [&, i](const val& x, duration d) {
            ++calls[i];
            CHECK(x == last[i], "a modifier is applied to the original value");
            CHECK(d.count() == b.dt, "a modifier is given the length of the step");
            result[i] = sym_val("modified", vars[i].t);
            return result[i];
        });
        installed[i] = true; if (vars[i].in) send[i] = true;
    };
    CHECK(throws([&] { set_modifier(sim, true, t, 0, [](const val& x, duration) { return x; }); }), "a modifier for a variable that is not exposed is an error");
    CHECK(throws([&] { set_modifier(sim, false, t, 1, [](const val& x, duration) { return x; }); }), "a modifier for a variable that is not exposed is an error");
    for (auto& v : vars) v.in ? sim.expose_for_setting(v.t, v.r) : sim.expose_for_getting(v.t, v.r);
    bool early = sym_flag("early");
    if (early) install(sym_flag("out") ? 3 : 0);
    b.setup();
    for (int k = 0; k < n; ++k) {
        int op = sym_choose("op", 0, 9);
        if (op < 3) { last[op] = sym_val("set", vars[op].t); set_value(sim, vars[op].r, last[op]); send[op] = true; }
        else if (op < 7) { const int w[4] = {0, 1, 3, 4}; install(w[op - 3]); }
        else if (op < 9) { const int w[2] = {0, 3}; int i = w[op - 7]; set_modifier(sim, vars[i].in, t, vars[i].r, nullptr); installed[i] = false; if (vars[i].in) send[i] = true; }
        for (int i = 0; i < 4; ++i) {
            auto& m = modified_variables(sim, all_types[i]);
            size_t want = 0;
            for (int j = 0; j < 6; ++j) if (installed[j] && vars[j].t == all_types[i]) { ++want; CHECK(m.count(vars[j].r) == 1, "a variable with a modifier is reported as modified"); }
            CHECK(m.size() == want, "no other variable is reported as modified");
        }
        if (op < 9 && k + 1 < n) continue;
        for (int& c : calls) c = 0;
        size_t mark = b.s->log.size();
        b.go(b.pick());
        size_t w = 0, want = 0;
        for (int i = 0; i < 3; ++i) if (send[i] || installed[i]) ++want;
        for (size_t i = mark; i < b.s->log.size(); ++i) {
            auto& e = b.s->log[i];
            if (e.op != 'W') continue;
            ++w;
            for (int j = 0; j < 3; ++j) if (vars[j].r == e.ref && vars[j].t == e.v.type) {
                CHECK(send[j] || installed[j], "a variable that was neither set nor modified is not written");
                CHECK(e.v == (installed[j] ? result[j] : last[j]), "the slave is given the modified value, or the original one without a modifier");
            }
        }
        CHECK(w == want, "every variable set or modified is delivered once");
        for (int j = 0; j < 6; ++j) {
            CHECK(calls[j] == (installed[j] ? 1 : 0), "an installed modifier is applied once per step, and only while installed");
            if (!vars[j].in) for (int twice = 0; twice < 2; ++twice) CHECK(get_value(sim, vars[j].t, vars[j].r) == (installed[j] ? result[j] : last[j]), "the value read is the modified one, or the original one without a modifier");
        }
        for (bool& x : send) x = false;
        sym_reach(b.phase == 2 ? "step" : "iteration");
    }
    sym_reach("end");
}
