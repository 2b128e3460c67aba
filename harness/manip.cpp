// C09, C10, C11: override manipulator, scenario manager, scenario files
#include "sim.hpp"
#include "scratch.hpp"
#include <cosim/manipulator/override_manipulator.hpp>
#include <cosim/manipulator/scenario_manager.hpp>
#include "cosim/scenario_parser.hpp"
#include <algorithm>
#include <future>
#include <map>
#include <optional>
#include <thread>
using namespace cosim;
using std::make_shared;
using std::vector;
namespace
{
void give(override_manipulator& m, simulator_index s, value_reference r, const val& v)
{
    switch (v.type) {
        case variable_type::real: m.override_real_variable(s, r, v.real()); break;
        case variable_type::integer: m.override_integer_variable(s, r, v.integer()); break;
        case variable_type::boolean: m.override_boolean_variable(s, r, v.boolean()); break;
        default: m.override_string_variable(s, r, v.text);
    }
}
}
// C09: two simulators with two connections; outputs and inputs are overridden and reset in any order
extern "C" void h_override()
{
    int steps = (int)sym_option("steps", 3), maxops = (int)sym_option("ops", 2), len = (int)sym_option("len", 2);
    auto t = all_types[sym_choose("type", 0, 3)];
    auto t2 = all_types[((int)t + 1) % 4];
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>();
    // variables 0, 1: outputs of A (1: a calculated parameter); 2, 3: inputs of B, connected to them; 4: an input
    // of B of another type with the reference of variable 2, not connected; 5: an output of B
    struct var { int sim; variable_type t; value_reference r; bool in; };
    const var vars[6] = {{0, t, 1, false}, {0, t, 2, false}, {1, t, 1, true}, {1, t, 3, true}, {1, t2, 1, true}, {1, t, 2, false}};
    A->add("o", 1, t, output); A->add("o2", 2, t, output); A->add("l", 5, t, local);
    bool first = sym_flag("manipulator first");
    B->add("i", 1, t, input); B->add("i2", 3, t, input); B->add("p", 1, t2, parameter); B->add("x", 2, t, first ? calculated_parameter : output);
    val own[6]; // what the model or the connection produces
    for (int i = 0; i < 6; ++i) own[i] = zero_val(vars[i].t);
    auto fresh = [&](fake_slave& s, int i) { own[i] = sym_val("v", t, len); s.at(t, vars[i].r) = own[i]; };
    val transferred[2] = {zero_val(t), zero_val(t)}; // what the connections delivered last
    A->on_step = [&](fake_slave& s, int n) { fresh(s, 0); fresh(s, 1); if (n == 0) { transferred[0] = own[0]; transferred[1] = own[1]; } };
    val seen[3];
    B->on_step = [&](fake_slave& s, int) { fresh(s, 5); for (int i = 2; i < 5; ++i) seen[i - 2] = s.at(vars[i].t, vars[i].r); };
    auto m = make_shared<override_manipulator>();
    if (first) exe.add_manipulator(m);
    auto obs = make_shared<fake_observer>();
    observable* ob[2] = {};
    obs->on_added = [&](simulator_index i, observable* o) { ob[i] = o; };
    exe.add_observer(obs);
    exe.add_slave(A, "a"); exe.add_slave(B, "b");
    if (!first) exe.add_manipulator(m);
    exe.connect_variables(variable_id{0, t, 1}, variable_id{1, t, 1});
    exe.connect_variables(variable_id{0, t, 2}, variable_id{1, t, 3});
    for (auto& v : vars) if (!v.in) ob[v.sim]->expose_for_getting(v.t, v.r);
    CHECK(throws([&] { give(*m, 2, 1, zero_val(t)); }), "overriding a variable of an unknown simulator is an error");
    CHECK(throws([&] { m->reset_variable(-1, t, 1); }), "resetting a variable of an unknown simulator is an error");
    CHECK(throws([&] { give(*m, 0, 3, zero_val(t)); }), "overriding an unknown variable is an error");
    CHECK(throws([&] { give(*m, 0, 5, zero_val(t)); }), "overriding a local variable is an error");
    CHECK(throws([&] { give(*m, 0, 1, zero_val(t2)); }), "overriding a variable as another type is an error");
    std::optional<val> over[6];
    auto shown = [&](int i) { return over[i] ? *over[i] : own[i]; };
    for (int k = 0; k < steps; ++k) {
        int nops = sym_choose("ops", 0, k == 0 ? maxops : maxops - 1);
        for (int j = 0; j < nops; ++j) {
            int i = sym_choose("variable", 0, 5);
            if (sym_flag("reset")) { m->reset_variable(vars[i].sim, vars[i].t, vars[i].r); over[i].reset(); }
            else { over[i] = sym_val("override", vars[i].t, len); give(*m, vars[i].sim, vars[i].r, *over[i]); }
        }
        exe.step();
        for (int i = 0; i < 2; ++i) CHECK(seen[i] == (over[2 + i] ? *over[2 + i] : transferred[i]), over[2 + i] ? "an overridden input has the override value during the step" : "an input that is not overridden has the value from its connection");
        CHECK(seen[2] == (over[4] ? *over[4] : zero_val(t2)), "an input that is not connected has its override or its own value");
        for (int i : {0, 1, 5}) CHECK(get_value(*ob[vars[i].sim], vars[i].t, vars[i].r) == shown(i), over[i] ? "an overridden output has the override value after the step" : "an output that is not overridden has the value of the model");
        transferred[0] = shown(0); transferred[1] = shown(1);
        if (over[0]) sym_reach("output overridden");
        if (over[2]) sym_reach("input overridden");
    }
    sym_reach("end");
}
// C09: overrides are given by another thread while the simulation runs
extern "C" void h_override_threads()
{
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto A = make_shared<fake_slave>();
    A->add("o", 1, variable_type::integer, output); A->add("i", 2, variable_type::integer, input);
    A->at(variable_type::integer, 1) = vi(1);
    int seen = 0;
    A->on_step = [&](fake_slave& s, int) { seen = s.at(variable_type::integer, 2).integer(); };
    auto m = make_shared<override_manipulator>();
    exe.add_manipulator(m);
    auto obs = make_shared<fake_observer>();
    observable* ob = nullptr;
    obs->on_added = [&](simulator_index, observable* o) { ob = o; };
    exe.add_observer(obs);
    exe.add_slave(A, "a");
    ob->expose_for_getting(variable_type::integer, 1);
    exe.step();
    bool in = sym_flag("input");
    std::thread th([&] { give(*m, 0, in ? 2 : 1, vi(7)); give(*m, 0, in ? 2 : 1, vi(8)); });
    exe.step();
    int now = in ? seen : ob->get_integer(1), was = in ? 0 : 1;
    CHECK(now == was || now == 7 || now == 8, "the value is the original or an override");
    th.join();
    exe.step();
    CHECK((in ? seen : ob->get_integer(1)) == 8, "the last override is in effect from the next step on");
    if (in) CHECK(ob->get_integer(1) == 1, "another variable is not affected"); else CHECK(seen == 0, "another variable is not affected");
    sym_reach("end");
}
// a simulator that keeps a record of the modifiers it is given
namespace
{
struct mod_event { bool input; variable_type t; value_reference r; bool reset; val v; };
struct fake_manipulable : manipulable
{
    std::string n; cosim::model_description md; vector<mod_event> log;
    std::set<std::pair<int, value_reference>> getting, setting;
    std::string name() const override { return n; }
    cosim::model_description model_description() const override { return md; }
    void expose_for_getting(variable_type t, value_reference r) override { getting.insert({(int)t, r}); }
    void expose_for_setting(variable_type t, value_reference r) override { setting.insert({(int)t, r}); }
    double get_real(value_reference) const override { return 0; }
    int get_integer(value_reference) const override { return 0; }
    bool get_boolean(value_reference) const override { return false; }
    std::string_view get_string(value_reference) const override { return ""; }
    void put(bool in, variable_type t, value_reference r, bool reset, val v)
    {
        CHECK((in ? setting : getting).count({(int)t, r}), "a variable is exposed before it is modified");
        log.push_back({in, t, r, reset, v});
    }
    void set_real_input_modifier(value_reference r, std::function<double(double, duration)> m) override { put(true, variable_type::real, r, !m, m ? vr(m(0, duration(0))) : val()); }
    void set_integer_input_modifier(value_reference r, std::function<int(int, duration)> m) override { put(true, variable_type::integer, r, !m, m ? vi(m(0, duration(0))) : val()); }
    void set_boolean_input_modifier(value_reference r, std::function<bool(bool, duration)> m) override { put(true, variable_type::boolean, r, !m, m ? vb(m(false, duration(0))) : val()); }
    void set_string_input_modifier(value_reference r, std::function<std::string(std::string_view, duration)> m) override { put(true, variable_type::string, r, !m, m ? vs(m("", duration(0))) : val()); }
    void set_real_output_modifier(value_reference r, std::function<double(double, duration)> m) override { put(false, variable_type::real, r, !m, m ? vr(m(0, duration(0))) : val()); }
    void set_integer_output_modifier(value_reference r, std::function<int(int, duration)> m) override { put(false, variable_type::integer, r, !m, m ? vi(m(0, duration(0))) : val()); }
    void set_boolean_output_modifier(value_reference r, std::function<bool(bool, duration)> m) override { put(false, variable_type::boolean, r, !m, m ? vb(m(false, duration(0))) : val()); }
    void set_string_output_modifier(value_reference r, std::function<std::string(std::string_view, duration)> m) override { put(false, variable_type::string, r, !m, m ? vs(m("", duration(0))) : val()); }
};
struct var { int sim; variable_type t; value_reference r; bool in; bool operator<(const var& o) const { return std::tie(sim, t, r, in) < std::tie(o.sim, o.t, o.r, o.in); } };
scenario::variable_action action(const var& v, bool reset, const val& x)
{
    scenario::variable_action a{v.sim, v.r, scenario::real_modifier{nullptr}, v.in};
    switch (v.t) {
        case variable_type::real: { scenario::real_modifier m{nullptr}; if (!reset) m.f = [x](double, duration) { return x.real(); }; a.modifier = m; break; }
        case variable_type::integer: { scenario::integer_modifier m{nullptr}; if (!reset) m.f = [x](int, duration) { return x.integer(); }; a.modifier = m; break; }
        case variable_type::boolean: { scenario::boolean_modifier m{nullptr}; if (!reset) m.f = [x](bool, duration) { return x.boolean(); }; a.modifier = m; break; }
        default: { scenario::string_modifier m{nullptr}; if (!reset) m.f = [x](std::string_view, duration) { return x.text; }; a.modifier = m; }
    }
    return a;
}
const var scenario_vars[5] = {{0, variable_type::real, 1, true}, {0, variable_type::real, 1, false}, {1, variable_type::real, 1, true}, {1, variable_type::integer, 1, true}, {1, variable_type::string, 2, false}};
bool same(const val& a, const val& b) { return a == b; }
}
// C10: arbitrary event times, any order, one or several simulators and variables, with and without an end
extern "C" void h_scenario()
{
    int ne = (int)sym_option("events", 3), steps = (int)sym_option("steps", 4);
    auto t0 = sym_range64("start", -(1ll << 40), 1ll << 40);
    fake_manipulable sims[2];
    sims[0].n = "a"; sims[1].n = "b";
    scenario_manager m;
    for (int i = 0; i < 2; ++i) m.simulator_added(i, &sims[i], tp(t0));
    CHECK(!m.is_scenario_running(), "no scenario is running before one is loaded");
    m.step_commencing(tp(t0));
    struct ev { int64_t t; var v; bool reset; val x; bool done = false; int at = -1; };
    vector<ev> evs;
    scenario::scenario s;
    int n = sym_choose("events", 0, ne);
    for (int i = 0; i < n; ++i) {
        ev e; e.t = sym_range64("time", -10, 10 * steps);
        int k = i == 0 ? sym_choose("variable", 0, 4) : sym_choose("variable", 0, 1); // the same variable or another one
        e.v = i == 0 ? scenario_vars[k] : k ? scenario_vars[(int)sym_option("other", 2)] : evs[0].v;
        e.reset = i == 1 && sym_flag("reset");
        e.x = sym_val("value", e.v.t, 1);
        evs.push_back(e);
        s.events.push_back({tp(e.t), action(e.v, e.reset, e.x)});
    }
    std::optional<int64_t> end;
    if (sym_flag("end")) { end = sym_range64("end", 0, 10 * steps); s.end = tp(*end); }
    m.load_scenario(s, tp(t0));
    CHECK(m.is_scenario_running(), "a scenario is running once it is loaded");
    bool running = true;
    std::map<var, int> touched;
    auto check_reset = [&] {
        std::map<var, int> r;
        for (int i = 0; i < 2; ++i) {
            for (auto& e : sims[i].log) { CHECK(e.reset, "nothing but resets at the end of a scenario"); ++r[var{i, e.t, e.r, e.input}]; }
            sims[i].log.clear();
        }
        for (auto& p : touched) CHECK(r.count(p.first), "every variable that was manipulated is reset at the end");
        for (auto& p : r) CHECK(touched.count(p.first), "only variables that were manipulated are reset at the end");
        touched.clear();
    };
    int abort_at = sym_choose("abort", -1, steps - 1);
    int64_t rel = 0;
    for (int k = 0; k < steps; ++k) {
        if (k == abort_at) {
            bool was = running;
            m.abort_scenario(); running = false;
            if (was) sym_reach("aborted"); else sym_reach("aborted afterwards");
            check_reset();
        }
        size_t left = 0; for (auto& e : evs) left += !e.done;
        bool finish = running && left == 0 && (!end || rel >= *end);
        m.step_commencing(tp(t0 + rel));
        if (!running) {
            for (auto& x : sims) CHECK(x.log.empty(), "nothing happens after the end of a scenario");
        } else if (finish) { running = false; sym_reach("finished"); check_reset(); }
        else {
            // the events due now, each once, in order of time as far as one variable is concerned
            vector<size_t> pos(2, 0);
            vector<int> due;
            for (size_t i = 0; i < evs.size(); ++i) if (!evs[i].done && rel >= evs[i].t) { due.push_back((int)i); evs[i].done = true; touched[evs[i].v]++; }
            size_t total = sims[0].log.size() + sims[1].log.size();
            CHECK(total == due.size(), "exactly the due events are executed");
            std::stable_sort(due.begin(), due.end(), [&](int a, int b) { return evs[a].t < evs[b].t; });
            // per variable, the sequence of modifiers is that of the events in order of time
            std::map<var, vector<int>> want;
            for (int i : due) want[evs[i].v].push_back(i);
            for (auto& p : want) {
                size_t j = 0;
                for (auto& e : sims[p.first.sim].log) {
                    if (e.t != p.first.t || e.r != p.first.r || e.input != p.first.in) continue;
                    CHECK(j < p.second.size(), "an event is executed once");
                    auto& x = evs[p.second[j++]];
                    CHECK(e.reset == x.reset, "events due on one step are executed in order of their times");
                    if (!e.reset) CHECK(same(e.v, x.x), "events due on one step are executed in order of their times");
                }
                CHECK(j == p.second.size(), "an event acts on its own variable");
            }
            if (due.size() > 1) sym_reach("several due");
            if (!due.empty()) sym_reach("due");
            for (auto& x : sims) x.log.clear();
        }
        CHECK(m.is_scenario_running() == running, "a scenario runs from its loading to its end");
        rel += sym_choose("advance", 1, 2) * 5;
    }
    sym_reach("end");
}
// C10: a scenario in an execution, as seen by the model
extern "C" void h_scenario_execution()
{
    int steps = (int)sym_option("steps", 5);
    auto t = all_types[sym_choose("type", 0, 3)];
    auto t0 = sym_range64("start", -(1ll << 40), 1ll << 40);
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(t0), algo);
    auto A = make_shared<fake_slave>();
    A->add("i", 1, t, input); A->add("o", 2, t, output);
    auto base = sym_val("start", t), out = sym_val("out", t);
    A->md.variables[0].start = scalar(base);
    A->at(t, 1) = base; A->at(t, 2) = out;
    val seen;
    A->on_step = [&](fake_slave& s, int) { seen = s.at(t, 1); };
    auto m = make_shared<scenario_manager>();
    exe.add_manipulator(m);
    auto obs = make_shared<fake_observer>();
    observable* ob = nullptr;
    obs->on_added = [&](simulator_index, observable* o) { ob = o; };
    exe.add_observer(obs);
    exe.add_slave(A, "a");
    ob->expose_for_getting(t, 2);
    int load = sym_choose("load", 0, 1); // before which step
    scenario::scenario s;
    int64_t et[3]; val x[3]; bool in[3];
    for (int i = 0; i < 3; ++i) { et[i] = sym_range64("time", 0, 10 * steps); x[i] = sym_val("value", t); in[i] = i == 0 || (i == 1 && sym_flag("in")); s.events.push_back({tp(et[i]), action({0, t, in[i] ? 1u : 2u, in[i]}, false, x[i])}); }
    std::optional<int64_t> end;
    if (sym_flag("end")) { end = sym_range64("end", 0, 10 * steps); s.end = tp(*end); }
    bool done[3] = {}, running = false;
    std::optional<std::pair<int64_t, val>> in_over, out_over;
    for (int k = 0; k < steps; ++k) {
        if (k == load) { m->load_scenario(s, exe.current_time()); running = true; }
        int64_t rel = (k - load) * 10;
        if (running) {
            if (done[0] && done[1] && done[2] && (!end || rel >= *end)) { running = false; in_over.reset(); out_over.reset(); sym_reach("finished"); }
            else {
                std::optional<std::pair<int64_t, val>> ni, no;
                for (int i = 0; i < 3; ++i) if (!done[i] && rel >= et[i]) { done[i] = true; auto& o = in[i] ? ni : no; if (!o || o->first <= et[i]) o = {et[i], x[i]}; }
                if (ni) in_over = ni;
                if (no) out_over = no;
            }
        }
        exe.step();
        CHECK(seen == (in_over ? in_over->second : base), "the model has the scenario's value, or its own outside the scenario");
        CHECK(get_value(*ob, t, 2) == (out_over ? out_over->second : out), "observers see the scenario's value, or the model's outside the scenario");
        CHECK(m->is_scenario_running() == running, "a scenario runs from its loading to its end");
    }
    sym_reach("end");
}
// C11: scenario files
namespace
{
// a JSON value: as text for the real parser, as a token that carries the (possibly symbolic) bits for the model of it
std::string token(char kind, uint64_t bits) { std::string s; s += (char)1; s += kind; for (int i = 0; i < 8; ++i) s += (char)(bits >> (8 * i)); return s; }
std::string js(const val& v)
{
    if (v.type == variable_type::string) return "\"" + v.text + "\"";
    if (sym_is_engine()) return v.type == variable_type::real ? token('d', v.bits) : v.type == variable_type::integer ? token('i', (uint64_t)(int64_t)v.integer()) : v.boolean() ? "true" : "false";
    char b[64];
    if (v.type == variable_type::real) snprintf(b, sizeof b, "%.17g", v.real());
    else if (v.type == variable_type::integer) snprintf(b, sizeof b, "%d", v.integer());
    else return v.boolean() ? "true" : "false";
    return b;
}
val letters(val v) { if (v.type == variable_type::string) for (char& c : v.text) sym_assume((c >= 'g') & (c <= 'k')); return v; }
val finite(val v)
{
    if (v.type == variable_type::real) { uint64_t e = (v.bits >> 52) & 0x7ff; sym_assume((e != 0x7ff) & (e != 0)); }
    return v;
}
double sym_time(const char* n)
{
    // whole multiples of 1/64 s
    static const double ts[] = {0.0, 0.1, 1.5, 2.5e3, -0.25};
    return ts[sym_choose(n, 0, 4)];
}
val apply(const scenario::variable_action& a, variable_type t, const val& x, bool& null)
{
    null = false;
    duration d(0);
    switch (t) {
        case variable_type::real: { auto& f = std::get<scenario::real_modifier>(a.modifier).f; if (!f) { null = true; return x; } return vr(f(x.real(), d)); }
        case variable_type::integer: { auto& f = std::get<scenario::integer_modifier>(a.modifier).f; if (!f) { null = true; return x; } return vi(f(x.integer(), d)); }
        case variable_type::boolean: { auto& f = std::get<scenario::boolean_modifier>(a.modifier).f; if (!f) { null = true; return x; } return vb(f(x.boolean(), d)); }
        default: { auto& f = std::get<scenario::string_modifier>(a.modifier).f; if (!f) { null = true; return x; } return vs(f(x.text, d)); }
    }
}
int type_index(const scenario::variable_action& a) { return std::holds_alternative<scenario::real_modifier>(a.modifier) ? 0 : std::holds_alternative<scenario::integer_modifier>(a.modifier) ? 1 : std::holds_alternative<scenario::boolean_modifier>(a.modifier) ? 2 : 3; }
struct two_models
{
    fake_manipulable a, b;
    std::unordered_map<simulator_index, manipulable*> sims;
    variable_type t; variable_causality c;
    // model "a" has x (type t, causality c, reference 3) and y; model "b" has a different x
    two_models(variable_type t, variable_causality c) : t(t), c(c)
    {
        a.n = "a"; b.n = "b";
        a.md.variables = {vd("y", 1, variable_type::integer, output), vd("x", 3, t, c)};
        b.md.variables = {vd("x", 2, variable_type::real, input), vd("z", 3, t, c)};
        sims[4] = &a; sims[2] = &b;
    }
};
}
// one event: every type, causality and action, fields from the event or the defaults, missing or unknown ones
extern "C" void h_parse_event()
{
    auto dir = scratch();
    auto file = dir / "s.json";
    auto t = all_types[sym_choose("type", 0, 3)];
    static const variable_causality cs[] = {parameter, calculated_parameter, input, output, local};
    int ci = sym_choose("causality", 0, 4);
    two_models w(t, cs[ci]);
    // each field: 0 missing, 1 in the defaults, 2 in the event, 3 in both (the event's counts)
    int fm = sym_choose("model given", 0, 3);
    int fv = ci == 2 ? sym_choose("variable given", 0, 3) : 2;
    int fa = ci <= 2 ? sym_choose("action given", 0, 3) : 2;
    int which = sym_choose("target", 0, 4); // 0..1: a.x, a.y; 2: b.x; 3: unknown model; 4: unknown variable
    static const char* model[] = {"a", "a", "b", "c", "a"}; static const char* variable[] = {"x", "y", "x", "x", "q"};
    static const char* actions[] = {"override", "bias", "reset", "hold", ""};
    int ac = sym_choose("action", 0, 4);
    if (ac > 2) { sym_assume(which == 0); }
    if (ci > 2 && which != 0) sym_assume(ac == 0);
    std::string d, e;
    auto field = [&](int f, const char* n, const char* v, const char* other) {
        if (f == 1) d += std::string(d.empty() ? "" : ", ") + "\"" + n + "\": \"" + v + "\"";
        if (f == 3) d += std::string(d.empty() ? "" : ", ") + "\"" + n + "\": \"" + other + "\"";
        if (f >= 2) e += std::string(", \"") + n + "\": \"" + v + "\"";
    };
    field(fm, "model", model[which], "b"); field(fv, "variable", variable[which], "y"); field(fa, "action", actions[ac], "reset");
    variable_type et = which == 1 ? variable_type::integer : which == 2 ? variable_type::real : t;
    variable_causality ec = which == 1 ? output : which == 2 ? input : cs[ci];
    value_reference er = which == 1 ? 1 : which == 2 ? 2 : 3;
    int given = sym_choose("value given", 0, 2); // no, yes, something that is not a value of the type
    auto value = finite(letters(sym_val("value", et)));
    if (given == 2 && et == variable_type::string) sym_assume(0);
    if (given) e += std::string(", \"value\": ") + (given == 1 ? js(value) : std::string("\"ab\""));
    double time = sym_time("time");
    auto text = std::string("{") + (d.empty() ? "" : "\"defaults\": {" + d + "}, ") + "\"events\": [{\"time\": " + js(vr(time)) + e + "}]}";
    spit(file, text);
    std::optional<scenario::scenario> s;
    try { s = parse_scenario(file, w.sims); } catch (const std::exception&) { }
    bool ok = fm && fv && fa && which <= 2 && ac <= 2 && ec != local && !(ac == 1 && et == variable_type::string) && (ac == 2 || given == 1);
    if (ac == 2 && given == 2 && s) sym_end_path(); // a value that is not used may be ignored or refused
    CHECK(s.has_value() == ok, ok ? "a valid scenario is accepted" : "an invalid scenario is rejected");
    if (!ok) { sym_reach("rejected"); return; }
    CHECK(s->events.size() == 1 && !s->end, "there is one event and no end time");
    auto& ev = s->events[0];
    CHECK(ev.time == to_time_point(time), "the event has its time");
    CHECK(ev.action.simulator == (which == 2 ? 2 : 4), "the event acts on its model");
    CHECK(ev.action.variable == er, "the event acts on its variable");
    CHECK(ev.action.is_input == (ec == parameter || ec == input), "inputs and outputs are told apart");
    CHECK(type_index(ev.action) == (int)et, "the event has the type of its variable");
    bool null;
    auto x = sym_val("original", et);
    if (ac == 1 && et == variable_type::integer) { sym_assume((value.integer() > -1000000) & (value.integer() < 1000000)); sym_assume((x.integer() > -1000000) & (x.integer() < 1000000)); }
    auto y = apply(ev.action, et, x, null);
    CHECK(null == (ac == 2), "a reset, and only a reset, removes the modification");
    if (ac == 0) CHECK(y == value, "an override gives the stated value");
    if (ac == 1 && et == variable_type::integer) CHECK(y.integer() == x.integer() + value.integer(), "a bias adds the stated value");
    if (ac == 1 && et == variable_type::real) CHECK(y == vr(x.real() + value.real()), "a bias adds the stated value");
    sym_reach("accepted");
}
// several events, in order, with and without an end time
extern "C" void h_parse_events()
{
    auto dir = scratch();
    auto file = dir / "s.yaml";
    int n = sym_choose("events", 0, (int)sym_option("events", 3));
    two_models w(variable_type::integer, input);
    struct one { double time; int which; val v; };
    vector<one> want;
    std::string text = "{\"events\": [";
    static const char* where[] = {"\"model\": \"a\", \"variable\": \"x\"", "\"model\": \"b\", \"variable\": \"x\"", "\"model\": \"b\", \"variable\": \"z\""};
    for (int i = 0; i < n; ++i) {
        one o; o.time = sym_time("time"); o.which = sym_choose("which", 0, 2);
        o.v = finite(sym_val("value", o.which == 1 ? variable_type::real : variable_type::integer));
        text += std::string(i ? ", " : "") + "{\"time\": " + js(vr(o.time)) + ", " + where[o.which] + ", \"action\": \"override\", \"value\": " + js(o.v) + "}";
        want.push_back(o);
    }
    text += "]";
    bool has_end = sym_flag("end");
    double end = has_end ? sym_time("end") : 0;
    if (has_end) text += ", \"end\": " + js(vr(end));
    spit(file, text + "}");
    auto s = parse_scenario(file, w.sims);
    CHECK(s.end.has_value() == has_end, "there is an end time if one is stated");
    if (has_end) CHECK(*s.end == to_time_point(end), "the end time is the stated one");
    CHECK((int)s.events.size() == n, "one event per listed event");
    for (int i = 0; i < n; ++i) {
        auto& a = s.events[i].action;
        bool null;
        CHECK(s.events[i].time == to_time_point(want[i].time), "the event has its time");
        CHECK(a.simulator == (want[i].which == 0 ? 4 : 2) && a.variable == (want[i].which == 1 ? 2u : 3u) && a.is_input, "the event acts on its variable");
        CHECK(apply(a, want[i].v.type, zero_val(want[i].v.type), null) == want[i].v, "an override gives the stated value");
    }
    CHECK(throws([&] { parse_scenario(dir / "missing", w.sims); }), "a file that does not exist is an error");
    // loaded by a manager that knows the simulators
    scenario_manager m;
    m.simulator_added(4, &w.a, tp(0)); m.simulator_added(2, &w.b, tp(0));
    m.load_scenario(file, tp(0));
    CHECK(m.is_scenario_running(), "a scenario is running once it is loaded");
    m.step_commencing(tp(0));
    size_t due = 0; for (auto& o : want) due += to_time_point(o.time) <= tp(0);
    CHECK(w.a.log.size() + w.b.log.size() == (n == 0 && (!has_end || to_time_point(end) <= tp(0)) ? 0 : due), "the due events are executed");
    sym_reach("end");
}
