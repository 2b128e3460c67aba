// C20, C21, C22: system structures, initial values and their injection into an execution
#include "sim.hpp"
#include <cosim/algorithm/algorithm.hpp>
#include <cosim/error.hpp>
#include <cosim/exception.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>
#include <algorithm>
#include <map>
#include <optional>
using namespace cosim;
using std::make_shared;
using std::shared_ptr;
using std::vector;
namespace
{
struct fake_model : model
{
    shared_ptr<cosim::model_description> d = make_shared<cosim::model_description>();
    vector<std::pair<std::string, shared_ptr<fake_slave>>> made;
    explicit fake_model(std::string uuid) { d->name = "model " + uuid; d->uuid = std::move(uuid); }
    shared_ptr<const cosim::model_description> description() const noexcept override { return d; }
    shared_ptr<slave> instantiate(std::string_view name) override
    {
        auto s = make_shared<fake_slave>(); s->md = *d;
        made.emplace_back(std::string(name), s);
        return s;
    }
    void add(const std::string& n, value_reference r, variable_type t, variable_causality c, variable_variability v) { d->variables.push_back(vd(n, r, t, c, v)); }
};
// in: as many groups as parameter 0 tells, each with x (two of them) of a chosen type; out: y
struct fake_function_type : function_type
{
    function_type_description d;
    vector<shared_ptr<fake_function>>* made = nullptr;
    fake_function_type(variable_type t = variable_type::real, variable_causality in = input, variable_causality out = output)
    {
        d.parameters = {{"n", function_parameter_type::integer, 1, 1, {}}};
        d.io_groups = {{"in", function_parameter_placeholder{0}, {{"w", variable_type::boolean, input, 1}, {"x", t, in, 2}}}, {"out", 1, {{"y", t, out, 1}}}};
    }
    function_type_description description() const override { return d; }
    std::unique_ptr<function> instantiate(const function_parameter_value_map&) override { return nullptr; }
};
variable_type sym_type(const char* n) { return (variable_type)sym_range64(n, 0, 4); }
variable_causality sym_causality(const char* n) { return (variable_causality)sym_range64(n, 0, 4); }
variable_variability sym_variability(const char* n) { return (variable_variability)sym_range64(n, 0, 4); }
bool source_ok(variable_causality c) { return (c == output) | (c == calculated_parameter); }
bool variable(variable_variability v) { return (v != constant) & (v != fixed); }
// an edit; true if it is refused, in the way it should be
template<typename F> bool refused(F f)
{
    try { f(); } catch (const error& e) { CHECK(e.code() == make_error_code(cosim::errc::invalid_system_structure), "an invalid edit is reported as such"); return true; }
    return false;
}
using fvn = full_variable_name;
bool equal(const fvn& a, const fvn& b)
{
    return a.entity_name == b.entity_name && a.variable_group_name == b.variable_group_name && a.variable_name == b.variable_name && (a.variable_group_name.empty() || (a.variable_group_instance == b.variable_group_instance && a.variable_instance == b.variable_instance));
}
bool connected(const system_structure& s, const vector<std::pair<fvn, fvn>>& want)
{
    size_t n = 0;
    for (const auto c : s.connections()) {
        ++n;
        if (std::none_of(want.begin(), want.end(), [&](auto& w) { return equal(w.first, c.source) && equal(w.second, c.target); })) return false;
    }
    return n == want.size();
}
}
// the rule for connections: all types, causalities and variabilities of both sides
extern "C" void h_connection_rule()
{
    auto t1 = sym_type("source type"), t2 = sym_type("target type");
    auto c1 = sym_causality("source causality"), c2 = sym_causality("target causality");
    auto v1 = sym_variability("source variability"), v2 = sym_variability("target variability");
    int kind = sym_choose("kind", 0, 3); // 0: simulator to simulator, 1: simulator to function, 2: function to simulator, 3: function to function
    auto M = make_shared<fake_model>("1"), N = make_shared<fake_model>("2");
    M->add("o", 1, t1, c1, v1); N->add("i", 1, t2, c2, v2);
    auto F = make_shared<fake_function_type>(t1, input, c1), G = make_shared<fake_function_type>(t2, c2, output);
    system_structure s;
    bool f1 = kind >= 2, f2 = kind & 1;
    if (f1) s.add_entity("a", F, {}); else s.add_entity("a", M);
    if (f2) s.add_entity("b", G, {}); else s.add_entity("b", N);
    fvn src = f1 ? fvn("a", "out", "y") : fvn("a", "o"), dst = f2 ? fvn("b", "in", 0, "x", 1) : fvn("b", "i");
    bool no = refused([&] { s.connect_variables(src, dst); });
    bool ok = (kind != 3) & (t1 == t2) & source_ok(c1) & (c2 == input) & (f2 | variable(v2));
    CHECK(no == !ok, "a connection is accepted exactly when the variables are compatible");
    vector<std::pair<fvn, fvn>> want; if (!no) want.push_back({src, dst});
    CHECK(connected(s, want), "accepted connections are listed, refused ones are not");
    // the rule itself, asked with and without a reason
    std::string why[3];
    auto vs = vd("o", 1, t1, c1, v1), vt = vd("i", 1, t2, c2, v2);
    function_io_description fs{"o", t1, c1, 1}, ft{"i", t2, c2, 1};
    bool want3[3] = {(t1 == t2) & source_ok(c1) & (c2 == input) & variable(v2), (t1 == t2) & source_ok(c1) & (c2 == input), (t1 == t2) & source_ok(c1) & (c2 == input) & variable(v2)};
    CHECK(is_valid_connection(vs, vt, nullptr) == want3[0] && is_valid_connection(vs, ft, nullptr) == want3[1] && is_valid_connection(fs, vt, nullptr) == want3[2], "a connection is valid exactly when the variables are compatible");
    CHECK(is_valid_connection(vs, vt, &why[0]) == want3[0] && is_valid_connection(vs, ft, &why[1]) == want3[1] && is_valid_connection(fs, vt, &why[2]) == want3[2], "a connection is valid exactly when the variables are compatible, whether or not the reason is asked for");
    for (int i = 0; i < 3; ++i) if (!want3[i]) CHECK(!why[i].empty(), "there is a reason");
    sym_reach(no ? "refused" : "accepted");
}
// any sequence of edits
extern "C" void h_edits()
{
    int edits = (int)sym_option("edits", 2);
    auto M = make_shared<fake_model>("1"), N = make_shared<fake_model>("2");
    M->add("o", 1, variable_type::real, output, continuous); M->add("i", 2, variable_type::real, input, continuous); M->add("n", 2, variable_type::integer, input, discrete); M->add("q", 3, variable_type::integer, output, discrete);
    N->add("o", 1, variable_type::real, calculated_parameter, tunable); N->add("i", 2, variable_type::real, input, fixed); N->add("n", 2, variable_type::integer, input, discrete); N->add("q", 1, variable_type::integer, local, discrete);
    auto F = make_shared<fake_function_type>();
    struct ent { std::string name; int kind; int groups; int64_t hint; }; // kinds: 0 M, 1 N, 2 F
    vector<ent> es; vector<std::pair<fvn, fvn>> cs;
    system_structure s;
    auto find = [&](const std::string& n) -> const ent* { for (auto& e : es) if (e.name == n) return &e; return nullptr; };
    struct info { variable_type t; bool out, in; };
    auto lookup = [&](const fvn& v) -> std::optional<info> {
        auto e = find(v.entity_name);
        if (!e) return {};
        if (v.variable_group_name.empty()) {
            if (e->kind == 2) return {};
            for (auto& d : (e->kind ? N : M)->d->variables) if (d.name == v.variable_name) return info{d.type, source_ok(d.causality), d.causality == input && variable(d.variability)};
            return {};
        }
        if (e->kind != 2) return {};
        if (v.variable_group_name == "in" && v.variable_name == "x" && v.variable_group_instance >= 0 && v.variable_group_instance < e->groups && v.variable_instance >= 0 && v.variable_instance < 2) return info{variable_type::real, false, true};
        if (v.variable_group_name == "out" && v.variable_name == "y" && v.variable_group_instance == 0 && v.variable_instance == 0) return info{variable_type::real, true, false};
        return {};
    };
    auto check = [&] {
        size_t n = 0;
        for (auto& e : s.entities()) {
            ++n;
            auto w = find(e.name);
            CHECK(w != nullptr, "only entities that were added are listed");
            CHECK(!e.name.empty(), "entities have names");
            auto m = std::get_if<shared_ptr<model>>(&e.type);
            CHECK((m == nullptr) == (w->kind == 2) && (m == nullptr || *m == (w->kind ? N : M)), "an entity has the type it was added with");
            CHECK(e.step_size_hint.count() == w->hint, "an entity has the step size hint it was added with");
            CHECK(s.find_entity(e.name) == &e, "an entity is found by its name");
        }
        CHECK(n == es.size(), "every entity is listed once");
        CHECK(connected(s, cs), "exactly the accepted connections are listed");
    };
    auto add = [&](const std::string& name, int kind, int64_t hint, int groups) {
        bool ok = !name.empty() && !find(name) && (kind == 2 ? groups >= 1 : hint >= 0);
        bool no = refused([&] {
            if (kind == 2) s.add_entity(name, F, {{0, groups}});
            else s.add_entity(name, kind ? N : M, duration(hint));
        });
        CHECK(no == !ok, "an entity is added exactly when its name is new and its parameters are valid");
        if (ok) es.push_back({name, kind, groups, hint});
        sym_reach(ok ? "added" : "not added");
    };
    const int init = sym_choose("a", 0, 2);
    add("a", init, init == 2 ? 0 : 5, init == 2 ? 2 : 0);
    switch (sym_choose("b", 0, 2)) { case 0: add("b", 0, 0, 0); break; case 1: add("b", 1, 7, 0); break; default: add("b", 2, 0, 1); }
    fvn odd("b", "i"); odd.variable_instance = 3; // ignored for simulators
    const fvn sources[] = {{"a", "o"}, {"b", "o"}, {"c", "o"}, {"a", "i"}, {"a", "q"}, {"a", "nothing"}, {"a", "out", "y"}, {"b", "out", 0, "y", 0}, {"b", "out", 1, "y", 0}};
    const fvn targets[] = {{"b", "i"}, odd, {"a", "i"}, {"b", "n"}, {"b", "nothing"}, {"c", "n"}, {"b", "in", "x"}, {"b", "in", 0, "x", 1}, {"b", "in", 0, "x", 2}, {"b", "in", 1, "x", 0}, {"b", "in", 0, "x", -1}, {"b", "in", -1, "x", 0}, {"a", "in", 1, "x", 1}};
    check();
    for (int k = 0; k < edits; ++k) {
        if (sym_flag("add")) {
            static const char* names[] = {"", "a", "c"};
            int what = sym_choose("what", 0, 4);
            add(names[sym_choose("name", 0, 2)], what <= 1 ? what : what == 2 ? 0 : 2, what == 2 ? -1 : what == 0 ? 9 : 0, what == 3 ? 1 : what == 4 ? 0 : 0);
        } else {
            auto& src = sources[sym_choose("source", 0, (int)std::size(sources) - 1)];
            auto& dst = targets[sym_choose("target", 0, (int)std::size(targets) - 1)];
            auto a = lookup(src), b = lookup(dst);
            bool taken = std::any_of(cs.begin(), cs.end(), [&](auto& c) { return equal(c.second, dst); });
            bool ok = a && b && a->out && b->in && a->t == b->t && !taken && (src.is_simulator_variable() || dst.is_simulator_variable());
            bool no = refused([&] { s.connect_variables(src, dst); });
            CHECK(no == !ok, "a connection is made exactly when both variables exist, are compatible and the target is free");
            if (ok) cs.push_back({src, dst});
            sym_reach(ok ? "connected" : "not connected");
        }
        check();
    }
    for (auto& e : es) if (e.kind < 2) for (auto& d : (e.kind ? N : M)->d->variables) {
        auto& g = s.get_variable_description({e.name, d.name});
        CHECK(g.name == d.name && g.reference == d.reference && g.type == d.type && g.causality == d.causality && g.variability == d.variability, "a variable's description is that of the model");
    } else {
        auto& g = s.get_function_io_description({e.name, "in", "x"});
        CHECK(g.group_index == 0 && g.io_index == 1 && std::get<variable_type>(g.description.type) == variable_type::real && g.description.causality == input && std::get<int>(g.description.count) == 2, "a function variable's description is that of the function type");
    }
    sym_reach("end");
}
// C21
extern "C" void h_initial_values()
{
    int n = (int)sym_option("values", 2);
    auto M = make_shared<fake_model>("1"), N = make_shared<fake_model>("2");
    auto t = sym_type("type"); auto c = sym_causality("causality"); auto v = sym_variability("variability");
    M->add("v", 1, t, c, v); M->add("w", 1, variable_type::integer, variable_causality::parameter, tunable); N->add("v", 2, variable_type::boolean, input, discrete); N->add("k", 2, variable_type::real, variable_causality::parameter, constant);
    auto F = make_shared<fake_function_type>();
    system_structure s;
    s.add_entity("a", M); s.add_entity("b", N); s.add_entity("f", F, {});
    const fvn names[] = {{"a", "v"}, {"a", "w"}, {"b", "v"}, {"b", "k"}, {"b", "nothing"}, {"c", "v"}, {"f", "in", "x"}};
    variable_value_map m;
    val want[7]; bool has[7] = {};
    for (int k = 0; k < n; ++k) {
        int i = sym_choose("variable", 0, 6);
        auto x = sym_val("value", all_types[sym_choose("value type", 0, 3)], 1);
        bool ok = i == 0 ? (v != constant) & (t == x.type) : i == 1 ? x.type == variable_type::integer : i == 2 ? x.type == variable_type::boolean : false;
        bool no = refused([&] { add_variable_value(m, s, names[i], scalar(x)); });
        CHECK(no == !ok, "a value is accepted exactly when the variable exists, is not constant and has the type of the value");
        if (ok) { want[i] = x; has[i] = true; }
        size_t count = 0;
        for (int j = 0; j < 7; ++j) {
            auto it = m.find(names[j]);
            CHECK((it != m.end()) == has[j], "the set has a value for exactly the variables one was accepted for");
            if (!has[j]) continue;
            ++count;
            auto& g = it->second;
            bool same = false;
            switch (want[j].type) {
                case variable_type::real: if (auto p = std::get_if<double>(&g)) same = vr(*p) == want[j]; break;
                case variable_type::integer: if (auto p = std::get_if<int>(&g)) same = vi(*p) == want[j]; break;
                case variable_type::boolean: if (auto p = std::get_if<bool>(&g)) same = vb(*p) == want[j]; break;
                default: if (auto p = std::get_if<std::string>(&g)) same = vs(*p) == want[j];
            }
            CHECK(same, "the value of a variable is the last one that was accepted");
        }
        CHECK(m.size() == count, "the set has no other values");
        sym_reach(ok ? "accepted" : "rejected");
    }
    sym_reach("end");
}
// C22
namespace
{
struct recording_algorithm : algorithm
{
    vector<std::pair<simulator_index, int64_t>> sims;
    vector<std::pair<function_index, function*>> funs;
    vector<std::pair<variable_id, variable_id>> ss;
    vector<std::pair<variable_id, function_io_id>> sf;
    vector<std::pair<function_io_id, variable_id>> fs;
    void add_simulator(simulator_index i, simulator* s, duration h) override { CHECK(s != nullptr, "a simulator is added"); sims.push_back({i, h.count()}); }
    void remove_simulator(simulator_index) override { sym_fail("no simulator is removed"); }
    void add_function(function_index i, function* f) override { funs.push_back({i, f}); }
    void connect_variables(variable_id a, variable_id b) override { ss.push_back({a, b}); }
    void connect_variables(variable_id a, function_io_id b) override { sf.push_back({a, b}); }
    void connect_variables(function_io_id a, variable_id b) override { fs.push_back({a, b}); }
    void disconnect_variable(variable_id) override { sym_fail("nothing is disconnected"); }
    void disconnect_variable(function_io_id) override { sym_fail("nothing is disconnected"); }
    void setup(time_point, std::optional<time_point>) override {}
    void initialize() override {}
    std::pair<duration, std::unordered_set<simulator_index>> do_step(time_point) override { return {duration(1), {}}; }
};
struct counted_type : fake_function_type
{
    vector<std::pair<function*, function_parameter_value_map>> instances;
    std::unique_ptr<function> instantiate(const function_parameter_value_map& p) override { auto f = std::make_unique<fake_function>(); function_type_description t = d; t.parameters.clear(); f->desc = {{{"in", p.count(0) ? std::get<int>(p.at(0)) : 1, {{"w", variable_type::boolean, input, 1}, {"x", variable_type::real, input, 2}}}, {"out", 1, {{"y", variable_type::real, output, 1}}}}}; instances.push_back({f.get(), p}); return f; }
};
}
// any small structure, injected next to whatever the execution has already
extern "C" void h_inject()
{
    auto algo = make_shared<recording_algorithm>();
    execution exe(tp(0), algo);
    if (sym_flag("more")) { exe.add_slave(make_shared<fake_slave>(), "other"); exe.add_function(make_shared<fake_function>()); algo->sims.clear(); algo->funs.clear(); }
    auto M = make_shared<fake_model>("1"), N = make_shared<fake_model>("2");
    M->add("o", 1, variable_type::real, output, continuous); M->add("q", 2, variable_type::integer, output, discrete); M->add("i", 4, variable_type::real, input, continuous);
    N->add("i", 3, variable_type::real, input, continuous); N->add("n", 3, variable_type::integer, input, discrete); N->add("s", 2, variable_type::string, variable_causality::parameter, tunable); N->add("b", 2, variable_type::boolean, input, discrete); N->add("o", 5, variable_type::real, output, continuous);
    auto F = make_shared<counted_type>();
    system_structure s;
    // a is an M, b an N, c an M or an N or absent, f and g functions or absent
    int64_t hint[3] = {sym_range64("hint", 0, 1ll << 62), sym_range64("hint", 0, 1ll << 62), 0};
    int c = sym_choose("c", 0, 2), nf = sym_choose("functions", 0, 2), groups = 2;
    auto add = [&](int i) {
        switch (i) {
            case 0: s.add_entity("a", M, duration(hint[0])); break;
            case 1: s.add_entity("b", N, duration(hint[1])); break;
            case 2: if (c) s.add_entity("c", c == 1 ? M : N); break;
            case 3: if (nf) s.add_entity("f", F, {{0, groups}}); break;
            default: if (nf == 2) s.add_entity("g", F, {});
        }
    };
    bool reverse = sym_flag("reverse");
    for (int i = 0; i < 5; ++i) add(reverse ? 4 - i : i);
    struct conn { fvn s, d; };
    vector<conn> cs;
    auto connect = [&](fvn x, fvn y) { if (!sym_flag("connect")) return; s.connect_variables(x, y); cs.push_back({x, y}); };
    connect({"a", "q"}, {"b", "n"});
    if (nf == 0) connect({"a", "o"}, {"b", "i"});
    else {
        connect({"a", "o"}, {"f", "in", 1, "x", 1}); connect({"b", "o"}, {"f", "in", 0, "x", 1}); connect({"f", "out", "y"}, {"b", "i"});
        if (nf == 2) connect({"a", "o"}, {"g", "in", "x"});
    }
    if (c) connect({"b", "o"}, {"c", "i"});
    variable_value_map values;
    val x = vr(0), n = x, str = x, b = x;
    bool gx = false, gn = false, gs = false, gb = false;
    if ((gx = sym_flag("value"))) { x = sym_val("x", variable_type::real); add_variable_value(values, s, {"a", "i"}, x.real()); }
    if ((gs = sym_flag("value"))) { str = sym_val("s", variable_type::string, 2); add_variable_value(values, s, {"b", "s"}, str.text); }
    if ((gb = sym_flag("value"))) { b = sym_val("b", variable_type::boolean); add_variable_value(values, s, {"b", "b"}, b.boolean()); }
    if (gb) { gn = true; n = sym_val("n", variable_type::integer); add_variable_value(values, s, {"b", "n"}, n.integer()); }
    auto maps = inject_system_structure(exe, s, values);
    // entities
    CHECK(maps.simulators.size() == (c ? 3u : 2u) && maps.functions.size() == (size_t)nf, "every entity has an index of its kind");
    CHECK(algo->sims.size() == maps.simulators.size() && algo->funs.size() == maps.functions.size(), "the execution contains one simulator or function per entity");
    CHECK(M->made.size() + N->made.size() == maps.simulators.size() && F->instances.size() == (size_t)nf, "every entity is instantiated once");
    auto slave_of = [&](const std::string& name) -> fake_slave* { for (auto& m : {M, N}) for (auto& p : m->made) if (p.first == name) return p.second.get(); return nullptr; };
    const char* names[3] = {"a", "b", "c"};
    for (int i = 0; i < 3; ++i) {
        if (i == 2 && !c) continue;
        CHECK(maps.simulators.count(names[i]) == 1, "the index of a simulator is found by its name");
        auto at = maps.simulators.at(names[i]);
        auto it = std::find_if(algo->sims.begin(), algo->sims.end(), [&](auto& p) { return p.first == at; });
        CHECK(it != algo->sims.end(), "the index is that of a simulator that was added");
        CHECK(it->second == hint[i], "the step size hint is passed on");
        CHECK(slave_of(names[i]) != nullptr, "a slave is instantiated under the entity's name");
        auto& m = i == 0 || (i == 2 && c == 1) ? M : N;
        CHECK(std::any_of(m->made.begin(), m->made.end(), [&](auto& p) { return p.first == names[i]; }), "the slave is an instance of the entity's model");
    }
    for (int i = 0; i < nf; ++i) {
        auto nm = i ? "g" : "f";
        CHECK(maps.functions.count(nm) == 1, "the index of a function is found by its name");
        auto at = maps.functions.at(nm);
        auto it = std::find_if(algo->funs.begin(), algo->funs.end(), [&](auto& p) { return p.first == at; });
        CHECK(it != algo->funs.end(), "the index is that of a function that was added");
        auto k = std::find_if(F->instances.begin(), F->instances.end(), [&](auto& p) { return p.first == it->second; });
        CHECK(k != F->instances.end(), "the function is an instance of the entity's type");
        CHECK(i ? k->second.empty() : k->second.size() == 1 && std::get<int>(k->second.at(0)) == groups, "the function is instantiated with the entity's parameters");
    }
    // connections
    size_t nss = 0, nsf = 0, nfs = 0;
    auto var = [&](const fvn& v) { auto& d = s.get_variable_description(v); return variable_id{maps.simulators.at(v.entity_name), d.type, d.reference}; };
    auto io = [&](const fvn& v) { return function_io_id{maps.functions.at(v.entity_name), variable_type::real, function_io_reference{v.variable_group_name == "out", v.variable_group_instance, v.variable_group_name == "in", v.variable_instance}}; };
    auto has = [](auto& list, auto x, auto y) { return std::count_if(list.begin(), list.end(), [&](auto& p) { return p.first == x && p.second == y; }) == 1; };
    for (auto& k : cs) {
        if (!k.s.is_simulator_variable()) { ++nfs; CHECK(has(algo->fs, io(k.s), var(k.d)), "a connection of the structure is made"); }
        else if (k.d.is_simulator_variable()) { ++nss; CHECK(has(algo->ss, var(k.s), var(k.d)), "a connection of the structure is made"); }
        else { ++nsf; CHECK(has(algo->sf, var(k.s), io(k.d)), "a connection of the structure is made"); }
    }
    CHECK(algo->ss.size() == nss && algo->sf.size() == nsf && algo->fs.size() == nfs, "no other connections are made");
    // initial values: what the slaves are given when the simulation starts
    exe.step();
    sym_reach(nf ? "with functions" : "without functions");
    (void)x; (void)n; (void)str; (void)b; (void)gx; (void)gs; (void)gb; (void)gn;
}
// initial values reach the slaves, and only those given
extern "C" void h_inject_values()
{
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto M = make_shared<fake_model>("1");
    for (auto t : all_types) for (value_reference r = 1; r <= 2; ++r) M->add(to_text(t) + std::to_string(r), r, t, r == 1 ? input : variable_causality::parameter, tunable);
    M->add("o", 3, variable_type::real, output, continuous);
    system_structure s;
    s.add_entity("a", M); s.add_entity("b", M);
    bool conn = sym_flag("connected");
    if (conn) s.connect_variables({"a", "o"}, {"b", "real1"});
    variable_value_map values;
    struct given { std::string e; variable_type t; value_reference r; val x; };
    vector<given> g;
    for (auto e : {"a", "b"}) for (auto t : all_types) for (value_reference r = 1; r <= 2; ++r) {
        if (r == 2 && t != variable_type::real && e[0] == 'a') continue;
        if (r == 1 && t == variable_type::real ? !sym_flag("give") : (e[0] == 'a') != (r == 1)) continue;
        auto x = sym_val("x", t, 2);
        g.push_back({e, t, r, x});
        add_variable_value(values, s, {e, to_text(t) + std::to_string(r)}, scalar(x));
    }
    bool fun = sym_flag("function variable");
    if (fun) values.insert_or_assign(fvn("f", "in", "x"), 1.0);
    bool threw = throws([&] { inject_system_structure(exe, s, values); });
    CHECK(threw == fun, "initial values are for simulators only");
    if (threw) { sym_reach("refused"); return; }
    exe.step();
    for (auto& p : M->made) {
        auto& sl = *p.second;
        for (auto t : all_types) for (value_reference r = 1; r <= 2; ++r) {
            auto it = std::find_if(g.begin(), g.end(), [&](auto& y) { return y.e == p.first && y.t == t && y.r == r; });
            if (conn && p.first == "b" && t == variable_type::real && r == 1) continue; // overwritten by the connection
            CHECK(sl.at(t, r) == (it != g.end() ? it->x : zero_val(t)), "an initial value is set on the variable it was given for, and on no other");
        }
        CHECK(sl.at(variable_type::real, 3) == zero_val(variable_type::real), "other variables are not touched");
    }
    sym_reach("end");
}
