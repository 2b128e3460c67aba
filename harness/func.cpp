// C18, C19: the built-in functions and function parameters
#include "sim.hpp"
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/utility.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/system_structure.hpp>
#include <optional>
using namespace cosim;
using std::make_shared;
using std::vector;
namespace
{
bool same(double a, double b) { return (sym_double_bits(a) == sym_double_bits(b)) | (a == b) | ((a != a) & (b != b)); }
double sym_real(const char* n) { return sym_bits_double(sym_u64(n)); }
// numbers whose sums are exact in any order
double sym_whole(const char* n) { return (double)(int)sym_range64(n, -(1 << 20), 1 << 20); }
int sym_int(const char* n) { return (int)sym_u32(n); }
function_io_reference sym_reference() { return {sym_int("group"), sym_int("group instance"), sym_int("io"), sym_int("io instance")}; }
template<typename F> void described(const F& f, const function_description& want)
{
    const auto d = f.description();
    CHECK(d.io_groups.size() == want.io_groups.size(), "groups of variables");
    for (size_t g = 0; g < d.io_groups.size(); ++g) {
        const auto &x = d.io_groups[g], &y = want.io_groups[g];
        CHECK(x.name == y.name && std::get<int>(x.count) == std::get<int>(y.count) && x.ios.size() == y.ios.size(), "a group of variables");
        for (size_t i = 0; i < x.ios.size(); ++i)
            CHECK(x.ios[i].name == y.ios[i].name && std::get<variable_type>(x.ios[i].type) == std::get<variable_type>(y.ios[i].type) && x.ios[i].causality == y.ios[i].causality && std::get<int>(x.ios[i].count) == std::get<int>(y.ios[i].count), "a variable's description");
    }
}
function_description in_out(int count, variable_type t, int dim)
{
    function_description d;
    d.io_groups = {{"in", count, {{"", t, variable_causality::input, dim}}}, {"out", 1, {{"", t, variable_causality::output, dim}}}};
    return d;
}
// everything that cannot be set or read, for arbitrary references
void bad_references(function& f, variable_type t, int count, int dim)
{
    auto r = sym_reference();
    int w = sym_choose("access", 0, 3);
    bool in = r.group == 0 && r.group_instance >= 0 && r.group_instance < count && r.io == 0 && r.io_instance >= 0 && r.io_instance < dim;
    bool out = r.group == 1 && r.group_instance == 0 && r.io == 0 && r.io_instance >= 0 && r.io_instance < dim;
    auto T = all_types[w];
    bool set = sym_flag("set");
    bool threw = throws([&] {
        switch (T) {
            case variable_type::real: if (set) f.set_real(r, 1.0); else f.get_real(r); break;
            case variable_type::integer: if (set) f.set_integer(r, 1); else f.get_integer(r); break;
            case variable_type::boolean: if (set) f.set_boolean(r, true); else f.get_boolean(r); break;
            default: if (set) f.set_string(r, "x"); else f.get_string(r);
        }
    });
    bool ok = T == t && (set ? in : in || out);
    CHECK(threw == !ok, "exactly the described variables can be set and read");
    sym_reach(ok ? "valid reference" : "invalid reference");
}
}
// any offset, factor and input; any order of setting and calculating
extern "C" void h_linear()
{
    int ops = (int)sym_option("ops", 4);
    double offset = 0.0, factor = 1.0;
    std::unique_ptr<function> f;
    if (sym_flag("direct")) { offset = sym_real("offset"); factor = sym_real("factor"); f = std::make_unique<linear_transformation_function>(offset, factor); }
    else {
        function_parameter_value_map m;
        if (sym_flag("give offset")) m[linear_transformation_function_type::offset_parameter_index] = offset = sym_real("offset");
        if (sym_flag("give factor")) m[linear_transformation_function_type::factor_parameter_index] = factor = sym_real("factor");
        f = linear_transformation_function_type().instantiate(m);
    }
    described(*f, in_out(1, variable_type::real, 1));
    double x = 0.0; bool calculated = false;
    for (int k = 0; k < ops; ++k) {
        if (sym_flag("set")) { x = sym_real("x"); f->set_real(linear_transformation_function::in_io_reference, x); calculated = false; CHECK(same(f->get_real(linear_transformation_function::in_io_reference), x), "an input can be read back"); }
        else { f->calculate(); calculated = true; }
        if (calculated) CHECK(same(f->get_real(linear_transformation_function::out_io_reference), offset + factor * x), "the output is offset + factor * input");
    }
    bad_references(*f, variable_type::real, 1, 1);
    sym_reach("end");
}
template<typename T> void vector_sum()
{
    int ops = (int)sym_option("ops", 3);
    constexpr bool real = std::is_same_v<T, double>;
    const auto type = real ? variable_type::real : variable_type::integer;
    int count = sym_choose("inputs", 1, (int)sym_option("inputs", 3)), dim = sym_choose("dimension", 1, (int)sym_option("dimension", 2));
    std::unique_ptr<function> f;
    if (sym_flag("direct")) f = std::make_unique<vector_sum_function<T>>(count, dim);
    else {
        function_parameter_value_map m;
        if (count != 1 || sym_flag("give count")) m[vector_sum_function_type::inputCount_parameter_index] = count;
        if (!real || sym_flag("give type")) m[vector_sum_function_type::numericType_parameter_index] = type;
        if (dim != 1 || sym_flag("give dimension")) m[vector_sum_function_type::dimension_parameter_index] = dim;
        f = vector_sum_function_type().instantiate(m);
    }
    described(*f, in_out(count, type, dim));
    auto set = [&](function_io_reference r, T v) { if constexpr (real) f->set_real(r, v); else f->set_integer(r, v); };
    auto get = [&](function_io_reference r) -> T { if constexpr (real) return f->get_real(r); else return f->get_integer(r); };
    auto eq = [&](T a, T b) { if constexpr (real) return same(a, b); else return a == b; };
    vector<vector<T>> in(count, vector<T>(dim));
    auto fresh = [&]() -> T { if constexpr (real) return count <= 2 ? sym_real("x") : sym_whole("x"); else return (int)sym_range64("x", -(1 << 27), 1 << 27); };
    bool calculated = false;
    for (int k = 0; k < ops; ++k) {
        int op = sym_choose("op", 0, 2);
        if (op == 0) { f->calculate(); calculated = true; }
        else if (op == 1) { int i = sym_choose("input", 0, count - 1), j = sym_choose("component", 0, dim - 1); set({0, i, 0, j}, in[i][j] = fresh()); calculated = false; }
        else { for (int i = 0; i < count; ++i) for (int j = 0; j < dim; ++j) set({0, i, 0, j}, in[i][j] = fresh()); calculated = false; }
        for (int i = 0; i < count; ++i) for (int j = 0; j < dim; ++j) CHECK(eq(get({0, i, 0, j}), in[i][j]), "an input can be read back");
        if (calculated) for (int j = 0; j < dim; ++j) {
            T sum = in[0][j];
            for (int i = 1; i < count; ++i) sum = sum + in[i][j];
            CHECK(eq(get({1, 0, 0, j}), sum), "an element of the output is the sum of that element of all inputs");
        }
    }
    if (sym_flag("references")) bad_references(*f, type, count, dim);
    sym_reach("end");
}
extern "C" void h_vector_sum_real() { vector_sum<double>(); }
extern "C" void h_vector_sum_integer() { vector_sum<int>(); }
// the functions in a simulation: values go from simulators through them to simulators at every synchronisation point
extern "C" void h_functions_run()
{
    int steps = (int)sym_option("steps", 3);
    auto algo = make_shared<fixed_step_algorithm>(duration(10), 0u);
    execution exe(tp(0), algo);
    auto A = make_shared<fake_slave>(), B = make_shared<fake_slave>(), C = make_shared<fake_slave>();
    A->add("o", 1, variable_type::real, output); B->add("o", 1, variable_type::real, output);
    C->add("l", 1, variable_type::real, input); C->add("s", 2, variable_type::real, input); C->add("z", 3, variable_type::real, input);
    double a = 0, b = 0;
    A->on_step = [&](fake_slave& s, int) { s.at(variable_type::real, 1) = vr(a = sym_real("a")); };
    B->on_step = [&](fake_slave& s, int) { s.at(variable_type::real, 1) = vr(b = sym_real("b")); };
    double wl = 0, ws = 0, wz = 0;
    C->on_step = [&](fake_slave& s, int n) {
        if (!n) return;
        CHECK(same(s.at(variable_type::real, 1).real(), wl), "a connected variable gets the transformed value at every synchronisation point");
        CHECK(same(s.at(variable_type::real, 2).real(), ws) && same(s.at(variable_type::real, 3).real(), wz), "connected variables get the elements of the sum at every synchronisation point");
    };
    auto ia = exe.add_slave(A, "a"), ib = exe.add_slave(B, "b"), ic = exe.add_slave(C, "c");
    double offset = sym_real("offset"), factor = sym_real("factor");
    auto lin = exe.add_function(make_shared<linear_transformation_function>(offset, factor)), sum = exe.add_function(make_shared<vector_sum_function<double>>(2, 2));
    variable_id vi[3] = {{ia, variable_type::real, 1}, {ib, variable_type::real, 1}};
    exe.connect_variables(vi[0], function_io_id{lin, variable_type::real, linear_transformation_function::in_io_reference});
    exe.connect_variables(function_io_id{lin, variable_type::real, linear_transformation_function::out_io_reference}, variable_id{ic, variable_type::real, 1});
    bool second = sym_flag("second");
    exe.connect_variables(vi[0], function_io_id{sum, variable_type::real, vector_sum_function<double>::in_io_reference(0, 0)});
    exe.connect_variables(vi[1], function_io_id{sum, variable_type::real, vector_sum_function<double>::in_io_reference(1, 0)});
    if (second) exe.connect_variables(vi[1], function_io_id{sum, variable_type::real, vector_sum_function<double>::in_io_reference(0, 1)});
    exe.connect_variables(function_io_id{sum, variable_type::real, vector_sum_function<double>::out_io_reference(0)}, variable_id{ic, variable_type::real, 2});
    exe.connect_variables(function_io_id{sum, variable_type::real, vector_sum_function<double>::out_io_reference(1)}, variable_id{ic, variable_type::real, 3});
    struct sync : fake_manipulator { };
    auto m = make_shared<sync>();
    m->on_commence = [&](int64_t) { wl = offset + factor * a; ws = a + b; wz = second ? b + 0.0 : 0.0; };
    exe.add_manipulator(m);
    for (int k = 0; k < steps; ++k) exe.step();
    sym_reach("end");
}
// C19
namespace
{
struct fake_type : function_type
{
    function_type_description d;
    function_type_description description() const override { return d; }
    std::unique_ptr<function> instantiate(const function_parameter_value_map&) override { return nullptr; }
};
using value = function_parameter_value;
// a parameter value of any type; types: 0 real, 1 integer, 2 variable type
value sym_value(int type)
{
    if (type == 0) return sym_real("value");
    if (type == 1) return sym_int("value");
    return (variable_type)sym_choose("value", 0, 4);
}
struct param { function_parameter_description d; int type; std::optional<value> given; int given_type = 0; };
// what the given parameter stands for, if it is valid as a T
template<typename T> std::optional<T> meaning(const vector<param>& ps, int index)
{
    constexpr int type = std::is_same_v<T, double> ? 0 : std::is_same_v<T, int> ? 1 : 2;
    if (index < 0 || index >= (int)ps.size()) return {};
    auto& p = ps[index];
    // the value of a parameter declared with another type is not used as a T by any sensible function type
    if (p.type != type) { sym_assume(!p.given || p.given_type != type); return {}; }
    if (!p.given) return std::get<T>(p.d.default_value);
    if (p.given_type != type) return {};
    T v = std::get<T>(*p.given);
    if constexpr (type != 2) {
        if (p.d.min_value && v < std::get<T>(*p.d.min_value)) return {};
        if (p.d.max_value && v > std::get<T>(*p.d.max_value)) return {};
    }
    return v;
}
param sym_parameter(int type, bool bounds)
{
    param p; p.type = type;
    p.d.name = "p"; p.d.type = (function_parameter_type)type; p.d.default_value = sym_value(type);
    if (type != 2 && bounds) { if (sym_flag("minimum")) p.d.min_value = sym_value(type); if (sym_flag("maximum")) p.d.max_value = sym_value(type); }
    p.given_type = sym_choose("given", 0, 3);
    if (p.given_type < 3) p.given = sym_value(p.given_type);
    return p;
}
template<typename T> bool equal(T a, T b) { if constexpr (std::is_same_v<T, double>) return sym_double_bits(a) == sym_double_bits(b); else return a == b; }
template<typename T> void get_parameter(const function_type_description& d, const function_parameter_value_map& m, const vector<param>& ps, int index)
{
    auto want = meaning<T>(ps, index);
    std::optional<T> got;
    try { got = get_function_parameter<T>(d, m, index); } catch (const std::exception&) { }
    CHECK(got.has_value() == want.has_value(), "a parameter value is accepted exactly when it has the declared type and is within the declared bounds");
    if (got) CHECK(equal(*got, *want), "the value of a parameter is the one given, or the default");
    sym_reach(got ? "accepted" : "rejected");
}
}
// one parameter of any type, with any bounds, default and given value
extern "C" void h_get_parameter()
{
    vector<param> ps{sym_parameter(sym_choose("type", 0, 2), true)};
    function_type_description d; d.parameters.push_back(ps[0].d);
    function_parameter_value_map m; if (ps[0].given) m[0] = *ps[0].given;
    if (sym_flag("another")) m[1] = 7;
    switch (sym_choose("as", 0, 2)) {
        case 0: get_parameter<double>(d, m, ps, 0); break;
        case 1: get_parameter<int>(d, m, ps, 0); break;
        default: get_parameter<variable_type>(d, m, ps, 0);
    }
    CHECK(throws([&] { get_function_parameter<int>(d, m, sym_flag("index") ? 1 : -1); }), "a parameter that does not exist is an error");
    sym_reach("end");
}
// descriptions with any mix of placeholders and fixed values
extern "C" void h_substitute()
{
    vector<param> ps{sym_parameter(1, true), sym_parameter(2, false)};
    auto t = make_shared<fake_type>();
    for (auto& p : ps) t->d.parameters.push_back(p.d);
    function_parameter_value_map m;
    for (int i = 0; i < 2; ++i) if (ps[i].given) m[i] = *ps[i].given;
    bool ok = true;
    auto count = [&](std::variant<int, function_parameter_placeholder>& out) -> int {
        int i = sym_choose("count", -2, 2);
        if (i == -2) { int n = sym_int("fixed"); out = n; return n; }
        out = function_parameter_placeholder{i};
        auto v = meaning<int>(ps, i); ok &= v.has_value(); return v.value_or(0);
    };
    auto type = [&](std::variant<variable_type, function_parameter_placeholder>& out) -> variable_type {
        int i = sym_choose("type", -2, 2);
        if (i == -2) { out = variable_type::string; return variable_type::string; }
        out = function_parameter_placeholder{i};
        auto v = meaning<variable_type>(ps, i); ok &= v.has_value(); return v.value_or(variable_type::real);
    };
    // two groups, the second with two variables; the placeholders of one of them are arbitrary
    t->d.io_groups.resize(2);
    auto& g = t->d.io_groups;
    g[0] = {"a", 3, {{"x", variable_type::boolean, variable_causality::input, 4}}};
    g[1] = {"b", 1, {{"y", variable_type::real, variable_causality::output, 2}, {"z", variable_type::integer, variable_causality::output, 5}}};
    auto want = function_description(t->d);
    int where = sym_choose("where", 0, 2);
    auto &G = g[where ? 1 : 0], &W = want.io_groups[where ? 1 : 0];
    auto &V = G.ios[where == 2], &WV = W.ios[where == 2];
    W.count = count(G.count); WV.count = count(V.count); WV.type = type(V.type);
    if (sym_flag("structure")) {
        system_structure s;
        bool threw = throws([&] { s.add_entity("f", t, m); });
        CHECK(threw == !ok, "a function is added to a system exactly when its parameters are valid");
        auto e = s.find_entity("f");
        CHECK((e == nullptr) == threw, "a function that is refused is not added");
        if (!e) { CHECK(s.entities().empty(), "a function that is refused is not added"); sym_reach("refused"); return; }
        int gc = std::get<int>(W.count), vc = std::get<int>(WV.count);
        if (gc > 0 && vc > 0) {
            auto& io = s.get_function_io_description({"f", G.name, V.name});
            CHECK(io.group_index == (where ? 1 : 0) && io.io_index == (where == 2) && std::get<int>(io.description.count) == vc && std::get<variable_type>(io.description.type) == std::get<variable_type>(WV.type) && io.description.causality == V.causality, "a function variable is described with the parameters' values");
        }
        sym_reach("added");
    } else {
        struct described_by { function_description d; function_description description() const { return d; } } got;
        bool threw = throws([&] { got.d = substitute_function_parameters(t->d, m); });
        CHECK(threw == !ok, "parameters are substituted exactly when all those used are valid");
        if (!threw) { described(got, want); sym_reach("substituted"); } else sym_reach("error");
    }
}
// instantiating the built-in function types with any parameters
extern "C" void h_instantiate()
{
    bool linear = sym_flag("linear");
    function_parameter_value_map m;
    bool ok = true, fits = true; int count = 1, dim = 1; auto type = variable_type::real;
    double offset = 0, factor = 1;
    for (int i = 0; i < (linear ? 2 : 3); ++i) {
        int t = sym_choose("given", 0, 3);
        if (t == 3) continue;
        if (linear) { auto v = sym_value(t); m[i] = v; if (t != 0) ok = false; else (i ? factor : offset) = std::get<double>(v); }
        else if (i == 1) { auto v = sym_value(t); m[i] = v; if (t != 2) ok = fits = false; else { type = std::get<variable_type>(v); if (type != variable_type::real && type != variable_type::integer) ok = false; } }
        else {
            int n = 0;
            if (t == 1) { bool bad = sym_flag("below"); if (bad) { n = sym_int("n"); sym_assume(n < 1); ok = fits = false; } else n = sym_choose("n", 1, 3); m[i] = n; (i ? dim : count) = n; }
            else { m[i] = sym_value(t); ok = fits = false; }
        }
    }
    if (!linear && sym_flag("system")) {
        system_structure sys;
        bool refused = throws([&] { sys.add_entity("f", make_shared<vector_sum_function_type>(), m); });
        CHECK(refused == !fits, "a function is added to a system exactly when its parameters have their types and are within their limits");
        sym_reach("in a system"); return;
    }
    std::unique_ptr<function> f;
    bool threw = throws([&] { f = linear ? linear_transformation_function_type().instantiate(m) : vector_sum_function_type().instantiate(m); });
    CHECK(threw == !ok, "a function is instantiated exactly when its parameters are valid");
    if (!threw) {
        described(*f, linear ? in_out(1, variable_type::real, 1) : in_out(count, type, dim));
        if (linear) { f->set_real({0, 0, 0, 0}, 2.0); f->calculate(); CHECK(same(f->get_real({1, 0, 0, 0}), offset + factor * 2.0), "the function uses the given parameters"); }
        sym_reach("instantiated");
    } else sym_reach("refused");
}
