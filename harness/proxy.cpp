// C35: FMUs behind proxyfmu, on a proxyfmu library in memory
#include "scratch.hpp"
#include <cosim/exception.hpp>
#include <cosim/fs_portability.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/time.hpp>
#include <cosim/uri.hpp>
#include <cosim/proxy/proxy_uri_sub_resolver.hpp>
#include <cosim/proxy/remote_fmu.hpp>
#include <cosim/proxy/remote_slave.hpp>
#include <proxyfmu/client/proxy_fmu.hpp>
#include <memory>
#include <vector>
using namespace cosim;
using std::shared_ptr;
using std::string;
using std::vector;
namespace
{
struct log
{
    vector<string> calls;
    bool answer = true;
    bool ask = false;
    double start, stop, tolerance, t, dt;
    vector<unsigned> refs;
    vector<double> reals;
    vector<int> integers;
    vector<bool> booleans;
    vector<string> strings;
    string name;
    string path, host;
    bool remote = false;
    int port = 0;
    int slaves = 0, fmus = 0;
} the;
proxyfmu::fmi::model_description the_description;
bool done(const char* what)
{
    the.calls.push_back(what);
    the.answer = !the.ask || sym_flag(what);
    return the.answer;
}
struct fake : proxyfmu::fmi::slave
{
    bool freed = false;
    fake() { ++the.slaves; }
    ~fake() { CHECK(freed, "an instance is freed before it is destroyed"); --the.slaves; }
    bool setup_experiment(double a, double b, double c) override { the.start = a; the.stop = b; the.tolerance = c; return done("setup"); }
    bool enter_initialization_mode() override { return done("enter"); }
    bool exit_initialization_mode() override { return done("exit"); }
    bool step(double t, double dt) override { the.t = t; the.dt = dt; return done("step"); }
    bool terminate() override { CHECK(!freed, "a freed instance is not used"); return done("terminate"); }
    void freeInstance() override { CHECK(!freed, "an instance is freed once"); freed = true; }
    template<class V> bool get(const vector<unsigned>& r, V& v, const V& from, const char* what)
    {
        the.refs = r;
        CHECK(v.size() == r.size(), "there is room for the values");
        bool ok = done(what);
        for (size_t i = 0; i < r.size() && ok; ++i) v[i] = from[i];
        return ok;
    }
    template<class V> bool set(const vector<unsigned>& r, const V& v, V& to, const char* what) { the.refs = r; to = v; return done(what); }
    bool get_integer(const vector<unsigned>& r, vector<int>& v) override { return get(r, v, the.integers, "get_integer"); }
    bool get_real(const vector<unsigned>& r, vector<double>& v) override { return get(r, v, the.reals, "get_real"); }
    bool get_string(const vector<unsigned>& r, vector<string>& v) override { return get(r, v, the.strings, "get_string"); }
    bool get_boolean(const vector<unsigned>& r, vector<bool>& v) override { return get(r, v, the.booleans, "get_boolean"); }
    bool set_integer(const vector<unsigned>& r, const vector<int>& v) override { return set(r, v, the.integers, "set_integer"); }
    bool set_real(const vector<unsigned>& r, const vector<double>& v) override { return set(r, v, the.reals, "set_real"); }
    bool set_string(const vector<unsigned>& r, const vector<string>& v) override { return set(r, v, the.strings, "set_string"); }
    bool set_boolean(const vector<unsigned>& r, const vector<bool>& v) override { return set(r, v, the.booleans, "set_boolean"); }
};
template<class F> int outcome(F f)
{
    try {
        f();
        return 0;
    } catch (const std::invalid_argument&) {
        return 2;
    } catch (const error& e) {
        return e.code() == cosim::errc::model_error ? 1 : e.code() == cosim::errc::bad_file ? 3 : 9;
    } catch (const std::exception&) {
        return 4;
    }
}
bool same(double a, double b) { return sym_double_bits(a) == sym_double_bits(b); }
template<class T> gsl::span<T> sp(vector<T>& v) { return gsl::span<T>(v.data(), v.size()); }
void put_file(const cosim::filesystem::path& p) { cosim::filesystem::create_directories(p.parent_path()); spit(p, "fmu"); }
}
namespace proxyfmu::client
{
proxy_fmu::proxy_fmu(const filesystem::path& p, const std::optional<remote_info>& r) : description_(the_description)
{
    ++the.fmus;
    the.path = p.string(); the.remote = r.has_value();
    if (r) { the.host = r->host(); the.port = r->port(); }
}
const fmi::model_description& proxy_fmu::get_model_description() const { return description_; }
std::unique_ptr<fmi::slave> proxy_fmu::new_instance(const std::string& n) { the.name = n; return std::make_unique<fake>(); }
}

extern "C" void h_proxy_life()
{
    the_description.guid = "g";
    put_file(scratch() / "m.fmu");
    auto f = std::make_shared<proxy::remote_fmu>(scratch() / "m.fmu");
    auto s = f->instantiate("one");
    CHECK(the.name == "one" && s->model_description().uuid == "g", "an instance gets its name and knows its description");
    f.reset();
    const auto start = time_point(duration(sym_range64("start", -(1ll << 50), 1ll << 50)));
    const auto stop = time_point(duration(sym_range64("stop", -(1ll << 50), 1ll << 50)));
    const double tolerance = sym_double("tolerance");
    const bool has_stop = sym_flag("has stop"), has_tolerance = sym_flag("has tolerance");
    the.ask = true;
    int r = outcome([&] { s->setup(start, has_stop ? std::optional<time_point>(stop) : std::nullopt, has_tolerance ? std::optional<double>(tolerance) : std::nullopt); });
    bool go = the.answer;
    CHECK(r == (go ? 0 : 1), "a slave that refuses is an error of the model");
    CHECK(the.calls.size() <= 2 && the.calls[0] == "setup" && (the.calls.size() == 2 ? the.calls[1] == "enter" : !go), "the experiment is set up and initialisation entered");
    CHECK(same(the.start, to_double_time_point(start)) && (!has_stop || same(the.stop, to_double_time_point(stop))) && (!has_tolerance || same(the.tolerance, tolerance)), "a slave gets times and tolerance");
    if (go) {
        the.calls.clear();
        r = outcome([&] { s->start_simulation(); });
        go = the.answer;
        CHECK(r == (go ? 0 : 1) && the.calls == vector<string>{"exit"}, "initialisation is ended");
    }
    bool terminated = false;
    if (go) {
        const int steps = sym_choose("steps", 0, (int)sym_option("steps", 2));
        for (int k = 0; k < steps && go; ++k) {
            const auto t = time_point(duration(sym_range64("t", -(1ll << 50), 1ll << 50)));
            const auto dt = duration(sym_range64("dt", 0, 1ll << 40));
            step_result got = step_result::failed;
            the.calls.clear();
            r = outcome([&] { got = s->do_step(t, dt); });
            go = the.answer;
            CHECK(r == (go ? 0 : 1) && (!go || got == step_result::complete) && the.calls == vector<string>{"step"}, "a step is made, or an error of the model");
            CHECK(same(the.t, to_double_time_point(t)) && same(the.dt, to_double_duration(dt, t)), "a step goes from the time to the end of the step");
        }
        if (sym_flag("end")) {
            the.calls.clear();
            outcome([&] { s->end_simulation(); });
            CHECK(the.calls == vector<string>{"terminate"}, "the slave is terminated");
            terminated = true;
        }
    }
    the.calls.clear();
    s.reset();
    CHECK(the.calls == (terminated ? vector<string>{} : vector<string>{"terminate"}), "a slave that still runs is terminated, once");
    CHECK(the.slaves == 0, "the instance is released");
    sym_reach("end");
}

extern "C" void h_proxy_values()
{
    put_file(scratch() / "m.fmu");
    proxy::remote_fmu f(scratch() / "m.fmu");
    auto s = f.instantiate("one");
    const int type = sym_choose("type", 0, 3), n = sym_choose("n", 0, (int)sym_option("n", 3)), m = sym_choose("values", 0, (int)sym_option("n", 3));
    const bool set = sym_flag("set");
    vector<value_reference> refs;
    for (int i = 0; i < n; ++i) refs.push_back(sym_u32("ref"));
    gsl::span<const value_reference> rs(refs.data(), n);
    vector<double> d; vector<int> in; vector<string> st;
    bool b[8] = {};
    for (int i = 0; i < m; ++i) {
        d.push_back(type == 0 ? sym_double("real") : 0.0);
        in.push_back(type == 1 ? sym_i32("integer") : 0);
        b[i] = type == 2 ? sym_flag("boolean") : false;
        st.push_back(type == 3 ? sym_bytes("string", sym_choose("length", 0, 1)) : string());
    }
    const auto d0 = d; const auto in0 = in; const auto st0 = st; bool b0[8]; for (int i = 0; i < 8; ++i) b0[i] = b[i];
    the.calls.clear(); the.ask = true;
    int r;
    if (set) {
        r = outcome([&] {
            if (type == 0) s->set_real_variables(rs, sp(d)); else if (type == 1) s->set_integer_variables(rs, sp(in)); else if (type == 2) s->set_boolean_variables(rs, gsl::span<const bool>(b, m)); else s->set_string_variables(rs, sp(st));
        });
    } else {
        the.reals = d; the.integers = in; the.strings = st; the.booleans.assign(b, b + m);
        for (auto& x : d) x = 0; for (auto& x : in) x = 0; for (int i = 0; i < 8; ++i) b[i] = !b0[i]; for (auto& x : st) x = "old";
        r = outcome([&] {
            if (type == 0) s->get_real_variables(rs, sp(d)); else if (type == 1) s->get_integer_variables(rs, sp(in)); else if (type == 2) s->get_boolean_variables(rs, gsl::span<bool>(b, m)); else s->get_string_variables(rs, sp(st));
        });
    }
    if (n != m) { CHECK(r == 2 && the.calls.empty(), "as many values as references are asked for"); sym_reach("refused"); the.ask = false; sym_end_path(); }
    if (n == 0) { CHECK(r == 0 && the.calls.empty(), "nothing is done for no variables"); sym_end_path(); }
    const char* what[] = {"get_real", "get_integer", "get_boolean", "get_string", "set_real", "set_integer", "set_boolean", "set_string"};
    CHECK(the.calls == vector<string>{what[(set ? 4 : 0) + type]}, "one call of the variables' type is made");
    CHECK(the.refs.size() == (size_t)n, "all the variables are asked for");
    for (int i = 0; i < n; ++i) CHECK(the.refs[i] == refs[i], "the references are those of the variables, in order");
    CHECK(r == (the.answer ? 0 : 1), "a slave that refuses is an error of the model");
    if (set || the.answer) for (int i = 0; i < n; ++i) {
        if (type == 0) CHECK(same(set ? the.reals[i] : d[i], d0[i]), "the values arrive, in order");
        if (type == 1) CHECK((set ? the.integers[i] : in[i]) == in0[i], "the values arrive, in order");
        if (type == 2) CHECK((set ? (bool)the.booleans[i] : b[i]) == b0[i], "the values arrive, in order");
        if (type == 3) CHECK((set ? the.strings[i] : st[i]) == st0[i], "the values arrive, in order");
    }
    the.ask = false;
    sym_reach("end");
}

extern "C" void h_proxy_description()
{
    auto& m = the_description;
    m.guid = "guid"; m.modelName = sym_bytes("name", 1); m.description = "desc"; m.author = "auth";
    const int n = sym_choose("variables", 0, 2);
    const char* causalities[] = {"output", "input", "parameter", "calculated_parameter", "local", "independent"};
    const char* variabilities[] = {"discrete", "fixed", "tunable", "constant", "continuous", ""};
    int kind = 0;
    vector<double> reals(2); vector<int> integers(2); vector<string> strings(2); vector<char> bools(2);
    bool start = false;
    int c = 0, v = 0;
    for (int i = 0; i < n; ++i) {
        proxyfmu::fmi::scalar_variable x;
        const bool full = i == n - 1;
        x.name = sym_bytes("variable", 1); x.vr = sym_u32("reference");
        kind = full ? sym_choose("kind", 0, 4) : 1; start = full && sym_flag("start"); c = full ? sym_choose("causality", 0, 5) : 0; v = full ? sym_choose("variability", 0, 5) : 0;
        x.causality = causalities[c]; x.variability = variabilities[v];
        if (kind == 0) { proxyfmu::fmi::integer t; if (start) t.start = integers[i] = sym_i32("integer"); x.typeAttribute = t; }
        if (kind == 1) { proxyfmu::fmi::real t; if (start) t.start = reals[i] = sym_double("real"); x.typeAttribute = t; }
        if (kind == 2) { proxyfmu::fmi::string t; if (start) { strings[i] = sym_bytes("string", 1); t.start = strings[i]; } x.typeAttribute = t; }
        if (kind == 3) { proxyfmu::fmi::boolean t; if (start) { bools[i] = sym_flag("boolean"); t.start = (bool)bools[i]; } x.typeAttribute = t; }
        if (kind == 4) x.typeAttribute = proxyfmu::fmi::enumeration();
        m.modelVariables.push_back(x);
    }
    put_file(scratch() / "m.fmu");
    shared_ptr<proxy::remote_fmu> f;
    int r = outcome([&] { f = std::make_shared<proxy::remote_fmu>(scratch() / "m.fmu"); });
    if (n && kind == 4) { CHECK(r != 0, "variables of other types are not supported"); sym_reach("unsupported"); sym_end_path(); }
    CHECK(r == 0, "the description is read");
    auto d = f->description();
    CHECK(d->uuid == "guid" && d->name == m.modelName && d->description == "desc" && d->author == "auth" && d->variables.size() == (size_t)n, "the description is the FMU's");
    for (int i = 0; i < n; ++i) {
        const bool full = i == n - 1;
        auto& x = d->variables[i];
        const variable_type types[] = {variable_type::integer, variable_type::real, variable_type::string, variable_type::boolean};
        CHECK(x.name == m.modelVariables[i].name && x.reference == m.modelVariables[i].vr && x.type == types[full ? kind : 1], "a variable has its name, reference and type");
        const variable_causality cs[] = {variable_causality::output, variable_causality::input, variable_causality::parameter, variable_causality::calculated_parameter, variable_causality::local, variable_causality::local};
        const variable_variability vs[] = {variable_variability::discrete, variable_variability::fixed, variable_variability::tunable, variable_variability::constant, variable_variability::continuous, variable_variability::continuous};
        CHECK(x.causality == cs[full ? c : 0] && x.variability == vs[full ? v : 0], "a variable has its causality and variability");
        CHECK(x.start.has_value() == (full && start), "a variable has a start value if the FMU gives one");
        if (!(full && start)) continue;
        if (kind == 0) CHECK(std::holds_alternative<int>(*x.start) && std::get<int>(*x.start) == integers[i], "the start value is the FMU's");
        if (kind == 1) CHECK(std::holds_alternative<double>(*x.start) && same(std::get<double>(*x.start), reals[i]), "the start value is the FMU's");
        if (kind == 2) CHECK(std::holds_alternative<string>(*x.start) && std::get<string>(*x.start) == strings[i], "the start value is the FMU's");
        if (kind == 3) CHECK(std::holds_alternative<bool>(*x.start) && std::get<bool>(*x.start) == (bool)bools[i], "the start value is the FMU's");
    }
    sym_reach("described");
}

extern "C" void h_proxy_uri()
{
    const auto d = scratch();
    put_file(d / "models" / "m.fmu"); put_file(d / "conf" / "system.xml"); put_file(d / "conf" / "n.fmu");
    model_uri_resolver r;
    r.add_sub_resolver(std::make_shared<proxy::proxy_uri_sub_resolver>());
    const char* hosts[] = {"//localhost", "//localhost:9090", "//10.0.0.1:1", "//h:", "", "//h:x"};
    const int h = sym_choose("host", 0, 5), q = sym_choose("query", 0, 7);
    const bool proxy = !sym_flag("other scheme");
    const string abs = string(path_to_file_uri(d / "models" / "m.fmu").view());
    const string queries[] = {"?file=../models/m.fmu", "?file=n.fmu", "?file=" + abs, "?file=../models/no.fmu", "?other=n.fmu", "", "?file=" + string(path_to_file_uri(d / "no.fmu").view()), "?"};
    const string text = string(proxy ? "proxyfmu:" : "proxy:") + hosts[h] + queries[q];
    shared_ptr<model> m;
    int o = outcome([&] { m = r.lookup_model(path_to_file_uri(d / "conf" / "system.xml"), uri(text)); });
    if (!proxy) { CHECK(o != 0 && the.fmus == 0, "other URIs are for other resolvers"); sym_end_path(); }
    if (h >= 3) { CHECK(o != 0 && the.fmus == 0, "a URI without host, or with something that is no port, is rejected"); sym_reach("bad host"); sym_end_path(); }
    if (q >= 4 && q != 6) { CHECK(o != 0 && the.fmus == 0, "a URI without file is rejected"); sym_reach("no query"); sym_end_path(); }
    if (q == 3 || q == 6) { CHECK(o == 3 && the.fmus == 0, "a file that does not exist is a bad file"); sym_reach("bad file"); sym_end_path(); }
    CHECK(o == 0 && m && the.fmus == 1, "the model is found");
    CHECK(cosim::filesystem::path(the.path).lexically_normal() == (q == 1 ? d / "conf" / "n.fmu" : d / "models" / "m.fmu").lexically_normal(), "the file is the one the URI tells, relative to the base");
    CHECK(the.remote == (h > 0), "only a host without port that is this one is local");
    if (h == 1) CHECK(the.host == "localhost" && the.port == 9090, "the host and port are those of the URI");
    if (h == 2) CHECK(the.host == "10.0.0.1" && the.port == 1, "the host and port are those of the URI");
    sym_reach("found");
}
