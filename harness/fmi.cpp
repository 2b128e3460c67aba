// C33, C34: the FMI layer, on an FMI Library in memory
#include "fakefmi.hpp"
#include "fakezip.hpp"
#include "scratch.hpp"
#include <cosim/exception.hpp>
#include <cosim/file_cache.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/time.hpp>
#include <chrono>
#include <map>
#include <memory>
#include <optional>
using namespace cosim;
using std::shared_ptr;
using std::string;
namespace
{
string said; // what the last error said
template<class F> int outcome(F f)
{
    said.clear();
    try {
        f();
        return 0;
    } catch (const nonfatal_bad_value& e) {
        said = e.what(); return -1;
    } catch (const std::invalid_argument& e) {
        said = e.what(); return -2;
    } catch (const error& e) {
        said = e.what();
        if (e.code() == cosim::errc::model_error) return 1;
        if (e.code() == cosim::errc::unsupported_feature) return 2;
        if (e.code() == cosim::errc::bad_file) return 3;
        if (e.code() == cosim::errc::dl_load_error) return 4;
        return 9;
    } catch (const std::exception& e) {
        said = e.what(); return -3;
    }
}
bool says(const char* w) { return said.find(w) != string::npos; }
int V;
const string header(const string& version, const string& guid) { return "<?xml version=\"1.0\"?>\n<fmiModelDescription fmiVersion=\"" + version + "\" guid=\"" + guid + "\"/>\n"; }
cosim::filesystem::path unpacked(const string& version, const string& guid)
{
    auto d = scratch() / "unpacked";
    cosim::filesystem::create_directories(d);
    spit(d / "modelDescription.xml", header(version, guid));
    return d;
}
void plain_doc() { doc.kind = V == 1 ? (int)fmi1_fmu_kind_enu_cs_standalone : (int)fmi2_fmu_kind_cs; }
shared_ptr<fmi::fmu> plain_fmu(shared_ptr<fmi::importer> i)
{
    plain_doc();
    auto f = i->import_unpacked(unpacked(V == 1 ? "1.0" : "2.0", "{g}"));
    CHECK(f && f->fmi_version() == (V == 1 ? fmi::fmi_version::v1_0 : fmi::fmi_version::v2_0), "the FMU is loaded as what it says it is");
    return f;
}
void nothing_left()
{
    CHECK(lib.instances == 0, "every instance is freed");
    CHECK(lib.loaded == 0, "every library is unloaded");
    CHECK(lib.lists == 0, "every variable list is freed");
    CHECK(lib.handles == 0, "every handle is freed");
}
bool same(double a, double b) { return sym_double_bits(a) == sym_double_bits(b); }
bool fine(int s) { return s <= 1; }
template<class T> gsl::span<T> sp(vector<T>& v) { return gsl::span<T>(v.data(), v.size()); }
}

// from instantiation to release: what the slave is asked to do, in which order, and what its answers lead to
extern "C" void h_fmi_life()
{
    V = sym_choose("version", 1, 2);
    auto imp = fmi::importer::create(nullptr);
    auto f = plain_fmu(imp);
    auto s = f->instantiate_slave("one");
    handle* h = lib.last;
    CHECK(h->name == "one" && h->state == instantiated, "the instance gets its name");
    CHECK(s->fmu() == f && s->model_description().uuid == "{g}", "an instance knows its FMU");
    const auto start = time_point(duration(sym_range64("start", -(1ll << 50), 1ll << 50)));
    const auto stop = time_point(duration(sym_range64("stop", -(1ll << 50), 1ll << 50)));
    const double tolerance = sym_double("tolerance");
    const bool has_stop = sym_flag("has stop"), has_tolerance = sym_flag("has tolerance");
    lib.ask = true;
    lib.statuses.clear();
    bool started = false, stopped = false;
    int r = outcome([&] { s->setup(start, has_stop ? std::optional<time_point>(stop) : std::nullopt, has_tolerance ? std::optional<double>(tolerance) : std::nullopt); });
    auto bad = [&](size_t k, const char* what) { // the k-th call was refused
        CHECK(r == 1, "a slave that refuses is an error of the model");
        CHECK(says(what) && says(" 7"), "the error says what the slave said");
        (void)k;
    };
    bool go = true;
    if (V == 1) {
        CHECK(r == 0 && lib.statuses.empty(), "FMI 1.0 slaves are set up when they are initialised");
    } else {
        CHECK(lib.statuses.size() >= 1 && lib.statuses.size() <= 2, "the experiment is set up and initialisation entered");
        CHECK(h->has_stop == has_stop && (!has_stop || same(h->stop, to_double_time_point(stop))), "a slave gets the stop time if there is one");
        CHECK(same(h->start, to_double_time_point(start)), "a slave gets the start time");
        CHECK(h->has_tolerance == has_tolerance && (!has_tolerance || same(h->tolerance, tolerance)), "a slave gets the tolerance if there is one");
        if (!fine(lib.statuses[0])) { CHECK(lib.statuses.size() == 1, "initialisation is not entered when the setup fails"); bad(0, "setup"); go = false; }
        else {
            CHECK(lib.statuses.size() == 2, "initialisation is entered");
            if (!fine(lib.statuses[1])) { bad(1, "enter"); go = false; }
            else CHECK(r == 0, "warnings are not errors");
        }
        if (!go) sym_reach("setup failed");
    }
    if (go) {
        lib.statuses.clear();
        r = outcome([&] { s->start_simulation(); });
        CHECK(lib.statuses.size() == 1, "initialisation is ended with one call");
        if (V == 1) {
            CHECK(h->has_stop == has_stop && (!has_stop || same(h->stop, to_double_time_point(stop))), "a slave gets the stop time if there is one");
            CHECK(same(h->start, to_double_time_point(start)), "a slave gets the start time");
        }
        if (fine(lib.statuses[0])) { CHECK(r == 0, "warnings are not errors"); started = true; }
        else { bad(0, "exit"); go = false; sym_reach("start failed"); }
    }
    if (go) {
        const int steps = sym_choose("steps", 0, (int)sym_option("steps", 1));
        for (int k = 0; k < steps; ++k) {
            const auto t = time_point(duration(sym_range64("t", -(1ll << 50), 1ll << 50)));
            const auto dt = duration(sym_range64("dt", 0, 1ll << 40));
            step_result got = step_result::complete;
            lib.statuses.clear();
            r = outcome([&] { got = s->do_step(t, dt); });
            CHECK(lib.statuses.size() == 1, "a step is made with one call");
            CHECK(same(h->t, to_double_time_point(t)) && same(h->dt, to_double_duration(dt, t)), "a step goes from the time to the end of the step");
            CHECK(h->new_step, "a step is new");
            const int st = lib.statuses[0];
            if (fine(st)) CHECK(r == 0 && got == step_result::complete, "a step that is made is complete");
            else if (st == 2) { CHECK(r == 0 && got == step_result::failed, "a step that is discarded has failed"); sym_reach("discarded"); }
            else if (st == 5 && V == 2) CHECK(r == 2, "steps are not made in the background");
            else bad(0, "do_step");
            if (r) break;
        }
        if (sym_flag("end")) {
            lib.statuses.clear();
            r = outcome([&] { s->end_simulation(); });
            CHECK(lib.statuses.size() == 1 && h->terminations == 1, "the slave is terminated");
            stopped = true;
            if (fine(lib.statuses[0])) CHECK(r == 0, "warnings are not errors");
            else bad(0, "terminate");
        }
    }
    // it is all released, in whatever order
    lib.terminations = 0;
    lib.statuses.clear();
    const int order = sym_choose("order", 0, 2);
    if (order == 0) { s.reset(); f.reset(); imp.reset(); }
    else if (order == 1) { imp.reset(); f.reset(); CHECK(lib.instances == 1 && lib.contexts == 1, "an instance keeps its FMU"); s.reset(); }
    else { f.reset(); s.reset(); imp.reset(); }
    CHECK(lib.terminations == (started && !stopped ? 1 : 0), "a slave that still runs is terminated");
    nothing_left();
    CHECK(lib.contexts == 0, "the library's context is freed");
    sym_reach("end");
}

// reading and writing variables
extern "C" void h_fmi_values()
{
    V = sym_choose("version", 1, 2);
    const int max = (int)sym_option("n", 2);
    auto imp = fmi::importer::create(nullptr);
    auto f = plain_fmu(imp);
    auto s = f->instantiate_slave("one");
    handle* h = lib.last;
    s->setup(time_point(), std::nullopt, std::nullopt);
    if (sym_flag("started")) s->start_simulation();
    const int type = sym_choose("type", 0, 3), n = sym_choose("n", 0, max), m = sym_choose("values", 0, max);
    const bool set = sym_flag("set");
    vector<value_reference> refs;
    for (int i = 0; i < n; ++i) refs.push_back(sym_u32("ref"));
    gsl::span<const value_reference> rs(refs.data(), n);
    vector<double> d; vector<int> in; vector<string> st;
    bool b[8] = {};
    vector<char> nul;
    for (int i = 0; i < m; ++i) {
        d.push_back(type == 0 ? sym_double("real") : 0.0);
        in.push_back(type == 1 ? sym_i32("integer") : 0);
        b[i] = type == 2 ? sym_bool("boolean") : false;
        st.push_back(type == 3 ? sym_bytes("string", sym_choose("length", 0, 1)) : string());
        for (char c : st.back()) sym_assume(c != 0);
        nul.push_back(type == 3 && !set && sym_flag("null"));
    }
    const auto d0 = d; const auto in0 = in; const auto st0 = st; bool b0[8]; for (int i = 0; i < 8; ++i) b0[i] = b[i];
    lib.statuses.clear(); lib.ask = true;
    int r;
    if (set) {
        auto& c = *s;
        r = outcome([&] {
            if (type == 0) c.set_real_variables(rs, sp(d)); else if (type == 1) c.set_integer_variables(rs, sp(in)); else if (type == 2) c.set_boolean_variables(rs, gsl::span<const bool>(b, m)); else c.set_string_variables(rs, sp(st));
        });
    } else {
        h->reals = d; h->integers = in; h->strings = st; h->null_string = nul; h->booleans.clear();
        for (int i = 0; i < m; ++i) h->booleans.push_back(b[i] ? (V == 1 ? 1 : (sym_flag("odd truth") ? 2 : 1)) : 0);
        for (auto& x : d) x = 0; for (auto& x : in) x = 0; for (int i = 0; i < 8; ++i) b[i] = !b0[i]; for (auto& x : st) x = "old";
        r = outcome([&] {
            if (type == 0) s->get_real_variables(rs, sp(d)); else if (type == 1) s->get_integer_variables(rs, sp(in)); else if (type == 2) s->get_boolean_variables(rs, gsl::span<bool>(b, m)); else s->get_string_variables(rs, sp(st));
        });
    }
    if (n != m) {
        CHECK(r == -2 && lib.statuses.empty(), "as many values as references are asked for");
        sym_reach("refused");
        sym_end_path();
    }
    if (n == 0) {
        CHECK(r == 0 && lib.statuses.empty(), "nothing is done for no variables");
        sym_end_path();
    }
    CHECK(lib.statuses.size() == 1, "one call is made");
    const char* what[] = {"get_real", "get_integer", "get_boolean", "get_string", "set_real", "set_integer", "set_boolean", "set_string"};
    CHECK(h->what == what[(set ? 4 : 0) + type], "the call is of the variables' type");
    CHECK(h->refs.size() == (size_t)n, "all the variables are asked for");
    for (int i = 0; i < n; ++i) CHECK(h->refs[i] == refs[i], "the references are those of the variables, in order");
    const int status = lib.statuses[0];
    if (set) {
        for (int i = 0; i < n; ++i) {
            if (type == 0) CHECK(same(h->reals[i], d0[i]), "the slave gets the values, in order");
            if (type == 1) CHECK(h->integers[i] == in0[i], "the slave gets the values, in order");
            if (type == 2) CHECK(h->booleans[i] == (b0[i] ? 1 : 0), "the slave gets the values, in order");
            if (type == 3) CHECK(h->strings[i] == st0[i], "the slave gets the values, in order");
        }
        if (fine(status)) CHECK(r == 0, "warnings are not errors");
        else if (status == 2) { CHECK(r == -1 && says("set 7"), "a value that is discarded is no fatal error"); sym_reach("discarded"); }
        else CHECK(r == 1 && says("set 7"), "a slave that refuses is an error of the model");
    } else {
        if (fine(status)) {
            CHECK(r == 0, "warnings are not errors");
            for (int i = 0; i < n; ++i) {
                if (type == 0) CHECK(same(d[i], d0[i]), "the values are the slave's, in order");
                if (type == 1) CHECK(in[i] == in0[i], "the values are the slave's, in order");
                if (type == 2) CHECK(b[i] == b0[i], "the values are the slave's, in order");
                if (type == 3) CHECK(st[i] == (nul[i] ? string() : st0[i]), "the values are the slave's, in order");
            }
            sym_reach("read");
        } else CHECK(r == 1 && says("get 7"), "a slave that refuses is an error of the model");
    }
    lib.ask = false;
    s.reset(); f.reset(); imp.reset();
    nothing_left();
}

// several instances: failures at every stage, FMUs that allow one instance only, releases in between
extern "C" void h_fmi_instances()
{
    V = sym_choose("version", 1, 2);
    const int ops = (int)sym_option("ops", 4);
    auto imp = fmi::importer::create(nullptr);
    doc.once = sym_flag("once");
    auto f = plain_fmu(imp);
    shared_ptr<fmi::slave_instance> o[2];
    lib.fail_load = sym_choose("fail load", -1, 1);
    lib.fail_instantiate = sym_choose("fail instantiate", -1, 1);
    auto alive = [&] { return (o[0] ? 1 : 0) + (o[1] ? 1 : 0); };
    for (int k = 0; k < ops; ++k) {
        const int op = sym_choose("op", 0, 3);
        if (op <= 1) {
            doc.unreadable = op == 1;
            int i = o[0] ? 1 : 0;
            if (o[i]) sym_end_path();
            const bool empty = sym_flag("empty");
            const int loads = lib.loads, makes = lib.instantiations, parses = lib.parses;
            int r = outcome([&] { o[i] = f->instantiate_slave(empty ? "" : i ? "two" : "one"); });
            doc.unreadable = false;
            const int before = alive() - (o[i] ? 1 : 0);
            if (empty) CHECK(r == -2, "an instance has a name");
            else if (doc.once && before) { CHECK(r == 2, "an FMU that allows one instance gets one"); sym_reach("singleton"); }
            else if (op == 1) CHECK(r == 3 && says("unreadable"), "a model description that cannot be read is a bad file");
            else if (loads == lib.fail_load) CHECK(r == 4, "a library that cannot be loaded is told as such");
            else if (makes == lib.fail_instantiate) CHECK(r == 1 && says("instantiate 7"), "a slave that refuses is an error of the model");
            else {
                CHECK(r == 0 && o[i], "an instance is made");
                CHECK(lib.parses == parses + 1, "an instance has a handle of its own");
                CHECK(lib.last->name == (i ? "two" : "one"), "the instance gets its name");
                sym_reach("made");
            }
            if (r) CHECK(!o[i], "there is no instance after a failure");
        } else {
            int i = op - 2;
            if (!o[i]) sym_end_path();
            o[i].reset();
        }
        CHECK(lib.instances == alive() && lib.loaded == alive() && lib.handles == 1 + alive(), "there are handles, libraries and instances for those in use, and no more");
    }
    o[0].reset(); o[1].reset(); f.reset(); imp.reset();
    nothing_left();
    sym_reach("end");
}

// what the model description says
extern "C" void h_fmi_description()
{
    V = sym_choose("version", 1, 2);
    auto imp = fmi::importer::create(nullptr);
    doc.kind = sym_choose("kind", 0, 3);
    doc.unreadable = sym_flag("unreadable");
    doc.name = sym_bytes("name", 1); sym_assume(doc.name[0] != 0);
    doc.guid = "{guid}"; doc.description = "desc"; doc.author = "auth"; doc.version = "ver";
    const bool cs = V == 1 ? doc.kind == 1 || doc.kind == 2 : doc.kind >= 2;
    const int n = cs && !doc.unreadable ? sym_choose("variables", 0, 2) : 0;
    for (int i = 0; i < n; ++i) {
        a_variable v;
        v.name = sym_bytes("variable", 1); sym_assume(v.name[0] != 0);
        v.vr = sym_u32("reference");
        const bool full = i == n - 1;
        v.type = full ? sym_choose("type", 0, 4) : sym_flag("enumeration") ? 4 : 0;
        v.causality = full ? sym_choose("causality", 0, V == 1 ? 3 : 5) : 1;
        v.variability = full ? sym_choose("variability", 0, V == 1 ? 3 : 4) : 2;
        v.has_start = full && sym_flag("start");
        if (v.has_start) {
            v.real = sym_double("real"); v.integer = sym_i32("integer"); v.boolean = sym_choose("boolean", 0, V == 1 ? 1 : 2);
            v.string = v.type == 3 ? sym_bytes("string", sym_choose("length", 0, 1)) : string();
            for (char c : v.string) sym_assume(c != 0);
        }
        doc.variables.push_back(v);
    }
    shared_ptr<fmi::fmu> f;
    auto dir = unpacked(V == 1 ? "1.0" : "2.0", "{guid}");
    int r = outcome([&] { f = imp->import_unpacked(dir); });
    if (doc.unreadable) {
        CHECK(r == 3 && says("unreadable"), "a model description that cannot be read is a bad file");
        nothing_left();
        sym_reach("bad file"); sym_end_path();
    }
    if (!cs) {
        CHECK(r == 2, "only co-simulation is supported");
        nothing_left();
        sym_reach("unsupported"); sym_end_path();
    }
    CHECK(r == 0 && f && lib.dir == dir.string(), "the FMU is loaded from its directory");
    auto md = f->model_description();
    CHECK(md->name == doc.name && md->uuid == "{guid}" && md->description == "desc" && md->author == "auth" && md->version == "ver", "the description is the FMU's");
    size_t k = 0;
    for (auto& v : doc.variables) {
        if (v.type == 4) continue;
        CHECK(k < md->variables.size(), "every variable that is no enumeration is there");
        auto& d = md->variables[k++];
        const variable_type types[] = {variable_type::real, variable_type::integer, variable_type::boolean, variable_type::string};
        CHECK(d.name == v.name && d.reference == v.vr && d.type == types[v.type], "a variable has its name, reference and type");
        if (V == 1) {
            const auto c = v.causality == 0 ? (v.variability == 1 ? variable_causality::parameter : variable_causality::input) : v.causality == 1 ? variable_causality::output : variable_causality::local;
            CHECK(d.causality == c, "a variable has its causality");
            const variable_variability vs[] = {variable_variability::constant, variable_variability::fixed, variable_variability::discrete, variable_variability::continuous};
            CHECK(d.variability == vs[v.variability], "a variable has its variability");
        } else {
            const variable_causality cs_[] = {variable_causality::parameter, variable_causality::calculated_parameter, variable_causality::input, variable_causality::output, variable_causality::local, variable_causality::local};
            CHECK(d.causality == cs_[v.causality], "a variable has its causality");
            const variable_variability vs[] = {variable_variability::constant, variable_variability::fixed, variable_variability::tunable, variable_variability::discrete, variable_variability::continuous};
            CHECK(d.variability == vs[v.variability], "a variable has its variability");
        }
        CHECK(d.start.has_value() == v.has_start, "a variable has a start value if the FMU gives one");
        if (!v.has_start) continue;
        if (v.type == 0) CHECK(std::holds_alternative<double>(*d.start) && same(std::get<double>(*d.start), v.real), "the start value is the FMU's");
        if (v.type == 1) CHECK(std::holds_alternative<int>(*d.start) && std::get<int>(*d.start) == v.integer, "the start value is the FMU's");
        if (v.type == 2) CHECK(std::holds_alternative<bool>(*d.start) && std::get<bool>(*d.start) == (v.boolean != 0), "the start value is the FMU's");
        if (v.type == 3) CHECK(std::holds_alternative<string>(*d.start) && std::get<string>(*d.start) == v.string, "the start value is the FMU's");
    }
    CHECK(k == md->variables.size(), "there are no other variables");
    // the description lives as long as someone uses it
    f.reset(); imp.reset();
    CHECK(md->uuid == "{guid}" && lib.contexts == 1, "a description keeps its FMU");
    md.reset();
    nothing_left();
    CHECK(lib.contexts == 0, "the library's context is freed");
    sym_reach("described");
}

namespace
{
// a cache below the scratch directory that watches over the access to its subdirectories
struct watched_cache : file_cache
{
    cosim::filesystem::path root;
    std::map<string, int> rw, ro;
    struct rw_dir : directory_rw { watched_cache& c; string k; rw_dir(watched_cache& c, string k) : c(c), k(k) { } ~rw_dir() { --c.rw[k]; } cosim::filesystem::path path() const override { return c.root / k; } };
    struct ro_dir : directory_ro { watched_cache& c; string k; ro_dir(watched_cache& c, string k) : c(c), k(k) { } ~ro_dir() { --c.ro[k]; } cosim::filesystem::path path() const override { return c.root / k; } };
    std::unique_ptr<directory_rw> get_directory_rw(std::string_view key) override
    {
        string k(key);
        CHECK(rw[k] == 0 && ro[k] == 0, "write access is not asked for while the directory is in use");
        cosim::filesystem::create_directories(root / k);
        ++rw[k];
        return std::make_unique<rw_dir>(*this, k);
    }
    std::unique_ptr<directory_ro> get_directory_ro(std::string_view key) override
    {
        string k(key);
        CHECK(rw[k] == 0, "read access is not asked for while the directory is written");
        cosim::filesystem::create_directories(root / k);
        ++ro[k];
        return std::make_unique<ro_dir>(*this, k);
    }
    bool idle() const { for (auto& x : rw) if (x.second) return false; for (auto& x : ro) if (x.second) return false; return true; }
};
shared_ptr<watched_cache> the_cache;
void copy_tree(const cosim::filesystem::path& a, const cosim::filesystem::path& b)
{
    cosim::filesystem::create_directories(b);
    for (auto& n : listing(a)) {
        if (n.back() == '/') { cosim::filesystem::create_directories(b / n.substr(0, n.size() - 1)); continue; }
        cosim::filesystem::create_directories((b / n).parent_path());
        spit(b / n, slurp(a / n));
        cosim::filesystem::last_write_time(b / n, cosim::filesystem::last_write_time(a / n));
    }
}
int crash_at = -1;
cosim::filesystem::path after_crash;
void temp_in_scratch()
{
#ifndef SYM_ENGINE
    ::setenv("TMPDIR", (scratch() / "temp").c_str(), 1);
    cosim::filesystem::create_directories(scratch() / "temp");
#endif
}
}

// imports of two FMU files, one after the other, again, after they changed, failed, or were interrupted
extern "C" void h_fmu_import()
{
    const int ops = (int)sym_option("ops", 3);
    temp_in_scratch();
    const auto d = scratch();
    V = sym_flag("version 1") ? 1 : 2;
    plain_doc();
    the_cache = std::make_shared<watched_cache>();
    the_cache->root = d / "cache";
    auto imp = fmi::importer::create(the_cache);
    const bool same_guid = sym_flag("same"), first = sym_flag("description first");
    const string guid[2] = {"{g0}", same_guid ? "{g0}" : "g1"}, key[2] = {"g0", same_guid ? "g0" : "g1"};
    const cosim::filesystem::path file[2] = {d / "a.fmu", d / "b.fmu"};
    int gen[2] = {0, 0}; // contents, by guid
    int id[2] = {0, same_guid ? 0 : 1};
    for (auto& f : file) spit(f, "archive");
    const auto base = cosim::filesystem::last_write_time(file[0]);
    int clock = 0;
    auto stamp = [&](const cosim::filesystem::path& p) { cosim::filesystem::last_write_time(p, base - std::chrono::hours(1000) + std::chrono::hours(clock)); };
    for (auto& f : file) stamp(f);
    shared_ptr<fmi::fmu> held[2]; // by guid
    auto data = [&](int i) { return string("data ") + char('0' + gen[id[i]]); };
    auto archive = [&](int i) {
        entries.clear();
        entries.push_back({"resources/", ""});
        entries.push_back({"resources/data", data(i)});
        entries.insert(first ? entries.begin() : entries.end(), {"modelDescription.xml", header(V == 1 ? "1.0" : "2.0", guid[i])});
        reads = 0; fail_read = -1; crash_at = -1; on_read = nullptr;
    };
    auto complete = [&](int i) {
        auto c = the_cache->root / key[i];
        CHECK(lib.dir == c.string(), "the FMU is unpacked in the cache directory of its identifier");
        CHECK(slurp(c / "modelDescription.xml") == header(V == 1 ? "1.0" : "2.0", guid[i]) && slurp(c / "resources" / "data") == data(i), "an imported FMU is there completely, as it is in the file now");
        ++clock;
        for (auto& n : listing(c)) if (n.back() != '/') stamp(c / n);
    };
    for (int k = 0; k < ops; ++k) {
        const int op = sym_choose("op", 0, 6);
        if (op <= 1) { // import
            const int i = op;
            archive(i);
            shared_ptr<fmi::fmu> f;
            int r = outcome([&] { f = imp->import(file[i]); });
            CHECK(r == 0 && f, "an FMU is imported");
            if (held[id[i]]) { CHECK(f == held[id[i]], "an FMU that is in use is not loaded again"); sym_reach("shared"); }
            else { complete(i); held[id[i]] = f; sym_reach("imported"); }
            CHECK(the_cache->rw[key[i]] == 0 && the_cache->ro[key[i]] == 1, "the directory of an FMU in use is locked for reading");
            CHECK(f->fmi_version() == (V == 1 ? fmi::fmi_version::v1_0 : fmi::fmi_version::v2_0) && f->importer() == imp, "the FMU is of the version it says");
        } else if (op == 2) { // nothing is in use any more
            if (!held[0] && !held[1]) sym_end_path();
            held[0].reset(); held[1].reset();
            CHECK(lib.handles == 0 && the_cache->idle(), "FMUs that are not in use are not kept");
        } else if (op == 3) { // a new version of the first file
            if (held[0] || gen[0] == 3) sym_end_path();
            ++gen[0]; ++clock;
            stamp(file[0]);
            if (same_guid) stamp(file[1]);
        } else if (op == 4) { // another program run
            held[0].reset(); held[1].reset();
            imp = fmi::importer::create(the_cache);
        } else { // a failure, or the end of the program, while the archive is read
            if (held[0]) sym_end_path();
            archive(0);
            const int at = sym_choose("at", 0, 4);
            if (op == 5) {
                fail_read = at;
                shared_ptr<fmi::fmu> f;
                int r = outcome([&] { f = imp->import(file[0]); });
                if (r == 0) { complete(0); held[0] = f; }
                else {
                    CHECK(!f && (held[1] || lib.handles == 0), "there is no FMU after a failure");
                    CHECK(the_cache->rw["g0"] == 0 && the_cache->ro["g0"] == 0, "no directory stays locked after a failure");
                    sym_reach("failed");
                }
            } else {
                crash_at = at; after_crash = d / ("crash" + string(1, char('0' + k)));
                on_read = [] { if (reads == crash_at) { copy_tree(the_cache->root, after_crash); crash_at = -2; } };
                cosim::filesystem::create_directories(the_cache->root);
                int r = outcome([&] { imp->import(file[0]); });
                on_read = nullptr;
                if (crash_at != -2) sym_end_path();
                CHECK(r == 0, "an FMU is imported");
                held[0].reset(); held[1].reset(); imp.reset();
                the_cache = std::make_shared<watched_cache>();
                the_cache->root = after_crash;
                imp = fmi::importer::create(the_cache);
                sym_reach("interrupted");
            }
        }
    }
    for (auto& h : held) h.reset();
    CHECK(the_cache->idle(), "directories of FMUs that are not in use are free");
    nothing_left();
    imp.reset();
    CHECK(lib.contexts == 0, "the library's context is freed");
    sym_reach("end");
}

// the few things the importer reads from a model description
extern "C" void h_fmu_header()
{
    temp_in_scratch();
    const auto d = scratch();
    the_cache = std::make_shared<watched_cache>();
    the_cache->root = d / "cache";
    auto imp = fmi::importer::create(the_cache);
    const bool zipped = sym_flag("zipped");
    const char* versions[] = {"", "  ", "1.0", " 2.0\n", "2.0.1", "3.0", "2", "1"};
    const char* guids[] = {"", " \t", "g", " {g-1} ", "{x}{y}"};
    const char* trimmed[] = {"", "", "g", "g-1", "xy"};
    const int v = sym_choose("version", -1, 7), g = sym_choose("guid", -1, 4), form = sym_choose("form", 0, 3);
    V = v == 2 ? 1 : 2;
    plain_doc();
    string attrs;
    if (v >= 0) attrs += string(" fmiVersion=\"") + versions[v] + "\"";
    if (g >= 0) attrs += string(" guid='") + guids[g] + "'";
    string text = "<fmiModelDescription" + attrs + " modelName=\"m\"></fmiModelDescription>";
    if (form == 1) text = "<other" + attrs + "/>";
    if (form == 2) text = "<fmiModelDescription" + attrs + ">";
    shared_ptr<fmi::fmu> f;
    int r;
    if (zipped) {
        entries.push_back({"a", "x"});
        if (form < 3) entries.push_back({"modelDescription.xml", text});
        spit(d / "a.fmu", "archive");
        r = outcome([&] { f = imp->import(d / "a.fmu"); });
    } else {
        cosim::filesystem::create_directories(d / "u");
        if (form < 3) spit(d / "u" / "modelDescription.xml", text);
        r = outcome([&] { f = imp->import_unpacked(d / "u"); });
    }
    const bool known = v == 2 || v == 3 || v == 4;
    if (form >= 2) {
        CHECK(r != 0, "what is no model description is rejected");
        if (form == 3 && zipped) CHECK(r == 3, "an archive without model description is a bad file");
    } else if (form == 1 || v < 2) CHECK(r == 3, "a model description without version is a bad file");
    else if (!known) { CHECK(r == 2, "other versions are not supported"); sym_reach("unsupported"); }
    else if (g < 2) { CHECK(r == 3, "a model description without identifier is a bad file"); sym_reach("bad file"); }
    else {
        CHECK(r == 0 && f && f->fmi_version() == (V == 1 ? fmi::fmi_version::v1_0 : fmi::fmi_version::v2_0), "the version is that of the model description");
        CHECK(lib.dir == (zipped ? d / "cache" / trimmed[g] : d / "u").string(), "the FMU is found where it is unpacked");
        if (zipped) CHECK(the_cache->ro[trimmed[g]] == 1, "the directory is locked");
        // the same FMU is not loaded again, whatever its path
        shared_ptr<fmi::fmu> f2;
        if (zipped) { spit(d / "b.fmu", "archive"); f2 = imp->import(d / "b.fmu"); }
        else {
            cosim::filesystem::create_directories(d / "v"); spit(d / "v" / "modelDescription.xml", text);
            f2 = imp->import_unpacked(d / "v");
        }
        CHECK(f2 == f, "an FMU that is in use is not loaded again");
        sym_reach("loaded");
    }
    if (r) { CHECK(!f && the_cache->idle(), "there is no FMU after a failure"); CHECK(!cosim::filesystem::exists(d / "cache"), "nothing is unpacked for what is rejected"); }
    f.reset();
}
