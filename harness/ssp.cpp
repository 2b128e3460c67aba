// C32: SSP configurations
#include "docs.hpp"
#include "fakezip.hpp"
#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/ssp/ssp_loader.hpp>
using namespace cosim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
namespace
{
const string head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ssd:SystemStructureDescription name=\"s\" version=\"1.0\" xmlns:ssd=\"http://ssp-standard.org/SSP1/SystemStructureDescription\" xmlns:ssc=\"http://ssp-standard.org/SSP1/SystemStructureCommon\" xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\" xmlns:osp=\"http://opensimulationplatform.com/SSP/OSPAnnotations\">\n";
const string tail = "</ssd:SystemStructureDescription>\n";
const string osp_annotation = "<ssc:Annotation type=\"com.opensimulationplatform\">";
// M: a real output and input, integer ones, parameters;  N: the same names in another order, with other references
shared_ptr<a_model> model_m()
{
    auto m = make_shared<a_model>("1");
    m->add("o", 1, variable_type::real, output); m->add("i", 2, variable_type::real, input); m->add("q", 3, variable_type::integer, output); m->add("j", 4, variable_type::integer, input);
    m->add("p", 5, variable_type::real, parameter, tunable); m->add("b", 1, variable_type::boolean, parameter, tunable); m->add("s", 1, variable_type::string, parameter, tunable); m->add("l", 9, variable_type::real, local); m->add("c", 8, variable_type::real, parameter, constant);
    return m;
}
shared_ptr<a_resolver> resolver()
{
    auto r = make_shared<a_resolver>();
    r->models = {{"m.fmu", model_m()}, {"n.fmu", model_m()}};
    r->models[1].second->d->uuid = "2";
    return r;
}
string connector(const string& name, const string& kind, const string& type) { return "<ssd:Connector" + q("name", name) + q("kind", kind) + "><ssc:" + type + "/></ssd:Connector>"; }
const string connectors = "<ssd:Connectors>" + connector("o", "output", "Real") + connector("i", "input", "Real") + connector("q", "output", "Integer") + connector("j", "input", "Integer") + connector("ghost", "output", "Real") + "</ssd:Connectors>";
string element(const string& name, const string& source, const string& content) { return "<ssd:Component" + q("name", name) + q("source", source) + ">" + content + "</ssd:Component>\n"; }
string system(const string& elements, const string& rest) { return "<ssd:System name=\"y\"><ssd:Elements>\n" + elements + "</ssd:Elements>\n" + rest + "</ssd:System>\n"; }
struct loaded { bool ok = false; ssp_configuration c; };
loaded load(shared_ptr<a_resolver> r, const cosim::filesystem::path& p, const char* name = nullptr)
{
    auto mr = make_shared<model_uri_resolver>();
    mr->add_sub_resolver(r);
    ssp_loader l;
    l.set_model_uri_resolver(mr);
    if (name) l.set_ssd_file_name(name);
    loaded x;
    try { x.c = l.load(p); x.ok = true; } catch (const std::exception&) { }
    return x;
}
bool is_model(const system_structure& s, const string& name, shared_ptr<a_model> m, duration hint)
{
    auto e = find_entity(s, name);
    return e && entity_type_to<model>(e->type) == m && e->step_size_hint == hint;
}
}
// components and connections
extern "C" void h_ssp_structure()
{
    auto dir = scratch();
    auto r = resolver(); r->directory = dir.string();
    int n = sym_choose("components", 1, 2), k = sym_choose("connections", 0, (int)sym_option("connections", 2));
    string names[2] = {"a", "b &amp; c"}, real[2] = {"a", "b & c"};
    bool other = k < 2 && sym_flag("other"), twice = n == 2 && k == 0 && sym_flag("same name");
    if (twice) { names[1] = names[0]; real[1] = real[0]; }
    bool missing = k == 0 && sym_flag("no model"), negative = false;
    double hint = 0; bool has_hint = k == 0 && sym_flag("hint");
    if (has_hint) { hint = sym_seconds("hint"); negative = to_duration(hint) < duration::zero(); }
    string elements;
    for (int i = 0; i < n; ++i) {
        string more;
        if (i == 0 && has_hint) more = "<ssd:Annotations><ssc:Annotation type=\"other\"><osp:StepSizeHint value=\"7\"/></ssc:Annotation>" + osp_annotation + "<osp:StepSizeHint" + q("value", num(hint)) + "/></ssc:Annotation></ssd:Annotations>";
        elements += element(names[i], i && other ? "n.fmu" : i && missing ? "none.fmu" : "m.fmu", connectors + more);
    }
    // connections
    struct end { const char* c; bool declared, exists; variable_type t; bool out, in; };
    const end ends[] = {{"o", true, true, variable_type::real, true, false}, {"i", true, true, variable_type::real, false, true}, {"q", true, true, variable_type::integer, true, false}, {"j", true, true, variable_type::integer, false, true}, {"ghost", true, false, variable_type::real, false, false}, {"p", false, true, variable_type::real, false, false}};
    bool bad = twice || (missing && n == 2 && !other) || negative;
    bool few = k == 2 && !sym_option("full", 0);
    string cs; links want; struct lin { double f, o; fvn from, to; }; vector<lin> lins; vector<fvn> taken;
    for (int i = 0; i < k; ++i) {
        int se = sym_choose("start element", 0, n), sc = sym_choose("start", 0, i ? 1 : few ? 2 : 5), ee = i ? sym_choose("end element", 0, n - 1) : n - 1, ec = sym_choose("end", 0, i ? 1 : few ? 3 : 5);
        if (i && sc) sc = 2; // o, q
        if (i && ec) ec = 3; else if (i) ec = 1; // i, j
        bool lt = sym_flag("linear"), hf = lt && (i || few || sym_flag("factor")), ho = lt && (i || few || sym_flag("offset"));
        double f = hf ? sym_finite("factor") : 1.0, o = ho ? sym_finite("offset") : 0.0;
        cs += "<ssd:Connection" + q("startElement", se == n ? "z" : names[se]) + q("startConnector", ends[sc].c) + q("endElement", names[ee]) + q("endConnector", ends[ec].c) + (lt ? "><ssc:LinearTransformation" + (hf ? q("factor", num(f)) : "") + (ho ? q("offset", num(o)) : "") + "/></ssd:Connection>" : "/>") + "\n";
        if (se == n || !ends[sc].declared || !ends[ec].declared || !ends[sc].exists || !ends[ec].exists || !ends[sc].out || !ends[ec].in) { bad = true; continue; }
        if (lt ? ends[sc].t != variable_type::real || ends[ec].t != variable_type::real : ends[sc].t != ends[ec].t) { bad = true; continue; }
        fvn from(real[se], ends[sc].c), to(real[ee], ends[ec].c);
        for (auto& t : taken) if (same(t, to)) bad = true;
        taken.push_back(to);
        if (lt) lins.push_back({f, o, from, to}); else want.push_back({from, to});
    }
    spit(dir / "SystemStructure.ssd", head + system(elements, k || sym_flag("no connections") ? "<ssd:Connections>" + cs + "</ssd:Connections>" : "") + tail);
    auto x = load(r, dir);
    CHECK(x.ok == !bad, "a configuration is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    auto& s = x.c.system_structure;
    CHECK(entity_count(s) == n + lins.size(), "the entities are the components and the transformations");
    for (int i = 0; i < n; ++i) CHECK(is_model(s, real[i], r->models[i && other].second, to_duration(i == 0 ? hint : 0)), "a component is its model with its step size hint");
    CHECK(r->asked.size() == (size_t)n, "each component's model is looked up");
    // each transformation is a function of its own between its variables
    vector<string> used;
    for (auto& l : lins) {
        bool found = false;
        for (const auto c : s.connections()) {
            if (!same(c.target, l.to)) continue;
            auto e = find_entity(s, c.source.entity_name);
            if (!e || entity_type_to<model>(e->type) || std::count(used.begin(), used.end(), e->name)) continue;
            auto d = entity_type_to<function_type>(e->type)->description();
            CHECK(std::dynamic_pointer_cast<linear_transformation_function_type>(entity_type_to<function_type>(e->type)) != nullptr, "a linear transformation is a linear transformation");
            auto p = e->parameter_values;
            CHECK(sym_double_bits(std::get<double>(p.at(linear_transformation_function_type::factor_parameter_index))) == sym_double_bits(l.f) && sym_double_bits(std::get<double>(p.at(linear_transformation_function_type::offset_parameter_index))) == sym_double_bits(l.o), "a transformation has its factor and offset");
            used.push_back(e->name); want.push_back({l.from, fvn(e->name, "in", "")}); want.push_back({fvn(e->name, "out", ""), l.to});
            found = true; break;
        }
        CHECK(found, "a transformed connection ends at its target");
    }
    CHECK(has_connections(s, want), "the connections are those of the file");
    CHECK(x.c.parameter_sets.size() == 1 && x.c.parameter_sets.at("").empty(), "there is an empty default parameter set");
    sym_reach(lins.empty() ? "loaded" : "transformed");
}
// default experiment and where the file is
extern "C" void h_ssp_settings()
{
    auto dir = scratch();
    auto r = resolver(); r->directory = dir.string();
    bool exp = sym_flag("experiment"), has_start = exp && sym_flag("start"), has_stop = exp && sym_flag("stop");
    int ann = exp ? sym_choose("annotation", 0, 4) : 0; // none, other, ours, ours with another algorithm, ours without an algorithm
    bool threads = ann == 2 && sym_flag("threads"), too_small = false;
    double start = has_start ? sym_seconds("start") : 0, step = 0;
    if (ann == 2) { step = sym_seconds("step"); too_small = to_duration(step) <= duration::zero(); }
    string e;
    if (exp) {
        e = "<ssd:DefaultExperiment" + (has_start ? q("startTime", num(start)) : "") + (has_stop ? q("stopTime", num(9.5)) : "");
        string algo = "<osp:Algorithm><osp:FixedStepAlgorithm" + q("baseStepSize", num(step)) + (threads ? q("numWorkerThreads", "0") : "") + "/></osp:Algorithm>";
        if (ann) e += "><ssd:Annotations>" + (ann == 1 ? "<ssc:Annotation type=\"com.else\">" + algo : osp_annotation + (ann == 2 ? algo : ann == 3 ? "<osp:Algorithm><osp:OtherAlgorithm/></osp:Algorithm>" : "")) + "</ssc:Annotation></ssd:Annotations></ssd:DefaultExperiment>\n";
        else e += "/>\n";
    }
    string text = head + (sym_flag("comment") ? "<!-- <ssd:System> -->" : "") + system(element("a", "m.fmu", ""), "") + e + tail;
    int where = sym_choose("where", 0, 4); // directory, file, file of another name, directory with another name, nothing
    if (where != 4) spit(dir / (where == 2 ? "other.xml" : where == 3 ? "Other.ssd" : "SystemStructure.ssd"), text);
    auto x = load(r, where == 1 ? dir / "SystemStructure.ssd" : where == 2 ? dir / "other.xml" : dir, where == 3 ? "Other" : nullptr);
    CHECK(x.ok == !(where == 4 || ann == 3 || ann == 4 || too_small), "a configuration is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(x.c.start_time == to_time_point(start), "the start time is the file's, or zero");
    CHECK((x.c.algorithm != nullptr) == (ann == 2), "there is an algorithm exactly if the file has one");
    CHECK(is_model(x.c.system_structure, "a", r->models[0].second, duration::zero()), "the component is there");
    if (ann == 2) {
        execution ex(x.c.start_time, x.c.algorithm);
        auto s = make_shared<fake_slave>();
        ex.add_slave(s, "a");
        ex.step();
        CHECK(ex.current_time() == x.c.start_time + to_duration(step), "the algorithm has the file's step size");
        sym_reach("algorithm");
    }
    sym_reach("loaded");
}
// parameter sets
extern "C" void h_ssp_parameters()
{
    auto dir = scratch();
    auto r = resolver(); r->directory = dir.string();
    int n = sym_choose("components", 1, 2), most = (int)sym_option("parameters", 2);
    vector<init> defaults; struct set { string name; vector<init> v; }; vector<set> sets;
    string elements; bool missing = false;
    for (int i = 0; i < n; ++i) {
        string comp = i ? "b" : "a", bindings;
        int m = sym_choose("sets", 0, i ? 1 : 2);
        for (int j = 0; j < m; ++j) {
            static const char* set_names[] = {"one", "two"};
            string name = set_names[sym_choose("set", 0, 1)], ps;
            set* known = nullptr; for (auto& s : sets) if (s.name == name) known = &s;
            if (!known) { sets.push_back({name, {}}); known = &sets.back(); }
            int count = i || j ? 1 : sym_choose("parameters", 0, most);
            for (int k = 0; k < count; ++k) {
                // real input, parameter of each type; a wrong type, an output, a constant, an unknown variable are ignored
                static const char* vars[] = {"i", "p", "j", "b", "s", "p", "o", "c", "nothing"};
                int v = i || j ? (sym_flag("good") ? 1 : 6) : k ? sym_choose("which", 0, 2) : sym_choose("which", 0, 8);
                string x; scalar_value val;
                if (v == 2 || v == 5) { int y = sym_i32("value"); x = "<ssv:Integer" + q("value", num(y)) + "/>"; val = y; }
                else if (v == 3) { int y = sym_choose("value", 0, k ? 1 : 3); static const char* words[] = {"false", "true", "0", "1"}; x = "<ssv:Boolean" + q("value", words[y]) + "/>"; val = (y & 1) != 0; }
                else if (v == 4) { x = "<ssv:String value=\"&lt;x y\"/>"; val = string("<x y"); }
                else { double y = sym_finite("value"); x = "<ssv:Real" + q("value", num(y)) + "/>"; val = y; }
                ps += "<ssv:Parameter" + q("name", vars[v]) + ">" + x + "</ssv:Parameter>";
                if (v < 5) { known->v.push_back({fvn(comp, vars[v]), val}); if (j == 0) defaults.push_back(known->v.back()); }
            }
            string body = "<ssv:ParameterSet version=\"1.0\"" + q("name", name) + "><ssv:Parameters>" + ps + "</ssv:Parameters></ssv:ParameterSet>";
            int how = i ? 0 : sym_choose("how", 0, j ? 1 : 2);
            string file = "p" + std::to_string(j) + ".ssv";
            if (how == 0) bindings += "<ssd:ParameterBinding><ssd:ParameterValues>" + body + "</ssd:ParameterValues></ssd:ParameterBinding>";
            else { bindings += "<ssd:ParameterBinding" + q("source", file) + "/>"; if (how == 1) spit(dir / file, body); else missing = true; }
        }
        elements += element(comp, "m.fmu", "<ssd:ParameterBindings>" + bindings + "</ssd:ParameterBindings>");
    }
    spit(dir / "SystemStructure.ssd", head + system(elements, "") + tail);
    auto x = load(r, dir);
    CHECK(x.ok == !missing, "a configuration is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(x.c.parameter_sets.size() == sets.size() + 1, "there is a parameter set for each name, and the default one");
    for (auto& s : sets) { CHECK(x.c.parameter_sets.count(s.name) == 1, "a parameter set has its name"); CHECK(has_values(x.c.parameter_sets.at(s.name), s.v), "a parameter set has the values of all sets of that name"); }
    CHECK(has_values(x.c.parameter_sets.at(""), defaults), "the default values are those of each component's first set");
    sym_reach("loaded");
}
// documents that lack something, or end early
static int length(size_t n) { int block = sym_choose("block", 0, (int)(n - 1) / 40), l = block * 40 + sym_choose("rest", 0, 39); sym_assume(l < (int)n); return l; }
extern "C" void h_ssp_malformed()
{
    auto dir = scratch();
    auto r = resolver(); r->directory = dir.string();
    pieces need;
    auto text = [&] {
        string c = "<ssd:Component" + need(0, q("name", "a")) + need(1, q("source", "m.fmu")) + "><ssd:Connectors><ssd:Connector" + need(2, q("name", "o")) + need(3, q("kind", "output")) + ">" + need(4, "<ssc:Real/>") + "</ssd:Connector>" + connector("i", "input", "Real") + "</ssd:Connectors>";
        c += "<ssd:ParameterBindings><ssd:ParameterBinding><ssd:ParameterValues>" + need(5, string("<ssv:ParameterSet") + need(6, q("name", "p")) + ">" + need(7, "<ssv:Parameters><ssv:Parameter" + need(8, q("name", "p")) + ">" + need(9, "<ssv:Real" + need(10, q("value", "1.5")) + "/>") + "</ssv:Parameter></ssv:Parameters>") + "</ssv:ParameterSet>") + "</ssd:ParameterValues></ssd:ParameterBinding></ssd:ParameterBindings>";
        c += "<ssd:Annotations><ssc:Annotation" + need(11, q("type", "com.opensimulationplatform")) + "><osp:StepSizeHint" + need(12, q("value", "0.5")) + "/></ssc:Annotation></ssd:Annotations></ssd:Component>";
        string k = "<ssd:Connection" + need(13, q("startElement", "a")) + need(14, q("startConnector", "o")) + need(15, q("endElement", "a")) + need(16, q("endConnector", "i")) + "/>";
        string a = "<ssd:DefaultExperiment startTime=\"0\"><ssd:Annotations><ssc:Annotation" + need(17, q("type", "com.opensimulationplatform")) + ">" + need(18, "<osp:Algorithm><osp:FixedStepAlgorithm" + need(19, q("baseStepSize", "0.1")) + " numWorkerThreads=\"0\"/></osp:Algorithm>") + "</ssc:Annotation></ssd:Annotations></ssd:DefaultExperiment>";
        return "<ssd:SystemStructureDescription" + need(20, q("name", "s")) + need(21, q("version", "1.0")) + ">" + need(22, "<ssd:System" + need(23, q("name", "y")) + ">" + need(24, "<ssd:Elements>" + c + "</ssd:Elements>") + "<ssd:Connections>" + k + "</ssd:Connections></ssd:System>") + a + "</ssd:SystemStructureDescription>";
    };
    string whole = text();
    int kind = sym_choose("kind", 0, 4);
    string t = whole;
    if (kind == 1) { need.drop = sym_choose("missing", 0, 24); t = text(); }
    if (kind == 2) t = whole.substr(0, (size_t)length(whole.size()));
    static const char* numbers[] = {"x", "", "1x", "1.5.2", "0x"};
    if (kind == 3) { string v = numbers[sym_choose("number", 0, 4)]; static const char* at[] = {"value=\"1.5\"", "value=\"0.5\"", "baseStepSize=\"0.1\"", "startTime=\"0\""}; string a = at[sym_choose("at", 0, 3)]; t.replace(t.find(a), a.size(), a.substr(0, a.find('"') + 1) + v + "\""); }
    if (kind == 4) { static const char* types[] = {"<ssc:Enumeration/>", "<ssc:Binary/>", "<ssc:Complex/>"}; t.replace(t.find("<ssc:Real/>"), 11, types[sym_choose("type", 0, 2)]); }
    spit(dir / "SystemStructure.ssd", t);
    auto x = load(r, dir);
    CHECK(x.ok == (kind == 0), "incomplete and unreadable documents are rejected");
    sym_reach(x.ok ? "loaded" : "rejected");
}
// .ssp archives
extern "C" void h_ssp_archive()
{
    auto dir = scratch();
#ifdef SYM_ENGINE
    cosim::filesystem::path temp = "/tmp";
#else
    auto temp = dir / "tmp";
    cosim::filesystem::create_directories(temp);
    setenv("TMPDIR", temp.string().c_str(), 1);
#endif
    auto r = resolver();
    int fault = sym_choose("fault", 0, 5); // none, no archive, no description, read failure, bad name, unknown model
    missing = fault == 1;
    string ssd = head + system(element("a", fault == 5 ? "resources/none.fmu" : "resources/m.fmu", "<ssd:ParameterBindings><ssd:ParameterBinding source=\"resources/p.ssv\"/></ssd:ParameterBindings>"), "") + tail;
    double v = sym_finite("value");
    string ssv = "<ssv:ParameterSet name=\"s\"><ssv:Parameters><ssv:Parameter name=\"p\"><ssv:Real" + q("value", num(v)) + "/></ssv:Parameter></ssv:Parameters></ssv:ParameterSet>";
    bool named = sym_flag("named");
    if (fault != 2) entries.push_back({named ? "Other.ssd" : "SystemStructure.ssd", ssd});
    entries.push_back({"resources/p.ssv", ssv}); entries.push_back({"resources/m.fmu", "FMU"});
    if (fault == 4) entries.push_back({"../x", "x"});
    if (fault == 3) fail_read = sym_choose("fails", 0, 5);
    bool there = false;
    r->on_lookup = [&] { auto p = file_uri_to_path(uri(r->asked.back())); there = slurp(p) == "FMU" && p.string().compare(0, temp.string().size(), temp.string()) == 0; };
    auto x = load(r, dir / "a.ssp", named ? "Other" : nullptr);
    CHECK(x.ok == !(fault && !(fault == 3 && fail_read >= reads)), "an archive is loaded exactly when it is valid");
    CHECK(discarded == (fault == 1 ? 0 : 1) && opened == closed, "the archive is closed");
    CHECK(listing(temp).empty(), "no files are left behind");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(there, "the models of the archive are there when they are looked up");
    CHECK(has_values(x.c.parameter_sets.at(""), {{fvn("a", "p"), v}}) && has_values(x.c.parameter_sets.at("s"), {{fvn("a", "p"), v}}), "parameter files of the archive are read");
    CHECK(is_model(x.c.system_structure, "a", r->models[0].second, duration::zero()) && entity_count(x.c.system_structure) == 1, "the component is there");
    sym_reach("loaded");
}
