// C31: OSP system structure files
#include "docs.hpp"
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/osp_config_parser.hpp>
using namespace cosim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
namespace
{
const string ns_attr = q("xmlns", "http://opensimulationplatform.com/MSMI/OSPSystemStructure");
string document(const string& content) { return "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<OspSystemStructure" + ns_attr + " version=\"0.1\">\n" + content + "</OspSystemStructure>\n"; }
string sim_xml(const string& name, const string& source, const string& more = "", const string& content = "") { return "<Simulator" + q("name", name) + q("source", source) + more + ">" + content + "</Simulator>\n"; }
string sim_list(const string& s) { return "<Simulators>\n" + s + "</Simulators>\n"; }
string variable(const string& s, const string& n) { return "<Variable" + q("simulator", s) + q("name", n) + "/>"; }
string signal_(const string& f, const string& n) { return "<Signal" + q("function", f) + q("name", n) + "/>"; }
string group(const string& s, const string& n) { return "<VariableGroup" + q("simulator", s) + q("name", n) + "/>"; }
struct loaded { bool ok = false; osp_config c; };
loaded load(shared_ptr<a_resolver> r, const cosim::filesystem::path& p)
{
    model_uri_resolver mr;
    mr.add_sub_resolver(r);
    loaded x;
    try { x.c = load_osp_config(p, mr); x.ok = true; } catch (const std::exception&) { }
    return x;
}
bool is_model(const system_structure& s, const string& name, shared_ptr<a_model> m, duration hint)
{
    auto e = find_entity(s, name);
    return e && entity_type_to<model>(e->type) == m && e->step_size_hint == hint;
}
shared_ptr<a_model> model_m(const char* uuid, const char* name)
{
    auto m = make_shared<a_model>(uuid);
    m->d->name = name;
    m->add("o", 1, variable_type::real, output); m->add("i", 2, variable_type::real, input); m->add("q", 3, variable_type::integer, output); m->add("j", 4, variable_type::integer, input);
    m->add("k", 6, variable_type::real, calculated_parameter); m->add("p", 5, variable_type::real, parameter, tunable); m->add("b", 1, variable_type::boolean, parameter, tunable); m->add("s", 1, variable_type::string, parameter, tunable); m->add("c", 8, variable_type::real, parameter, constant); m->add("n", 9, variable_type::integer, parameter, fixed);
    for (int i = 1; i < 6; ++i) { m->add("x" + std::to_string(i), 10 + i, variable_type::real, output); m->add("y" + std::to_string(i), 20 + i, variable_type::real, input); }
    return m;
}
shared_ptr<a_resolver> resolver(const cosim::filesystem::path& dir)
{
    auto r = make_shared<a_resolver>();
    r->models = {{"m.fmu", model_m("1", "m")}, {"n.fmu", model_m("2", "n")}};
    r->directory = dir.string();
    return r;
}
const system_structure::entity* function_of(const osp_config& c, const string& n) { auto e = find_entity(c.system_structure, n); return e && !entity_type_to<model>(e->type) ? e : nullptr; }
template<typename T> bool is_function(const osp_config& c, const string& n) { auto e = function_of(c, n); return e && std::dynamic_pointer_cast<T>(entity_type_to<function_type>(e->type)) != nullptr; }
}
// simulators, initial values, variable connections
extern "C" void h_osp_structure()
{
    auto dir = scratch();
    auto r = resolver(dir);
    int n = sym_choose("simulators", 0, 2), k = n ? sym_choose("connections", 0, (int)sym_option("connections", 2)) : 0;
    bool bad = false;
    string names[2] = {"a", "b &amp; c"}, real[2] = {"a", "b & c"};
    if (n == 2 && k == 0 && sym_flag("same name")) { names[1] = names[0]; real[1] = real[0]; bad = true; }
    bool missing = n && k == 0 && sym_flag("no model"), other = n && k < 2 && sym_flag("other");
    bad |= missing;
    bool has_hint = n && k == 0 && sym_flag("hint");
    double hint = has_hint ? sym_seconds("hint") : 0;
    bad |= to_duration(hint) < duration::zero();
    string sims; vector<init> inits;
    for (int i = 0; i < n; ++i) {
        string content;
        int m = k || i ? 0 : sym_choose("values", -1, (int)sym_option("values", 2));
        if (m >= 0) content = "<InitialValues>";
        for (int l = 0; l < m; ++l) {
            static const char* vars[] = {"i", "p", "j", "b", "s", "n", "o", "p", "c", "nothing"}; // the last three: a wrong type, a constant, an unknown one
            int v = sym_choose("which", 0, l ? 2 : 9); string x; scalar_value val;
            if (v == 2 || v == 5 || v == 7) { int y = sym_i32("value"); x = "<Integer" + q("value", num(y)) + "/>"; val = y; }
            else if (v == 3) { int y = sym_choose("value", 0, 3); static const char* words[] = {"false", "true", "0", "1"}; x = "<Boolean" + q("value", words[y]) + "/>"; val = (y & 1) != 0; }
            else if (v == 4) { x = "<String value=\"&lt;x y\"/>"; val = string("<x y"); }
            else { double y = sym_finite("value"); x = "<Real" + q("value", num(y)) + "/>"; val = y; }
            content += "<InitialValue" + q("variable", vars[v]) + ">" + x + "</InitialValue>\n";
            if (v >= 7) bad = true; else inits.push_back({fvn(real[i], vars[v]), val});
        }
        if (m >= 0) content += "</InitialValues>";
        sims += sim_xml(names[i], missing ? "none.fmu" : i && other ? "n.fmu" : "m.fmu", i == 0 && has_hint ? q("stepSize", num(hint)) : "", content);
    }
    struct end { const char* name; bool exists; variable_type t; bool out, in; };
    const end ends[] = {{"o", true, variable_type::real, true, false}, {"i", true, variable_type::real, false, true}, {"q", true, variable_type::integer, true, false}, {"j", true, variable_type::integer, false, true}, {"k", true, variable_type::real, true, false}, {"p", true, variable_type::real, false, false}, {"none", false, variable_type::real, false, false}};
    string cs; links want;
    for (int l = 0; l < k; ++l) {
        bool few = k == 2;
        int ea = l ? sym_choose("element", 0, n - 1) : sym_choose("element", 0, few ? 0 : n), eb = sym_choose("other element", 0, n - 1);
        int a = sym_choose("variable", 0, few ? 3 : 6), b = sym_choose("other variable", 0, few ? l ? 1 : 3 : 6);
        cs += "<VariableConnection>" + variable(ea == n ? "z" : names[ea], ends[a].name) + "\n" + variable(names[eb], ends[b].name) + "</VariableConnection>\n";
        if (ea == n || !ends[a].exists || !ends[b].exists || ends[a].t != ends[b].t || !((ends[a].out && ends[b].in) || (ends[a].in && ends[b].out))) { bad = true; continue; }
        fvn from(real[ea], ends[a].name), to(real[eb], ends[b].name);
        if (ends[a].in) std::swap(from, to);
        for (auto& w : want) if (same(w.second, to)) bad = true;
        want.push_back({from, to});
    }
    spit(dir / "OspSystemStructure.xml", document(sim_list(sims) + (k ? "<Connections>\n" + cs + "</Connections>\n" : "")));
    auto x = load(r, dir);
    CHECK(x.ok == !bad, "a configuration is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(entity_count(x.c.system_structure) == (size_t)n, "the entities are the simulators");
    for (int i = 0; i < n; ++i) CHECK(is_model(x.c.system_structure, real[i], r->models[i && other].second, to_duration(i == 0 ? hint : 0)), "a simulator is its model with its step size");
    CHECK(has_connections(x.c.system_structure, want), "the connections are those of the file");
    CHECK(has_values(x.c.initial_values, inits), "the initial values are those of the file");
    sym_reach("loaded"); if (!want.empty()) sym_reach("connected");
}
// simulation settings and where the file is
extern "C" void h_osp_settings()
{
    auto dir = scratch();
    cosim::filesystem::create_directories(dir / "sub");
    auto r = resolver(dir / "sub");
    bool s = sym_flag("start"), e = sym_flag("end"), b = sym_flag("step"), a = sym_flag("algorithm");
    double start = s ? sym_seconds("start") : 0, stop = e ? sym_seconds("end") : 0, step = b ? sym_seconds("step") : 0.1;
    string text = document((s ? "<StartTime>" + num(start) + "</StartTime>" : "") + (e ? "<EndTime>" + num(stop) + "</EndTime>" : "") + (b ? "<BaseStepSize>" + num(step) + "</BaseStepSize>" : "") + (a ? "<Algorithm>fixedStep</Algorithm>" : "") + sim_list(sim_xml("a", "m.fmu")));
    int where = sym_choose("where", 0, 3); // directory, file, file of another name, nothing
    if (where != 3) spit(dir / "sub" / (where == 2 ? "other.xml" : "OspSystemStructure.xml"), text);
    auto x = load(r, where == 1 ? dir / "sub" / "OspSystemStructure.xml" : where == 2 ? dir / "sub" / "other.xml" : dir / "sub");
    CHECK(x.ok == !(where == 3 || step <= 0 || (e && start > stop)), "a configuration is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(x.c.start_time == to_time_point(start), "the start time is the file's, or zero");
    CHECK(x.c.end_time.has_value() == e && (!e || *x.c.end_time == to_time_point(stop)), "the end time is the file's, if it has one");
    CHECK(x.c.step_size == to_duration(step), "the step size is the file's, or 0.1 s");
    CHECK(is_model(x.c.system_structure, "a", r->models[0].second, duration::zero()) && x.c.initial_values.empty(), "the simulator is there");
    sym_reach("loaded");
}
// functions and signal connections
extern "C" void h_osp_functions()
{
    auto dir = scratch();
    auto r = resolver(dir);
    int which = sym_choose("functions", 0, 4); // bits: a linear transformation, a sum
    if (which == 4) which = 3;
    bool lin = which & 1, sum = which & 2, twice = which == 3 && sym_flag("same name");
    string fl = "f", fs = twice ? "f" : "g";
    int count = sum ? sym_choose("inputs", 1, 2) : 0;
    bool two_sums = sum && !lin && sym_flag("two");
    bool hf = lin && sym_flag("factor"), ho = lin && sym_flag("offset");
    double f = hf ? sym_finite("factor") : 1, o = ho ? sym_finite("offset") : 0;
    string fn;
    if (lin) fn += "<LinearTransformation" + q("name", fl) + (hf ? q("factor", num(f)) : "") + (ho ? q("offset", num(o)) : "") + "/>\n";
    if (sum) { fn += "<Sum" + q("name", fs) + q("inputCount", num(count)) + "/>\n"; if (two_sums) fn += "<Sum" + q("name", fs) + q("inputCount", num(1)) + "/>\n"; }
    bool bad = twice || two_sums;
    // the connections: everything once, in either notation, and one change
    struct conn { string fun, sig, var; bool out; };
    vector<conn> cs;
    if (lin) { cs.push_back({fl, "in", "x1", false}); cs.push_back({fl, "out", "y1", true}); }
    if (sum) { for (int i = 0; i < count; ++i) cs.push_back({fs, "in[" + std::to_string(i) + "]", "x" + std::to_string(2 + i), false}); cs.push_back({fs, "out", "y2", true}); }
    int change = cs.empty() ? 0 : sym_choose("change", 0, 7), at = change ? sym_choose("which", 0, (int)cs.size() - 1) : 0;
    bool unchanged_error = false;
    switch (change) {
        case 1: cs.erase(cs.begin() + at); bad = true; break;                                               // missing
        case 2: cs.push_back(cs[at]); cs.back().var = cs[at].out ? "y5" : "x5"; if (!cs[at].out) bad = true; break; // once more: outputs may go to several variables
        case 3: cs.push_back(cs[at]); cs.back().fun = "nothing"; bad = true; break;                          // an unknown function
        case 4: cs.push_back(cs[at]); cs.back().sig = "nothing"; bad = true; break;                          // an unknown signal
        case 5: cs[at].var = cs[at].out ? "x4" : "y4"; bad = true; break;                                    // a variable of the wrong causality
        case 6: cs[at].var = cs[at].out ? "j" : "q"; bad = true; break;                                      // a variable of another type
        case 7: std::swap(cs.front(), cs.back()); break;                                                     // in another order
    }
    (void)unchanged_error;
    string text; bool flip = sym_flag("flip");
    links want;
    for (auto& c : cs) {
        text += "<SignalConnection>" + (flip ? variable("a", c.var) + signal_(c.fun, c.sig) : signal_(c.fun, c.sig) + variable("a", c.var)) + "</SignalConnection>\n";
        fvn v("a", c.var), s = c.fun == fl && lin ? fvn(fl, c.sig, "") : c.out ? fvn(fs, "out", "") : fvn(fs, "in", c.sig == "in[1]", "", 0);
        if (c.out) want.push_back({s, v}); else want.push_back({v, s});
    }
    spit(dir / "OspSystemStructure.xml", document(sim_list(sim_xml("a", "m.fmu")) + (fn.empty() ? "" : "<Functions>\n" + fn + "</Functions>\n") + (text.empty() ? "" : "<Connections>" + text + "</Connections>")));
    auto x = load(r, dir);
    CHECK(x.ok == !bad, "a configuration with functions is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(entity_count(x.c.system_structure) == 1u + lin + sum, "the entities are the simulators and the functions");
    if (lin) {
        CHECK(is_function<linear_transformation_function_type>(x.c, fl), "a linear transformation is a linear transformation");
        auto p = function_of(x.c, fl)->parameter_values;
        CHECK(sym_double_bits(std::get<double>(p.at(linear_transformation_function_type::factor_parameter_index))) == sym_double_bits(f) && sym_double_bits(std::get<double>(p.at(linear_transformation_function_type::offset_parameter_index))) == sym_double_bits(o), "a transformation has its factor and offset");
    }
    if (sum) {
        CHECK(is_function<vector_sum_function_type>(x.c, fs), "a sum is a sum");
        auto p = function_of(x.c, fs)->parameter_values;
        CHECK(std::get<int>(p.at(vector_sum_function_type::inputCount_parameter_index)) == count && (!p.count(vector_sum_function_type::dimension_parameter_index) || std::get<int>(p.at(vector_sum_function_type::dimension_parameter_index)) == 1) && !p.count(vector_sum_function_type::numericType_parameter_index), "a sum has its number of inputs");
    }
    CHECK(has_connections(x.c.system_structure, want), "the signal connections are those of the file");
    sym_reach("loaded"); if (change == 2) sym_reach("several targets");
}
namespace
{
struct tree { string name; vector<string> vars; vector<tree> sub; };
string xml(const tree& t, int depth = 0)
{
    static const char* tags[] = {"Generic", "LinearMechanicalPort", "Force", "Generic"};
    string s = string("<") + tags[depth] + q("name", t.name) + ">";
    for (auto& v : t.vars) s += "<Variable" + q("ref", v) + " unit=\"u\"/>";
    for (auto& k : t.sub) s += xml(k, depth + 1);
    return s + "</" + tags[depth] + ">\n";
}
string description(const vector<tree>& ts)
{
    string s = "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<OspModelDescription xmlns=\"http://opensimulationplatform.com/MSMI/OSPModelDescription\" version=\"0.1\"><UnitDefinitions/><VariableGroups>\n";
    for (auto& t : ts) s += xml(t);
    return s + "</VariableGroups></OspModelDescription>\n";
}
bool pair_up(const tree& a, const tree& b, links& l)
{
    if (a.vars.size() != b.vars.size() || a.sub.size() != b.sub.size()) return false;
    for (size_t i = 0; i < a.vars.size(); ++i) { fvn x("a", a.vars[i]), y("b", b.vars[i]); if (a.vars[i][0] == 'y') std::swap(x, y); l.push_back({x, y}); }
    for (size_t i = 0; i < a.sub.size(); ++i) if (!pair_up(a.sub[i], b.sub[i], l)) return false;
    return true;
}
}
// variable group connections
extern "C" void h_osp_groups()
{
    auto dir = scratch();
    cosim::filesystem::create_directories(dir / "models");
    auto r = resolver(dir / "models");
    int depth = sym_choose("depth", 1, 3);
    // the connected group: a variable and a group in a group in it; and another with nested groups of the same names
    static const char* names[] = {"g", "h", "top"};
    tree ta{"top", {"x1", "y1"}, {}}, tb{"top", {"y1", "x1"}, {}}, other{"other", {"x5"}, {{"g", {"x4"}, {{"h", {"x4"}, {}}}}}};
    int n1 = sym_choose("name", 0, 2), n2 = sym_choose("nested name", 0, 2);
    bool two = depth >= 2 && sym_flag("two");
    if (depth >= 2) { ta.sub.push_back({names[n1], {"x2"}, {}}); tb.sub.push_back({names[n2], {"y2"}, {}}); }
    if (two) { ta.sub.push_back({"second", {"x4"}, {}}); tb.sub.push_back({"second", {"y4"}, {}}); }
    if (depth >= 3) { ta.sub[0].sub.push_back({names[n2], {"x3"}, {}}); tb.sub[0].sub.push_back({names[n1], {"y3"}, {}}); }
    int change = sym_choose("change", 0, 9), level = change == 1 || change == 2 ? sym_choose("level", 1, depth) : 1;
    tree *pa = &ta, *pb = &tb;
    for (int i = 1; i < level; ++i) { pa = &pa->sub[0]; pb = &pb->sub[0]; }
    if (change == 1) pb->vars.pop_back();           // a variable less
    if (change == 2) pa->sub.push_back({"more", {}, {}}); // a group more
    bool a_first = sym_flag("order");
    vector<tree> as = a_first ? vector<tree>{ta, other} : vector<tree>{other, ta}, bs = a_first ? vector<tree>{tb, other} : vector<tree>{other, tb};
    string da = description(as), db = description(bs);
    if (change == 5) da = "<OspModelDescription";  // not a document
    if (change == 6) da = "<OspModelDescription/>"; // no groups in it
    if (change == 7) da = da.substr(0, da.size() - 3); // ends early
    // where the descriptions are: beside the model, or beside the configuration
    bool beside = sym_flag("beside the model");
    auto place = beside ? dir / "models" : dir;
    if (change != 3) { if (change != 4) spit(place / "m_OspModelDescription.xml", da); spit(place / "n_OspModelDescription.xml", db); }
    if (beside) spit(dir / "m_OspModelDescription.xml", description({{"top", {}, {}}}));
    string g = change == 8 ? "nothing" : "top";
    bool bad = (change >= 1 && change <= 8) && !(change == 3 && false);
    string con = sym_flag("swap") ? group("b", g) + group("a", g) : group("a", g) + group("b", g);
    if (change == 4 && beside) { bad = true; }
    string text = document(sim_list(sim_xml("a", "models/m.fmu") + sim_xml("b", "models/n.fmu")) + "<Connections>" + (change == 9 ? "" : "<VariableGroupConnection>" + con + "</VariableGroupConnection>") + (change == 9 ? "<VariableConnection>" + variable("a", "o") + variable("b", "i") + "</VariableConnection>" : "") + "</Connections>");
    spit(dir / "OspSystemStructure.xml", text);
    auto x = load(r, dir);
    CHECK(x.ok == !bad, "a configuration with group connections is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    links want;
    if (change == 9) want.push_back({fvn("a", "o"), fvn("b", "i")}); else pair_up(ta, tb, want);
    CHECK(has_connections(x.c.system_structure, want), "connected groups have their variables connected, and those of the groups in them");
    sym_reach("loaded"); if (depth == 3) sym_reach("nested");
}
// which description belongs to which simulator: the one beside its model, or else the one beside the configuration
extern "C" void h_osp_places()
{
    auto dir = scratch();
    auto r = resolver(dir);
    r->directory.clear();
    bool same_name = sym_flag("same name"), same_dir = sym_flag("same directory"), one_model = same_dir && same_name && sym_flag("one model");
    if (same_name) r->models[1].second->d->name = "m";
    const char* places[3] = {"d1", same_dir ? "d1" : "d2", ""};
    for (auto& k : {"d1", "d2"}) cosim::filesystem::create_directories(dir / k);
    // one description for each place and name, with variables of its own
    bool there[3][2]; string ref[3][2];
    int next = 1;
    for (int p = 0; p < 3; ++p) {
        if (p == 1 && same_dir) { for (int n = 0; n < 2; ++n) { there[1][n] = there[0][n]; ref[1][n] = ref[0][n]; } continue; }
        for (int n = 0; n < 2; ++n) {
            there[p][n] = n == 1 && same_name ? false : sym_flag("there");
            if (!there[p][n]) continue;
            ref[p][n] = std::to_string(next++ % 5 + 1);
            spit((p == 2 ? dir : dir / places[p]) / (n ? "n_OspModelDescription.xml" : "m_OspModelDescription.xml"), description({{"out", {"x" + ref[p][n]}, {}}, {"in", {"y" + ref[p][n]}, {}}}));
        }
    }
    int na = 0, nb = same_name ? 0 : 1;
    string ra = there[0][na] ? ref[0][na] : there[2][na] ? ref[2][na] : string(), rb = there[1][nb] ? ref[1][nb] : there[2][nb] ? ref[2][nb] : string();
    bool bad = ra.empty() || rb.empty();
    spit(dir / "OspSystemStructure.xml", document(sim_list(sim_xml("a", "d1/m.fmu") + sim_xml("b", string(places[1]) + (one_model ? "/m.fmu" : "/n.fmu"))) + "<Connections><VariableGroupConnection>" + group("a", "out") + group("b", "in") + "</VariableGroupConnection></Connections>"));
    auto x = load(r, dir);
    CHECK(x.ok == !bad, "a configuration with group connections is loaded exactly when its models have descriptions");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(has_connections(x.c.system_structure, {{fvn("a", "x" + ra), fvn("b", "y" + rb)}}), "the groups of a simulator are those of the description of its model");
    sym_reach("loaded");
}
// vector sums and signal group connections
extern "C" void h_osp_vectors()
{
    auto dir = scratch();
    auto r = resolver(dir);
    int count = sym_choose("inputs", 1, 2), dim = sym_choose("dimension", 1, 2);
    vector<tree> ts; vector<std::pair<string, string>> cs; links want;
    for (int i = 0; i <= count; ++i) {
        tree t{"G" + std::to_string(i), {}, {}};
        for (int j = 0; j < dim; ++j) t.vars.push_back(i == count ? "y" + std::to_string(1 + j) : "x" + std::to_string(1 + i * 2 + j));
        ts.push_back(t);
        cs.push_back({i == count ? "out" : "in[" + std::to_string(i) + "]", t.name});
    }
    int change = sym_choose("change", 0, 8), at = change ? sym_choose("which", 0, count) : 0;
    bool bad = change && change != 7, out = at == count;
    auto added = cs;
    switch (change) {
        case 1: cs.erase(cs.begin() + at); break;              // missing
        case 2: cs.push_back({cs[at].first, "G9"}); ts.push_back({"G9", {}, {}}); for (int j = 0; j < dim; ++j) ts.back().vars.push_back(out ? "y" + std::to_string(4 + j) : "x5"); bad = !out; break; // once more
        case 3: ts[at].vars.pop_back(); break;                 // a variable less
        case 4: ts[at].vars.push_back(out ? "y5" : "x5"); break; // a variable more
        case 5: cs[at].second = "nothing"; break;              // an unknown group
        case 6: cs.push_back({"nothing", "G0"}); break;        // an unknown signal
        case 7: std::swap(cs.front(), cs.back()); break;       // in another order
        case 8: break;                                         // an unknown function
    }
    string text; bool flip = sym_flag("flip");
    auto one = [&](const string& fun, const string& sig, const string& g) { string s = "<SignalGroup" + q("function", fun) + q("name", sig) + "/>", v = group("a", g); return "<SignalGroupConnection>" + (flip ? v + s : s + v) + "</SignalGroupConnection>\n"; };
    for (auto& c : cs) {
        text += one("v", c.first, c.second);
        for (auto& t : ts) if (t.name == c.second) for (size_t j = 0; j < t.vars.size(); ++j) { if (c.first == "out") want.push_back({fvn("v", "out", 0, "", (int)j), fvn("a", t.vars[j])}); else want.push_back({fvn("a", t.vars[j]), fvn("v", "in", c.first == "in[1]", "", (int)j)}); }
    }
    if (change == 8) text += one("nothing", "out", "G0");
    spit(dir / "m_OspModelDescription.xml", description(ts));
    spit(dir / "OspSystemStructure.xml", document(sim_list(sim_xml("a", "m.fmu")) + "<Functions><VectorSum" + q("name", "v") + q("inputCount", num(count)) + q("dimension", num(dim)) + "/></Functions><Connections>" + text + "</Connections>"));
    auto x = load(r, dir);
    CHECK(x.ok == !bad, "a configuration with vector functions is loaded exactly when it is valid");
    if (!x.ok) { sym_reach("rejected"); return; }
    CHECK(entity_count(x.c.system_structure) == 2 && is_function<vector_sum_function_type>(x.c, "v"), "a vector sum is a vector sum");
    auto p = function_of(x.c, "v")->parameter_values;
    CHECK(std::get<int>(p.at(vector_sum_function_type::inputCount_parameter_index)) == count && std::get<int>(p.at(vector_sum_function_type::dimension_parameter_index)) == dim, "a vector sum has its number of inputs and its dimension");
    CHECK(has_connections(x.c.system_structure, want), "the signal group connections are those of the file");
    sym_reach("loaded"); if (change == 2) sym_reach("several targets");
}
// documents that lack something, have something more, or end early
static int length(size_t n) { int block = sym_choose("block", 0, (int)(n - 1) / 40), l = block * 40 + sym_choose("rest", 0, 39); sym_assume(l < (int)n); return l; }
extern "C" void h_osp_malformed()
{
    auto dir = scratch();
    auto r = resolver(dir);
    pieces need;
    auto text = [&] {
        string sims = "<Simulator" + need(0, q("name", "a")) + need(1, q("source", "m.fmu")) + " stepSize=\"0.25\"><InitialValues><InitialValue" + need(2, q("variable", "p")) + ">" + need(3, "<Real" + need(4, q("value", "1.5")) + "/>") + "</InitialValue><InitialValue variable=\"n\"><Integer value=\"25\"/></InitialValue><InitialValue variable=\"b\"><Boolean value=\"true\"/></InitialValue></InitialValues></Simulator>";
        string funs = "<Functions><LinearTransformation" + need(5, q("name", "f")) + " factor=\"0.75\"/><Sum" + need(6, q("name", "g")) + need(7, q("inputCount", "1")) + "/></Functions>";
        string cons = "<Connections><VariableConnection><Variable" + need(8, q("simulator", "a")) + need(9, q("name", "o")) + "/>" + need(10, "<Variable simulator=\"a\" name=\"i\"/>") + "</VariableConnection><SignalConnection>" + need(11, "<Variable simulator=\"a\" name=\"x1\"/>") + "<Signal" + need(12, q("function", "f")) + need(13, q("name", "in")) + "/></SignalConnection><SignalConnection><Variable simulator=\"a\" name=\"y1\"/><Signal function=\"f\" name=\"out\"/></SignalConnection><SignalConnection><Variable simulator=\"a\" name=\"x2\"/><Signal function=\"g\" name=\"in[0]\"/></SignalConnection><SignalConnection><Variable simulator=\"a\" name=\"y2\"/><Signal function=\"g\" name=\"out\"/></SignalConnection></Connections>";
        return "<OspSystemStructure" + need(14, ns_attr) + need(15, " version=\"0.1\"") + "><StartTime>0.5</StartTime><BaseStepSize>0.125</BaseStepSize>" + need(16, "<Simulators>" + sims + "</Simulators>") + funs + cons + "</OspSystemStructure>";
    };
    string t = text();
    int kind = sym_choose("kind", 0, 4);
    if (kind == 1) { need.drop = sym_choose("missing", 0, 16); t = text(); }
    if (kind == 2) t = t.substr(0, (size_t)length(t.size()));
    auto change = [&](const string& from, const string& to) { auto p = t.find(from); t.replace(p, from.size(), to); };
    if (kind == 3) {
        static const char* at[] = {"1.5\"", "0.25", "0.75", "0.5<", "0.125", "25\"", "true", "\"1\""};
        static const char* values[] = {"x", "", "1x", "1.5.2", "0x1", "1,5"};
        int w = sym_choose("at", 0, 7);
        string v = values[sym_choose("value", 0, 5)], from = at[w];
        sym_assume(w != 3 || !v.empty()); // an empty start time is the default one
        if (w == 0 || w == 5) v += "\"";
        if (w == 3) v += "<";
        if (w == 7) v = "\"" + v + "\"";
        if (w == 5) from = "25\"";
        if (w == 5) t.replace(t.find("value=\"25\"") + 7, from.size(), v); else change(from, v);
    }
    if (kind == 4) {
        static const char* changes[][2] = {{"<Simulators>", "<Bogus/><Simulators>"}, {"<Real", "<Enumeration value=\"1\"/><Real"}, {"<Real value=\"1.5\"/>", "<Enumeration value=\"1\"/>"}, {"<Sum", "<Product name=\"k\"/><Sum"}, {" factor", " bogus=\"1\" factor"}, {"<Functions>", "<Functions><Sum name=\"h\" inputCount=\"0\"/>"}, {"<Connections>", "<Connections>text"}, {"version=\"0.1\"", "version=\"0.2\""}, {"</Functions>", "</Functions><Functions/>"}, {"<VariableConnection>", "<VariableConnection><Variable simulator=\"a\" name=\"i\"/>"}, {"inputCount=\"1\"", "inputCount=\"-1\""}, {"OSPSystemStructure\"", "OSPSystemStructure2\""}};
        int c = sym_choose("change", 0, 11);
        change(changes[c][0], changes[c][1]);
    }
    spit(dir / "OspSystemStructure.xml", t);
    auto x = load(r, dir);
    CHECK(x.ok == (kind == 0), "incomplete and unreadable documents are rejected");
    sym_reach(x.ok ? "loaded" : "rejected");
}
