// C30: looking up models by their URI
#include "sim.hpp"
#include "scratch.hpp"
#include <cosim/file_cache.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/uri.hpp>
struct jm_callbacks { };
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <stdexcept>
#include <vector>
using namespace cosim;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
namespace
{
struct a_model : model
{
    shared_ptr<const cosim::model_description> description() const noexcept override { return nullptr; }
    shared_ptr<slave> instantiate(std::string_view) override { return nullptr; }
};
struct question { int who; bool two; string base, ref; };
vector<question> asked;
enum { no, yes, fails };
struct one_way : model_uri_sub_resolver
{
    int n, answer; shared_ptr<model> m = make_shared<a_model>();
    one_way(int n, int answer) : n(n), answer(answer) {}
    shared_ptr<model> reply() { if (answer == fails) throw std::out_of_range("broken"); return answer == yes ? m : nullptr; }
    using model_uri_sub_resolver::lookup_model;
    shared_ptr<model> lookup_model(const uri& u) override { asked.push_back({n, false, "", string(u.view())}); return reply(); }
};
struct both_ways : one_way
{
    using one_way::one_way;
    using one_way::lookup_model;
    shared_ptr<model> lookup_model(const uri& b, const uri& r) override { asked.push_back({n, true, string(b.view()), string(r.view())}); return reply(); }
};
string sym_uri(const char* name)
{
    static const char* forms[] = {"x:/a/b", "y://h/d/e?q", "rel/ative", "../up", "", "?query", "#part", "z:rootless", "//host/p", "/abs"};
    string s = forms[sym_choose(name, 0, 9)];
    if (sym_flag("more")) { char c = (char)sym_u8("letter"); sym_assume((c >= 'a') & (c <= 'z')); s += c; }
    return s;
}
}
extern "C" void h_resolvers()
{
    int n = sym_choose("resolvers", 0, (int)sym_option("resolvers", 3));
    model_uri_resolver r;
    vector<shared_ptr<one_way>> subs;
    for (int i = 0; i < n; ++i) {
        int a = sym_choose("answer", 0, 2);
        bool both = sym_flag("both");
        subs.push_back(both ? make_shared<both_ways>(i, a) : make_shared<one_way>(i, a));
        r.add_sub_resolver(subs.back());
    }
    if (sym_flag("moved")) { model_uri_resolver q(std::move(r)); r = std::move(q); }
    bool two = sym_flag("two");
    string bs = two ? sym_uri("base") : "", rs = sym_uri("reference");
    uri base(bs), ref(rs);
    bool absolute = ref.scheme().has_value() || (two && base.scheme().has_value());
    int decides = -1;
    for (int i = n - 1; i >= 0; --i) if (subs[i]->answer != no) decides = i;
    int lookups = (int)sym_option("lookups", 2);
    for (int k = 0; k < lookups; ++k) { // asking again gives the same answer
        asked.clear();
        enum { found, invalid, none, broken, other } what = found;
        shared_ptr<model> m;
        try { m = two ? r.lookup_model(base, ref) : r.lookup_model(ref); }
        catch (const std::invalid_argument&) { what = invalid; }
        catch (const std::out_of_range&) { what = broken; }
        catch (const std::runtime_error&) { what = none; }
        catch (...) { what = other; }
        if (!absolute) { CHECK(what == invalid && asked.empty(), "a reference without a base is an error"); sym_reach("relative"); continue; }
        CHECK((int)asked.size() == (decides < 0 ? n : decides + 1), "the resolvers are asked until one decides");
        for (int i = 0; i < (int)asked.size(); ++i) {
            CHECK(asked[i].who == i, "the resolvers are asked in the order they were added in");
            if (asked[i].two) CHECK(asked[i].base == bs && asked[i].ref == rs, "a resolver gets the base and the reference");
            else CHECK(asked[i].ref == (two ? string(resolve_reference(base.scheme() ? base : ref, ref).view()) : rs), "a resolver gets the URI the reference stands for");
        }
        if (decides < 0) { CHECK(what == none, "it is an error if no resolver knows the model"); sym_reach("unknown"); }
        else if (subs[decides]->answer == fails) { CHECK(what == broken, "a resolver's failure is reported"); sym_reach("failed"); }
        else { CHECK(what == found && m == subs[decides]->m, "the model is the one the first resolver knows"); sym_reach("found"); }
    }
}
// ---- FMU files
namespace
{
string imported; int imports; bool import_fails; string instance;
shared_ptr<file_cache> given_cache; bool default_cache;
struct fake_fmu : fmi::fmu
{
    shared_ptr<cosim::model_description> d = make_shared<cosim::model_description>();
    fmi::fmi_version fmi_version() const override { return fmi::fmi_version::v2_0; }
    shared_ptr<const cosim::model_description> model_description() const override { return d; }
    shared_ptr<fmi::slave_instance> instantiate_slave(std::string_view n) override { instance = n; return nullptr; }
    shared_ptr<fmi::importer> importer() const override { return nullptr; }
};
shared_ptr<fake_fmu> the_fmu;
struct some_cache : file_cache
{
    std::unique_ptr<directory_ro> get_directory_ro(std::string_view) override { return nullptr; }
    std::unique_ptr<directory_rw> get_directory_rw(std::string_view) override { return nullptr; }
};
alignas(16) char storage[sizeof(fmi::importer)];
}
namespace cosim
{
namespace fmi
{
shared_ptr<importer> importer::create(shared_ptr<file_cache> c) { given_cache = c; return shared_ptr<importer>((importer*)storage, [](importer*) {}); }
shared_ptr<fmu> importer::import(const cosim::filesystem::path& p) { ++imports; imported = p.string(); if (import_fails) throw std::out_of_range("bad FMU"); return the_fmu; }
}
}
extern "C" void h_fmu_files()
{
    the_fmu = make_shared<fake_fmu>();
    auto cache = sym_flag("cache") ? make_shared<some_cache>() : nullptr;
    auto r = default_model_uri_resolver(cache);
    if (cache) CHECK(given_cache == cache, "FMUs are unpacked to the cache that was given");
    else CHECK(given_cache != nullptr, "there is a cache unless one is given");
    const char* schemes[] = {"file", "http", "fil", "files"};
    const char* authorities[] = {nullptr, "", "localhost", "remote", "localhost.example"};
    const char* ends[] = {".fmu", ".fmu.txt", "", ".fm", ".fmux", "fmu", ".fmu/"};
    int sc = sym_choose("scheme", 0, 3), au = sym_choose("authority", 0, 4);
    string dir = sym_flag("directory") ? "/some.fmu/d%20e/" : "/", name = sym_bytes("name", sym_choose("length", 0, (int)sym_option("len", 2)));
    for (char c : name) sym_assume(((c >= 'a') & (c <= 'z')) | (c == '.') | (c == '/') | (c == '-') | (c == '_'));
    sym_assume(name.empty() || name[0] != '/'); // "//" would begin an authority
    string file = name + ends[sym_choose("end", 0, 6)];
    string tail = sym_flag("query") ? "?q=.fmu" : ""; if (sym_flag("fragment")) tail += "#f";
    string prefix = string(schemes[sc]) + ":" + (authorities[au] ? string("//") + authorities[au] : string());
    bool two = sym_flag("two");
    import_fails = sym_flag("bad");
    bool relative = two && sym_flag("relative");
    shared_ptr<model> m; bool none = false, broken = false;
    try {
        m = !two ? r->lookup_model(uri(prefix + dir + file + tail)) : !relative ? r->lookup_model(uri("http://elsewhere/x.fmu"), uri(prefix + dir + file + tail)) : r->lookup_model(uri(prefix + dir + "config.xml"), uri("./" + file + tail));
    } catch (const std::out_of_range&) { broken = true; }
    catch (const std::runtime_error&) { none = true; }
    catch (const std::invalid_argument&) { CHECK(!authorities[au], "URIs with a scheme are looked up"); CHECK(imports == 0, "no model"); return; } // file URIs without an authority are not required to work
    // the file's path, with dot segments removed when the reference was resolved
    string path = dir.size() > 1 ? "/some.fmu/d e/" + file : "/" + file;
    if (two) {
        string raw = path, out; // RFC 3986, 5.2.4
        vector<string> seg; string cur; bool slash = false;
        for (size_t i = 1; i <= raw.size(); ++i) {
            if (i < raw.size() && raw[i] != '/') { cur += raw[i]; continue; }
            bool last = i == raw.size();
            if (cur == "..") { if (!seg.empty()) seg.pop_back(); slash = last; }
            else if (cur == ".") slash = last;
            else { seg.push_back(cur); slash = false; }
            cur.clear();
        }
        for (auto& s : seg) out += "/" + s;
        if (slash || out.empty()) out += "/";
        path = out;
    }
    string base = path.substr(path.rfind('/') + 1);
    auto dot = base.rfind('.');
    bool fmu = sc == 0 && au != 3 && au != 4 && dot != string::npos && dot > 0 && base.substr(dot) == ".fmu";
    if (!fmu) { CHECK(none && imports == 0, "other URIs are not taken for FMU files"); sym_reach("not a file"); return; }
    CHECK(imports == 1 && imported == path, "a file URI leads to the file at its path");
    if (import_fails) { CHECK(broken, "a failing import is reported"); sym_reach("bad file"); return; }
    CHECK(m && !none && !broken, "there is a model");
    CHECK(m->description() == the_fmu->d, "the model's description is that of the FMU");
    m->instantiate("slave"); CHECK(instance == "slave", "instances are those of the FMU");
    sym_reach("model");
}

// file names with escaped characters, whatever other files there are
extern "C" void h_fmu_escaped()
{
    the_fmu = make_shared<fake_fmu>();
    auto dir = scratch();
    static const char* written[] = {"a%20b", "a%2520b", "%61", "a%2Fb", "%C3%A9", "a+b"};
    static const char* meant[] = {"a b", "a%20b", "a", "a/b", "\xC3\xA9", "a+b"};
    int k = sym_choose("name", 0, 5);
    if (sym_flag("raw")) spit(dir / (string(written[k]) + ".fmu"), "raw");
    if (k != 3 && sym_flag("decoded")) spit(dir / (string(meant[k]) + ".fmu"), "decoded");
    auto r = default_model_uri_resolver(nullptr);
    string base = "file://" + (sym_flag("localhost") ? string("localhost") : string()) + dir.string() + "/", ref = string(written[k]) + ".fmu";
    auto m = sym_flag("relative") ? r->lookup_model(uri(base + "config.xml"), uri(ref)) : r->lookup_model(uri(base + ref));
    CHECK(m && imports == 1 && imported == dir.string() + "/" + meant[k] + ".fmu", "a file URI leads to the file at its path");
    sym_reach("model");
}
