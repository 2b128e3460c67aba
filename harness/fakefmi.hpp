// An FMI Library in memory. It watches over the life of every handle (parsed, loaded, instantiated, initialised,
// running, terminated, freed), records the arguments it gets and answers as the harness chooses.
#pragma once
#include "sym.h"
#include <fmilib.h>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>
using std::vector;
enum life { parsed, loaded, instantiated, experiment, initialising, running, ended };
struct handle
{
    life state = parsed;
    std::string name;
    bool once = false;
    double t = 0, dt = 0, start = 0, stop = 0, tolerance = 0;
    bool new_step = false, has_stop = false, has_tolerance = false;
    int terminations = 0;
    std::string what;
    vector<unsigned> refs;
    vector<double> reals;
    vector<int> integers, booleans;
    vector<std::string> strings;
    vector<char> null_string;
    fmi1_callback_functions_t cb1;
    fmi2_callback_functions_t cb2;
};
struct a_variable
{
    std::string name;
    unsigned vr;
    int type, causality, variability;
    bool has_start;
    double real = 0;
    int integer = 0, boolean = 0;
    std::string string;
};
namespace
{
struct
{
    std::string name = "model", guid = "{g}", description = "d", author = "a", version = "1";
    int kind = 0;
    bool once = false;
    vector<a_variable> variables;
    bool unreadable = false;
} doc;
struct
{
    int contexts = 0, handles = 0, loaded = 0, instances = 0, lists = 0, parses = 0;
    std::string dir;              // where the last model description was read from
    int fail_load = -1, fail_instantiate = -1; // these calls fail
    int loads = 0, instantiations = 0;
    int fault = -1;               // status of the operation named by...
    std::string fault_at;
    bool ask = false;             // ...or any status at any operation
    handle* last = nullptr;
    vector<int> statuses;         // answers given
    int terminations = 0;
    int logged = 0;
} lib;
const a_variable& var(const void* v) { return *static_cast<const a_variable*>(v); }
}
struct fmi_xml_context_t { jm_callbacks* cb; };
extern "C" {
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* c) { CHECK(c && c->malloc && c->calloc && c->realloc && c->free && c->logger, "the library gets its callbacks"); ++lib.contexts; return new fmi_xml_context_t{c}; }
void fmi_import_free_context(fmi_import_context_t* c) { CHECK(lib.handles == 0, "the context is freed after the handles made with it"); --lib.contexts; delete c; }
}
static int the_status(const char* op)
{
    int s = lib.ask ? sym_choose(op, 0, 5) : lib.fault_at == op ? lib.fault : 0;
    lib.statuses.push_back(s);
    return s;
}
static void say(fmi_import_context_t* c, const char* m) { size_t i = 0; for (; m[i]; ++i) c->cb->errMessageBuffer[i] = m[i]; c->cb->errMessageBuffer[i] = 0; }
static int fmi1_answer(fmi1_import_t* h, const char* op);
static int fmi2_answer(fmi2_import_t* h, const char* op);
#define FMI(x) fmi1_##x
#include "fakefmi.inc"
#undef FMI
#define FMI(x) fmi2_##x
#include "fakefmi.inc"
#undef FMI
// a slave that is not content says why
static int fmi1_answer(fmi1_import_t* h, const char* op)
{
    int s = the_status(op);
    if (s) { ++lib.logged; h->cb1.logger(nullptr, h->name.c_str(), (fmi1_status_t)s, "cat", "%s %d", op, 7); }
    return s;
}
static int fmi2_answer(fmi2_import_t* h, const char* op)
{
    int s = the_status(op);
    if (s) { ++lib.logged; h->cb2.logger(h->cb2.componentEnvironment, h->name.c_str(), (fmi2_status_t)s, "cat", "%s %d", op, 7); }
    return s;
}
template<typename H> static H* parse(fmi_import_context_t* c, const char* dir)
{
    CHECK(c != nullptr && lib.contexts == 1, "the model description is read in a live context");
    ++lib.parses; lib.dir = dir;
    if (doc.unreadable) { say(c, "unreadable"); return nullptr; }
    ++lib.handles;
    auto h = new H;
    lib.last = h;
    return h;
}
template<typename H> static jm_status_enu_t load(H* h)
{
    CHECK(h->state == parsed, "a library is loaded once");
    if (lib.loads++ == lib.fail_load) return jm_status_error;
    ++lib.loaded; h->state = loaded;
    return jm_status_success;
}
template<typename H> static jm_status_enu_t make(H* h, const char* name)
{
    CHECK(h->state == loaded, "an instance is made of a loaded library");
    h->name = name;
    if (lib.instantiations++ == lib.fail_instantiate) return jm_status_error;
    ++lib.instances; h->state = instantiated;
    return jm_status_success;
}
template<typename H> static void drop(H* h)
{
    CHECK(h->state >= instantiated, "an instance is freed once");
    CHECK(h->state != running, "an instance is freed after it is terminated");
    --lib.instances; h->state = loaded;
}
extern "C" {
fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t* c, const char* d) { return parse<fmi1_import_t>(c, d); }
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* d, fmi2_xml_callbacks_t*) { return parse<fmi2_import_t>(c, d); }
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t*) { ++lib.lists; return new fmi1_import_variable_list_t; }
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t*, int order) { CHECK(order == 0, "variables are listed in the order of the model description"); ++lib.lists; return new fmi2_import_variable_list_t; }
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t*, unsigned i) { return (fmi1_import_variable_t*)&doc.variables.at(i); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*, size_t i) { return (fmi2_import_variable_t*)&doc.variables.at(i); }
fmi1_fmu_kind_enu_t fmi1_import_get_fmu_kind(fmi1_import_t*) { return (fmi1_fmu_kind_enu_t)doc.kind; }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t*) { return (fmi2_fmu_kind_enu_t)doc.kind; }
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t* h) { return (fmi1_import_capabilities_t*)h; }
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t*) { return doc.once; }
unsigned fmi2_import_get_capability(fmi2_import_t*, fmi2_capabilities_enu_t c) { return c == fmi2_cs_canBeInstantiatedOnlyOncePerProcess && doc.once; }
jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t* h, fmi1_callback_functions_t cb, int) { h->cb1 = cb; CHECK(cb.logger && cb.allocateMemory && cb.freeMemory, "the slave gets its callbacks"); return load(h); }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* h, fmi2_fmu_kind_enu_t k, const fmi2_callback_functions_t* cb) { h->cb2 = *cb; CHECK(cb->logger && cb->allocateMemory && cb->freeMemory, "the slave gets its callbacks"); CHECK(k == fmi2_fmu_kind_cs, "the library is loaded for co-simulation"); return load(h); }
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t* h, fmi1_string_t n, fmi1_string_t, fmi1_string_t, fmi1_real_t, fmi1_boolean_t, fmi1_boolean_t) { auto r = make(h, n); if (r != jm_status_success) { h->cb1.logger(nullptr, n, fmi1_status_error, "cat", "%s %d", "instantiate", 7); } return r; }
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* h, fmi2_string_t n, fmi2_type_t t, fmi2_string_t, fmi2_boolean_t) { CHECK(t == fmi2_cosimulation, "the instance is made for co-simulation"); auto r = make(h, n); if (r != jm_status_success) { h->cb2.logger(h->cb2.componentEnvironment, n, fmi2_status_error, "cat", "%s %d", "instantiate", 7); } return r; }
void fmi1_import_free_slave_instance(fmi1_import_t* h) { drop(h); }
void fmi2_import_free_instance(fmi2_import_t* h) { drop(h); }
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t* h, fmi1_real_t t, fmi1_boolean_t d, fmi1_real_t s)
{
    CHECK(h->state == instantiated, "a slave is initialised once");
    h->start = t; h->has_stop = d; h->stop = s;
    int st = fmi1_answer(h, "exit");
    if (st <= 1) h->state = running;
    return (fmi1_status_t)st;
}
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* h, fmi2_boolean_t td, fmi2_real_t tol, fmi2_real_t t, fmi2_boolean_t d, fmi2_real_t s)
{
    CHECK(h->state == instantiated, "the experiment is set up once, first");
    h->start = t; h->has_stop = d; h->stop = s; h->has_tolerance = td; h->tolerance = tol;
    int st = fmi2_answer(h, "setup");
    if (st <= 1) h->state = experiment;
    return (fmi2_status_t)st;
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* h)
{
    CHECK(h->state == experiment, "initialisation comes after the experiment is set up");
    int st = fmi2_answer(h, "enter");
    if (st <= 1) h->state = initialising;
    return (fmi2_status_t)st;
}
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* h)
{
    CHECK(h->state == initialising, "initialisation ends once");
    int st = fmi2_answer(h, "exit");
    if (st <= 1) h->state = running;
    return (fmi2_status_t)st;
}
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t* h)
{
    CHECK(h->state == running, "a running slave is terminated, once");
    h->state = ended; ++h->terminations; ++lib.terminations;
    return (fmi1_status_t)fmi1_answer(h, "terminate");
}
fmi2_status_t fmi2_import_terminate(fmi2_import_t* h)
{
    CHECK(h->state == running, "a running slave is terminated, once");
    h->state = ended; ++h->terminations; ++lib.terminations;
    return (fmi2_status_t)fmi2_answer(h, "terminate");
}
}
