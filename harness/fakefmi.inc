// Definitions common to FMI 1.0 and 2.0; FMI(x) pastes the prefix.
struct FMI(import_t) : handle { };
struct FMI(import_variable_list_t) { int dummy; };
extern "C" {
void FMI(import_free)(FMI(import_t)* h)
{
    CHECK(h != nullptr, "no null handle is freed");
    CHECK(h->state == parsed, "a handle is freed after its library was unloaded");
    CHECK(lib.contexts == 1, "handles are freed before the context");
    --lib.handles;
    delete h;
}
const char* FMI(import_get_model_name)(FMI(import_t)*) { return doc.name.c_str(); }
const char* FMI(import_get_GUID)(FMI(import_t)*) { return doc.guid.c_str(); }
const char* FMI(import_get_description)(FMI(import_t)*) { return doc.description.c_str(); }
const char* FMI(import_get_author)(FMI(import_t)*) { return doc.author.c_str(); }
const char* FMI(import_get_model_version)(FMI(import_t)*) { return doc.version.c_str(); }
void FMI(import_free_variable_list)(FMI(import_variable_list_t)* l) { --lib.lists; delete l; }
size_t FMI(import_get_variable_list_size)(FMI(import_variable_list_t)*) { return doc.variables.size(); }
const char* FMI(import_get_variable_name)(FMI(import_variable_t)* v) { return var(v).name.c_str(); }
FMI(value_reference_t) FMI(import_get_variable_vr)(FMI(import_variable_t)* v) { return var(v).vr; }
FMI(base_type_enu_t) FMI(import_get_variable_base_type)(FMI(import_variable_t)* v) { return (FMI(base_type_enu_t))var(v).type; }
FMI(causality_enu_t) FMI(import_get_causality)(FMI(import_variable_t)* v) { return (FMI(causality_enu_t))var(v).causality; }
FMI(variability_enu_t) FMI(import_get_variability)(FMI(import_variable_t)* v) { return (FMI(variability_enu_t))var(v).variability; }
int FMI(import_get_variable_has_start)(FMI(import_variable_t)* v) { return var(v).has_start; }
#define AS(T, F, B) \
    FMI(import_##T##_variable_t)* FMI(import_get_variable_as_##F)(FMI(import_variable_t)* v) { return var(v).type == FMI(base_type_##B) ? (FMI(import_##T##_variable_t)*)v : nullptr; }
AS(real, real, real) AS(integer, integer, int) AS(bool, boolean, bool) AS(string, string, str)
#undef AS
FMI(real_t) FMI(import_get_real_variable_start)(FMI(import_real_variable_t)* v) { CHECK(v != nullptr, "the start value is asked of a variable of its type"); return var(v).real; }
FMI(integer_t) FMI(import_get_integer_variable_start)(FMI(import_integer_variable_t)* v) { CHECK(v != nullptr, "the start value is asked of a variable of its type"); return var(v).integer; }
FMI(boolean_t) FMI(import_get_boolean_variable_start)(FMI(import_bool_variable_t)* v) { CHECK(v != nullptr, "the start value is asked of a variable of its type"); return (FMI(boolean_t))var(v).boolean; }
const char* FMI(import_get_string_variable_start)(FMI(import_string_variable_t)* v) { CHECK(v != nullptr, "the start value is asked of a variable of its type"); return var(v).string.c_str(); }
void FMI(import_destroy_dllfmu)(FMI(import_t)* h) { CHECK(h->state == loaded, "a library is unloaded once, after the instance is freed"); h->state = parsed; --lib.loaded; }
FMI(status_t) FMI(import_do_step)(FMI(import_t)* h, FMI(real_t) t, FMI(real_t) dt, FMI(boolean_t) n)
{
    CHECK(h->state == running, "steps are made between initialisation and termination");
    h->t = t; h->dt = dt; h->new_step = n == 1;
    return (FMI(status_t))FMI(answer)(h, "do_step");
}
static void FMI(refs)(FMI(import_t)* h, const FMI(value_reference_t) r[], size_t n)
{
    CHECK(h->state >= instantiated, "variables are accessed in an instance");
    CHECK(n > 0, "no call is made for no variables");
    h->refs.assign(r, r + n);
}
#define GETSET(T, F) \
    FMI(status_t) FMI(import_get_##T)(FMI(import_t)* h, const FMI(value_reference_t) r[], size_t n, FMI(T##_t) v[]) \
    { \
        FMI(refs)(h, r, n); h->what = "get_" #T; \
        int s = FMI(answer)(h, "get"); \
        if (s <= 1) for (size_t i = 0; i < n; ++i) v[i] = (FMI(T##_t))h->F[i]; \
        return (FMI(status_t))s; \
    } \
    FMI(status_t) FMI(import_set_##T)(FMI(import_t)* h, const FMI(value_reference_t) r[], size_t n, const FMI(T##_t) v[]) \
    { \
        FMI(refs)(h, r, n); h->what = "set_" #T; \
        h->F.clear(); \
        for (size_t i = 0; i < n; ++i) h->F.push_back(v[i]); \
        return (FMI(status_t))FMI(answer)(h, "set"); \
    }
GETSET(real, reals) GETSET(integer, integers) GETSET(boolean, booleans)
#undef GETSET
FMI(status_t) FMI(import_get_string)(FMI(import_t)* h, const FMI(value_reference_t) r[], size_t n, FMI(string_t) v[])
{
    FMI(refs)(h, r, n); h->what = "get_string";
    int s = FMI(answer)(h, "get");
    if (s <= 1) for (size_t i = 0; i < n; ++i) v[i] = h->null_string[i] ? nullptr : h->strings[i].c_str();
    return (FMI(status_t))s;
}
FMI(status_t) FMI(import_set_string)(FMI(import_t)* h, const FMI(value_reference_t) r[], size_t n, const FMI(string_t) v[])
{
    FMI(refs)(h, r, n); h->what = "set_string";
    h->strings.clear();
    for (size_t i = 0; i < n; ++i) h->strings.push_back(v[i]);
    return (FMI(status_t))FMI(answer)(h, "set");
}
}
