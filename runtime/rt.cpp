// C++ runtime and library pieces that normally live in libstdc++.so / libsupc++ / libc, written for
// symbolic execution.  Linked (as bitcode) with the sources under check.
#include <string>
#include <stdexcept>
#include <exception>
#include <new>
#include <typeinfo>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <system_error>
#include <future>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <random>
#include <cxxabi.h>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <variant>
#include <optional>
#include <any>

extern "C" {
void eng_raise(void*) __attribute__((noreturn));
int eng_thread_self(); int eng_thread_create(void (*)(void*), void*); void eng_thread_join(int);
void eng_wait_changed(void*, unsigned); void eng_cv_wait(void*, void*); int eng_cv_timedwait(void*, void*); void eng_cv_notify_one(void*); void eng_cv_notify_all(void*); void eng_cv_destroy(void*);
long long sym_option(const char*, long long);
void sym_unsupported(const char*);
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
}

// ---------------------------------------------------------------- allocation
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new(size_t n, std::align_val_t) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
namespace std { const nothrow_t nothrow{}; }

// ---------------------------------------------------------------- exceptions
struct Hdr { std::type_info* ti; void (*dtor)(void*); size_t refs; long handlers; void* adj; Hdr* next; long pad[2]; };
static_assert(sizeof(Hdr) == 64, "");
static thread_local Hdr* caught;
static thread_local int uncaught;
static inline Hdr* hdr(void* o) { return (Hdr*)o - 1; }
static void xaddref(void* o) { __atomic_add_fetch(&hdr(o)->refs, 1, __ATOMIC_ACQ_REL); }
static void xrelease(void* o) { if (__atomic_sub_fetch(&hdr(o)->refs, 1, __ATOMIC_ACQ_REL) == 0) { if (hdr(o)->dtor) hdr(o)->dtor(o); free(hdr(o)); } }
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { Hdr* h = (Hdr*)calloc(1, n + 64); return h + 1; }
void __cxa_free_exception(void* o) noexcept { free(hdr(o)); }
__cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* t, void (*d)(void*)) noexcept { Hdr* h = hdr(o); h->ti = t; h->dtor = d; h->refs = 0; return (__cxxabiv1::__cxa_refcounted_exception*)h; }
void __cxa_throw(void* o, std::type_info* t, void (*d)(void*)) { Hdr* h = hdr(o); h->ti = t; h->dtor = d; h->refs = 1; ++uncaught; eng_raise(o); }
void* __cxa_begin_catch(void* o) noexcept
{
    Hdr* h = hdr(o); h->handlers = (h->handlers < 0 ? -h->handlers : h->handlers) + 1; --uncaught;
    if (caught != h) { h->next = caught; caught = h; }
    return h->adj;
}
void* __cxa_get_exception_ptr(void* o) noexcept { return hdr(o)->adj; }
void __cxa_end_catch()
{
    Hdr* h = caught; if (!h) return;
    if (h->handlers < 0) { if (++h->handlers == 0) caught = h->next; }
    else if (--h->handlers == 0) { caught = h->next; xrelease(h + 1); }
}
void __cxa_rethrow() { Hdr* h = caught; if (!h) std::terminate(); h->handlers = -h->handlers; ++uncaught; eng_raise(h + 1); }
std::type_info* __cxa_current_exception_type() noexcept { return caught ? caught->ti : nullptr; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_deleted_virtual() { std::terminate(); }
int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
    unsigned* w = (unsigned*)g + 1;
    for (;;) {
        if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) return 0;
        unsigned e = 0;
        if (__atomic_compare_exchange_n(w, &e, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            if (!__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) return 1;
            __atomic_store_n(w, 0, __ATOMIC_RELEASE);
            return 0;
        }
        eng_wait_changed(w, 1);
    }
}
void __cxa_guard_release(__cxxabiv1::__guard* g) { __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); __atomic_store_n((unsigned*)g + 1, 0, __ATOMIC_RELEASE); }
void __cxa_guard_abort(__cxxabiv1::__guard* g) { __atomic_store_n((unsigned*)g + 1, 0, __ATOMIC_RELEASE); }
}
__cxxabiv1::__forced_unwind::~__forced_unwind() noexcept {}
__cxxabiv1::__foreign_exception::~__foreign_exception() noexcept {}
__cxxabiv1::__fundamental_type_info::~__fundamental_type_info() {}
__cxxabiv1::__pointer_type_info::~__pointer_type_info() {}
__cxxabiv1::__function_type_info::~__function_type_info() {}
__cxxabiv1::__enum_type_info::~__enum_type_info() {}
__cxxabiv1::__array_type_info::~__array_type_info() {}
__cxxabiv1::__pbase_type_info::~__pbase_type_info() {}
bool __cxxabiv1::__pbase_type_info::__do_catch(const std::type_info*, void**, unsigned) const { return false; }
bool __cxxabiv1::__pointer_type_info::__is_pointer_p() const { return true; }
bool __cxxabiv1::__pointer_type_info::__pointer_catch(const __pbase_type_info*, void**, unsigned) const { return false; }
bool __cxxabiv1::__function_type_info::__is_function_p() const { return true; }
__cxxabiv1::__class_type_info::~__class_type_info() {}
__cxxabiv1::__si_class_type_info::~__si_class_type_info() {}
__cxxabiv1::__vmi_class_type_info::~__vmi_class_type_info() {}
bool __cxxabiv1::__class_type_info::__do_upcast(const __class_type_info*, void**) const { return false; }
bool __cxxabiv1::__class_type_info::__do_catch(const std::type_info*, void**, unsigned) const { return false; }
bool __cxxabiv1::__class_type_info::__do_upcast(const __class_type_info*, const void*, __upcast_result&) const { return false; }
bool __cxxabiv1::__si_class_type_info::__do_upcast(const __class_type_info*, const void*, __upcast_result&) const { return false; }
bool __cxxabiv1::__vmi_class_type_info::__do_upcast(const __class_type_info*, const void*, __upcast_result&) const { return false; }
bool __cxxabiv1::__class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info*, const void*, const __class_type_info*, const void*, __dyncast_result&) const { return false; }
bool __cxxabiv1::__si_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info*, const void*, const __class_type_info*, const void*, __dyncast_result&) const { return false; }
bool __cxxabiv1::__vmi_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info*, const void*, const __class_type_info*, const void*, __dyncast_result&) const { return false; }
__cxxabiv1::__class_type_info::__sub_kind __cxxabiv1::__class_type_info::__do_find_public_src(ptrdiff_t, const void*, const __class_type_info*, const void*) const { return __unknown; }
__cxxabiv1::__class_type_info::__sub_kind __cxxabiv1::__si_class_type_info::__do_find_public_src(ptrdiff_t, const void*, const __class_type_info*, const void*) const { return __unknown; }
__cxxabiv1::__class_type_info::__sub_kind __cxxabiv1::__vmi_class_type_info::__do_find_public_src(ptrdiff_t, const void*, const __class_type_info*, const void*) const { return __unknown; }
std::type_info::~type_info() {}
bool std::type_info::__is_pointer_p() const { return false; }
bool std::type_info::__is_function_p() const { return false; }
bool std::type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool std::type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

namespace std
{
int uncaught_exceptions() noexcept { return ::uncaught; }
bool uncaught_exception() noexcept { return ::uncaught > 0; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static char* dup_(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static size_t dlen_(const char* s) { return s ? strlen(s) : 0; }
__cow_string::__cow_string() : _M_p(dup_("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dup_(s.c_str(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dup_(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup_(o._M_p, dlen_(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (&o != this) { free((void*)_M_p); _M_p = dup_(o._M_p, dlen_(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dup_("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define ERR_ROOT(T) \
    T::T(const std::string& s) : _M_msg(s) {} T::T(const char* s) : _M_msg(s, strlen(s)) {} T::T(const T& o) noexcept : _M_msg(o._M_msg) {} \
    T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : _M_msg(o._M_msg) {} T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } \
    T::~T() noexcept {} const char* T::what() const noexcept { return _M_msg._M_p; }
ERR_ROOT(logic_error)
ERR_ROOT(runtime_error)
#define ERR_SUB(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
ERR_SUB(domain_error, logic_error)
ERR_SUB(invalid_argument, logic_error)
ERR_SUB(length_error, logic_error)
ERR_SUB(out_of_range, logic_error)
ERR_SUB(range_error, runtime_error)
ERR_SUB(overflow_error, runtime_error)
ERR_SUB(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code((future_errc)e)); }

// error categories
inline namespace _V2
{
error_category::~error_category() noexcept {}
__cow_string error_category::_M_message(int i) const { return __cow_string(message(i)); }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
}
namespace
{
string errtext(int e) { string r = "errno "; if (e < 0) { r += '-'; e = -e; } char b[12]; int k = 12; do { b[--k] = char('0' + e % 10); e /= 10; } while (e); r.append(b + k, 12 - k); return r; }
struct gcat : error_category { const char* name() const noexcept override { return "generic"; } string message(int e) const override { return errtext(e); } };
struct scat : error_category { const char* name() const noexcept override { return "system"; } string message(int e) const override { return errtext(e); } error_condition default_error_condition(int e) const noexcept override { return error_condition(e, generic_category()); } };
struct fcat : error_category { const char* name() const noexcept override { return "future"; } string message(int e) const override { return errtext(e); } };
template<class T> struct forever { union { T t; }; constexpr forever() : t() {} ~forever() {} };
const forever<gcat> g_; const forever<scat> s_; const forever<fcat> f_;
}
inline namespace _V2
{
const error_category& generic_category() noexcept { return g_.t; }
const error_category& system_category() noexcept { return s_.t; }
}
const error_category& future_category() noexcept { return f_.t; }
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return logic_error::what(); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

// exception_ptr
namespace __exception_ptr
{
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) xaddref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { xrelease(_M_exception_object); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
exception_ptr current_exception() noexcept { return caught ? exception_ptr((void*)(caught + 1)) : exception_ptr(); }
void rethrow_exception(exception_ptr e) { void* o = e._M_get(); if (!o) std::terminate(); xaddref(o); e.~exception_ptr(); new (&e) exception_ptr(); ++uncaught; eng_raise(o); }
nested_exception::~nested_exception() noexcept {}
}

// ---------------------------------------------------------------- containers
namespace std
{
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root)
{
    auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    auto*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto const pp = x->_M_parent->_M_parent;
        if (x->_M_parent == pp->_M_left) {
            auto const y = pp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; pp->_M_color = _S_red; x = pp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; pp->_M_color = _S_red; rotr(pp, root); }
        } else {
            auto const y = pp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; pp->_M_color = _S_red; x = pp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; pp->_M_color = _S_red; rotl(pp, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
{
    auto*& root = h._M_parent; auto*& leftmost = h._M_left; auto*& rightmost = h._M_right;
    auto y = z; _Rb_tree_node_base *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                auto w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
                }
            } else {
                auto w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
static const unsigned primes_[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = (size_t)__builtin_floor(fast[n] * (double)_M_max_load_factor); return fast[n]; }
    for (unsigned p : primes_) if (p >= n) { _M_next_resize = (size_t)__builtin_floor(p * (double)_M_max_load_factor); return p; }
    sym_unsupported("hash table too large"); return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        double m = (double)std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
        if (m >= nb) return {true, _M_next_bkt(std::max<size_t>((size_t)__builtin_floor(m) + 1, nb * 2))};
        _M_next_resize = (size_t)__builtin_floor(nb * (double)_M_max_load_factor);
    }
    return {false, 0};
}
}
// MurmurHash2, 64 bit, as in libstdc++; option const_hash makes all hashes equal (symbolic keys)
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed)
{
    if (sym_option("const_hash", 0)) return 0;
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char* const buf = (const char*)ptr; const size_t al = len & ~(size_t)7; const char* const end = buf + al;
    size_t hash = seed ^ (len * mul);
    for (const char* p = buf; p != end; p += 8) { size_t d; memcpy(&d, p, 8); d *= mul; d = (d ^ (d >> 47)) * mul; hash ^= d; hash *= mul; }
    if ((len & 7) != 0) { size_t d = 0; for (int n = (int)(len & 7) - 1; n >= 0; --n) d = (d << 8) + (unsigned char)end[n]; hash ^= d; hash *= mul; }
    hash = (hash ^ (hash >> 47)) * mul; hash = hash ^ (hash >> 47);
    return hash;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }
// { return v != 0.0 ? std::_Hash_bytes(&v, 8, 0xc70f6907UL) : 0; }
// { return v != 0.0f ? std::_Hash_bytes(&v, 4, 0xc70f6907UL) : 0; }
template class __cxx11::basic_string<char>;
template class __cxx11::basic_string<wchar_t>;

// ---------------------------------------------------------------- threads
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept { eng_cv_destroy(this); }
void condition_variable::notify_one() noexcept { eng_cv_notify_one(this); }
void condition_variable::notify_all() noexcept { eng_cv_notify_all(this); }
void condition_variable::wait(unique_lock<mutex>& l) { eng_cv_wait(this, l.mutex()->native_handle()); }
thread::_State::~_State() = default;

void thread::_M_start_thread(_State_ptr s, void (*)()) { int t = eng_thread_create([](void* p) { _State_ptr s((_State*)p); try { s->_M_run(); } catch (...) { std::terminate(); } }, s.release()); _M_id._M_thread = (unsigned long)t + 1; }
void thread::join() { if (!joinable()) __throw_system_error(EINVAL); if ((int)_M_id._M_thread - 1 == eng_thread_self()) __throw_system_error(EDEADLK); eng_thread_join((int)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { if (!joinable()) __throw_system_error(EINVAL); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)sym_option("hardware_concurrency", 2); }
namespace chrono { inline namespace _V2 {
long long rt_clock_ = 1000000000ll;
}}
}
extern "C" long long sym_clock_now(void) __attribute__((weak));
extern "C" void sym_clock_sleep(long long) __attribute__((weak));
static long long clk() { return sym_clock_now ? sym_clock_now() : (std::chrono::rt_clock_ += 1000); }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(clk())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clk())); }
}}
// futures
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { eng_wait_changed(a, v); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { eng_wait_changed(a, v); return true; }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { static unsigned n = 12345; return n = n * 1664525u + 1013904223u; }
}
extern "C" int* __errno_location() noexcept { static thread_local int e; return &e; }
extern "C" void rt_sleep_(long long n) { if (sym_clock_sleep) sym_clock_sleep(n); else std::chrono::rt_clock_ += n; }
