// Fake slaves, functions and observers shared by the harnesses that run whole executions.
#pragma once
#include "sym.h"
#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/function.hpp>
#include <cosim/manipulator/manipulator.hpp>
#include <cosim/model_description.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>
#include <cosim/time.hpp>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using cosim::duration;
using cosim::time_point;
using cosim::value_reference;
using cosim::variable_causality;
using cosim::variable_type;
using cosim::variable_variability;
inline time_point tp(int64_t ns) { return time_point(duration(ns)); }
inline int64_t ns(time_point t) { return t.time_since_epoch().count(); }
// a value of any type, compared bit for bit
struct val
{
    variable_type type = variable_type::real;
    uint64_t bits = 0; // real: the bit pattern, integer, boolean
    std::string text;
    bool operator==(const val& o) const { return type == o.type && (type == variable_type::string ? text == o.text : bits == o.bits); }
    bool operator!=(const val& o) const { return !(*this == o); }
    double real() const { return sym_bits_double(bits); }
    int integer() const { return (int)(uint32_t)bits; }
    bool boolean() const { return bits != 0; }
};
inline val vr(double d) { return {variable_type::real, sym_double_bits(d), {}}; }
inline val vi(int i) { return {variable_type::integer, (uint32_t)i, {}}; }
inline val vb(bool b) { return {variable_type::boolean, b ? 1u : 0u, {}}; }
inline val vs(std::string_view s) { return {variable_type::string, 0, std::string(s)}; }
constexpr variable_type all_types[4] = {variable_type::real, variable_type::integer, variable_type::boolean, variable_type::string};
// an arbitrary value of the given type: every bit pattern, strings of `len` arbitrary bytes
inline val sym_val(const char* n, variable_type t, int len = 2)
{
    switch (t) {
        case variable_type::real: return {t, sym_u64(n), {}};
        case variable_type::integer: return {t, sym_u32(n), {}};
        case variable_type::boolean: return {t, (uint64_t)sym_make(n, 1), {}};
        default: { val v; v.type = t; v.text = sym_bytes(n, len); return v; }
    }
}
inline val zero_val(variable_type t) { val v; v.type = t; return v; }
inline cosim::scalar_value scalar(const val& v)
{
    switch (v.type) {
        case variable_type::real: return v.real();
        case variable_type::integer: return v.integer();
        case variable_type::boolean: return v.boolean();
        default: return v.text;
    }
}
inline cosim::variable_description vd(std::string name, value_reference ref, variable_type t, variable_causality c, variable_variability v = cosim::discrete)
{
    cosim::variable_description d;
    d.name = std::move(name); d.reference = ref; d.type = t; d.causality = c; d.variability = v;
    return d;
}
struct event
{
    char op;        // U setup, S start, D do_step, W a variable is written
    int64_t t = 0;  // time (U, D)
    int64_t dt = 0; // step length (D)
    value_reference ref = 0;
    val v;
};
constexpr int MAXREF = 6;
struct fake_slave : cosim::slave
{
    cosim::model_description md;
    val var[4][MAXREF];            // the slave's variables
    std::vector<event> log;
    int steps = 0;
    std::function<void(fake_slave&, int)> on_step; // after step number n (1, 2, ...); 0: at start_simulation
    std::function<void(fake_slave&)> on_read;      // before variables are read
    std::function<void(fake_slave&)> on_setup;
    cosim::step_result result = cosim::step_result::complete;
    int setups = 0, starts = 0;
    fake_slave() { for (int t = 0; t < 4; ++t) for (auto& v : var[t]) v = zero_val(all_types[t]); md.name = "m"; }
    void add(const std::string& name, value_reference ref, variable_type t, variable_causality c) { md.variables.push_back(vd(name, ref, t, c)); }
    val& at(variable_type t, value_reference r) { return var[(int)t][r]; }
    cosim::model_description model_description() const override { return md; }
    void setup(time_point start, std::optional<time_point>, std::optional<double>) override
    {
        ++setups;
        if (on_setup) on_setup(*this);
        log.push_back({'U', ns(start)});
    }
    void start_simulation() override { ++starts; log.push_back({'S'}); if (on_step) on_step(*this, 0); }
    void end_simulation() override { log.push_back({'E'}); }
    cosim::step_result do_step(time_point t, duration dt) override
    {
        log.push_back({'D', ns(t), dt.count()});
        ++steps;
        if (on_step) on_step(*this, steps);
        return result;
    }
    template<typename T> void get(variable_type t, gsl::span<const value_reference> r, gsl::span<T> v) const
    {
        if (on_read) on_read(*const_cast<fake_slave*>(this));
        for (int i = 0; i < (int)r.size(); ++i) {
            if (r[i] >= MAXREF) sym_fail("a slave was asked for an unknown variable");
            const val& x = var[(int)t][r[i]];
            if constexpr (std::is_same_v<T, double>) v[i] = x.real();
            else if constexpr (std::is_same_v<T, int>) v[i] = x.integer();
            else if constexpr (std::is_same_v<T, bool>) v[i] = x.boolean();
            else v[i] = x.text;
        }
    }
    template<typename T> void set(variable_type t, gsl::span<const value_reference> r, gsl::span<const T> v)
    {
        for (int i = 0; i < (int)r.size(); ++i) {
            if (r[i] >= MAXREF) sym_fail("a slave was given an unknown variable");
            val x;
            if constexpr (std::is_same_v<T, double>) x = vr(v[i]);
            else if constexpr (std::is_same_v<T, int>) x = vi(v[i]);
            else if constexpr (std::is_same_v<T, bool>) x = vb(v[i]);
            else x = vs(v[i]);
            var[(int)t][r[i]] = x;
            log.push_back({'W', 0, 0, r[i], x});
        }
    }
    void get_real_variables(gsl::span<const value_reference> r, gsl::span<double> v) const override { get(variable_type::real, r, v); }
    void get_integer_variables(gsl::span<const value_reference> r, gsl::span<int> v) const override { get(variable_type::integer, r, v); }
    void get_boolean_variables(gsl::span<const value_reference> r, gsl::span<bool> v) const override { get(variable_type::boolean, r, v); }
    void get_string_variables(gsl::span<const value_reference> r, gsl::span<std::string> v) const override { get(variable_type::string, r, v); }
    void set_real_variables(gsl::span<const value_reference> r, gsl::span<const double> v) override { set(variable_type::real, r, v); }
    void set_integer_variables(gsl::span<const value_reference> r, gsl::span<const int> v) override { set(variable_type::integer, r, v); }
    void set_boolean_variables(gsl::span<const value_reference> r, gsl::span<const bool> v) override { set(variable_type::boolean, r, v); }
    void set_string_variables(gsl::span<const value_reference> r, gsl::span<const std::string> v) override { set(variable_type::string, r, v); }
};
// an observer that records what it is told
struct note { char op; int64_t a = 0, b = 0, c = 0, d = 0; };
struct fake_observer : cosim::observer
{
    std::vector<note> log;
    std::vector<int>* order = nullptr; // shared order of notifications among observers
    int id = 0;
    std::function<void(cosim::simulator_index, cosim::observable*)> on_added;
    std::function<void()> on_step;
    void simulator_added(cosim::simulator_index i, cosim::observable* o, time_point t) override { log.push_back({'A', i, ns(t)}); if (on_added) on_added(i, o); }
    void simulator_removed(cosim::simulator_index i, time_point t) override { log.push_back({'X', i, ns(t)}); }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override {}
    void variable_disconnected(cosim::variable_id, time_point) override {}
    void simulation_initialized(cosim::step_number s, time_point t) override { if (order) order->push_back(id); log.push_back({'I', s, ns(t)}); }
    void step_complete(cosim::step_number s, duration d, time_point t) override { if (order) order->push_back(id); log.push_back({'C', s, d.count(), ns(t)}); if (on_step) on_step(); }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number s, duration d, time_point t) override { if (order) order->push_back(id); log.push_back({'F', i, s, d.count(), ns(t)}); }
};
struct fake_manipulator : cosim::manipulator
{
    std::vector<note> log;
    std::function<void(cosim::simulator_index, cosim::manipulable*)> on_added;
    std::function<void(int64_t)> on_commence;
    void simulator_added(cosim::simulator_index i, cosim::manipulable* m, time_point t) override { log.push_back({'A', i, ns(t)}); if (on_added) on_added(i, m); }
    void simulator_removed(cosim::simulator_index i, time_point t) override { log.push_back({'X', i, ns(t)}); }
    void step_commencing(time_point t) override { log.push_back({'B', ns(t)}); if (on_commence) on_commence(ns(t)); }
};
// a function with one input and one output per type (io index = type), any number of evaluations
struct fake_function : cosim::function
{
    val in[4], out[4];
    int evaluations = 0, sets = 0;
    std::function<void(fake_function&)> on_calculate;
    cosim::function_description desc;
    fake_function()
    {
        for (int t = 0; t < 4; ++t) in[t] = out[t] = zero_val(all_types[t]);
        cosim::function_io_group_description gi, go;
        gi.name = "in"; gi.count = 1; go.name = "out"; go.count = 1;
        for (int t = 0; t < 4; ++t) {
            gi.ios.push_back({cosim::to_text(all_types[t]), all_types[t], variable_causality::input, 1});
            go.ios.push_back({cosim::to_text(all_types[t]), all_types[t], variable_causality::output, 1});
        }
        desc.io_groups = {gi, go};
    }
    cosim::function_description description() const override { return desc; }
    void ck(const cosim::function_io_reference& r, int group, variable_type t) const { CHECK(r.group == group && r.group_instance == 0 && r.io == (int)t && r.io_instance == 0, "function called with the right variable"); }
    void set_real(const cosim::function_io_reference& r, double v) override { ck(r, 0, variable_type::real); in[0] = vr(v); ++sets; }
    void set_integer(const cosim::function_io_reference& r, int v) override { ck(r, 0, variable_type::integer); in[1] = vi(v); ++sets; }
    void set_boolean(const cosim::function_io_reference& r, bool v) override { ck(r, 0, variable_type::boolean); in[2] = vb(v); ++sets; }
    void set_string(const cosim::function_io_reference& r, std::string_view v) override { ck(r, 0, variable_type::string); in[3] = vs(v); ++sets; }
    double get_real(const cosim::function_io_reference& r) const override { ck(r, 1, variable_type::real); return out[0].real(); }
    int get_integer(const cosim::function_io_reference& r) const override { ck(r, 1, variable_type::integer); return out[1].integer(); }
    bool get_boolean(const cosim::function_io_reference& r) const override { ck(r, 1, variable_type::boolean); return out[2].boolean(); }
    std::string_view get_string(const cosim::function_io_reference& r) const override { ck(r, 1, variable_type::string); return out[3].text; }
    void calculate() override { ++evaluations; if (on_calculate) on_calculate(*this); }
};
inline cosim::function_io_id fin(cosim::function_index f, variable_type t) { return {f, t, cosim::function_io_reference{0, 0, (int)t, 0}}; }
inline cosim::function_io_id fout(cosim::function_index f, variable_type t) { return {f, t, cosim::function_io_reference{1, 0, (int)t, 0}}; }
// access to simulators by variable type
inline val get_value(const cosim::observable& o, variable_type t, value_reference r)
{
    switch (t) {
        case variable_type::real: return vr(o.get_real(r));
        case variable_type::integer: return vi(o.get_integer(r));
        case variable_type::boolean: return vb(o.get_boolean(r));
        default: return vs(o.get_string(r));
    }
}
template<typename S> void set_value(S& s, value_reference r, const val& v)
{
    switch (v.type) {
        case variable_type::real: s.set_real(r, v.real()); break;
        case variable_type::integer: s.set_integer(r, v.integer()); break;
        case variable_type::boolean: s.set_boolean(r, v.boolean()); break;
        default: s.set_string(r, v.text);
    }
}
using modifier = std::function<val(const val&, duration)>;
inline void set_modifier(cosim::manipulable& s, bool input, variable_type t, value_reference r, modifier f)
{
    switch (t) {
        case variable_type::real: { std::function<double(double, duration)> g; if (f) g = [f](double x, duration d) { return f(vr(x), d).real(); }; input ? s.set_real_input_modifier(r, g) : s.set_real_output_modifier(r, g); break; }
        case variable_type::integer: { std::function<int(int, duration)> g; if (f) g = [f](int x, duration d) { return f(vi(x), d).integer(); }; input ? s.set_integer_input_modifier(r, g) : s.set_integer_output_modifier(r, g); break; }
        case variable_type::boolean: { std::function<bool(bool, duration)> g; if (f) g = [f](bool x, duration d) { return f(vb(x), d).boolean(); }; input ? s.set_boolean_input_modifier(r, g) : s.set_boolean_output_modifier(r, g); break; }
        default: { std::function<std::string(std::string_view, duration)> g; if (f) g = [f](std::string_view x, duration d) { return f(vs(x), d).text; }; input ? s.set_string_input_modifier(r, g) : s.set_string_output_modifier(r, g); }
    }
}
template<typename S> const auto& modified_variables(const S& s, variable_type t)
{
    switch (t) {
        case variable_type::real: return s.get_modified_real_variables();
        case variable_type::integer: return s.get_modified_integer_variables();
        case variable_type::boolean: return s.get_modified_boolean_variables();
        default: return s.get_modified_string_variables();
    }
}
template<typename F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
