// Building configuration documents: numbers that may be symbolic, required pieces that may be left out, models to look up.
#pragma once
#include "sim.hpp"
#include "scratch.hpp"
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>
#include <cosim/uri.hpp>
#include <algorithm>
#include <cstdio>
#include <optional>
using fvn = cosim::full_variable_name;
// a number in a document: as text for the real parsers, as a token that names the (possibly symbolic) value for the models of them
inline std::string num(double v)
{
#ifdef SYM_ENGINE
    return std::_sh_token('d', sym_double_bits(v));
#else
    char b[64]; snprintf(b, sizeof b, "%.17g", v); return b;
#endif
}
inline std::string num(int v)
{
#ifdef SYM_ENGINE
    return std::_sh_token('i', (unsigned long long)(long long)v);
#else
    return std::to_string(v);
#endif
}
// a double of the given number of significant bits, scaled to be in the order of magnitude of times in seconds
inline double sym_seconds(const char* n) { return (double)(int64_t)sym_make(n, 30) / 1048576.0; }
inline double sym_finite(const char* n) { uint64_t u = sym_u64(n), e = (u >> 52) & 0x7ff; sym_assume((e != 0x7ff) & (e != 0)); return sym_bits_double(u); }
inline std::string q(const std::string& name, const std::string& v) { return " " + name + "=\"" + v + "\""; }
// documents with one required piece missing: pieces are numbered by the caller
struct pieces
{
    int drop = -1;
    std::string operator()(int i, const std::string& s) const { return i == drop ? "" : s; }
};
struct a_model : cosim::model
{
    std::shared_ptr<cosim::model_description> d = std::make_shared<cosim::model_description>();
    explicit a_model(std::string uuid) { d->name = "model"; d->uuid = std::move(uuid); }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return d; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
    void add(const std::string& n, value_reference r, variable_type t, variable_causality c, variable_variability v = cosim::discrete) { d->variables.push_back(vd(n, r, t, c, v)); }
};
// knows the files directly in the configuration's directory
struct a_resolver : cosim::model_uri_sub_resolver
{
    std::vector<std::pair<std::string, std::shared_ptr<a_model>>> models; // file name -> model
    std::vector<std::string> asked;
    std::string directory; // path of the directory the models are in, empty: any
    std::function<void()> on_lookup;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        std::string s(u.view()); asked.push_back(s);
        if (on_lookup) on_lookup();
        for (auto& m : models) {
            if (directory.empty()) { if (s.size() > m.first.size() && s.compare(s.size() - m.first.size() - 1, std::string::npos, "/" + m.first) == 0) return m.second; }
            else if (s == "file://" + directory + "/" + m.first) return m.second;
        }
        return nullptr;
    }
};
inline bool same(const fvn& a, const fvn& b)
{
    return a.entity_name == b.entity_name && a.variable_group_name == b.variable_group_name && a.variable_name == b.variable_name && (a.variable_group_name.empty() || (a.variable_group_instance == b.variable_group_instance && a.variable_instance == b.variable_instance));
}
using links = std::vector<std::pair<fvn, fvn>>;
inline bool has_connections(const cosim::system_structure& s, const links& want)
{
    size_t n = 0;
    for (const auto c : s.connections()) {
        ++n;
        if (std::none_of(want.begin(), want.end(), [&](auto& w) { return same(w.first, c.source) && same(w.second, c.target); })) return false;
    }
    return n == want.size();
}
inline size_t entity_count(const cosim::system_structure& s) { size_t n = 0; for (const auto& e : s.entities()) { (void)e; ++n; } return n; }
inline const cosim::system_structure::entity* find_entity(const cosim::system_structure& s, const std::string& name) { for (const auto& e : s.entities()) if (e.name == name) return &e; return nullptr; }
inline bool same_scalar(const cosim::scalar_value& a, const cosim::scalar_value& b)
{
    if (a.index() != b.index()) return false;
    if (auto d = std::get_if<double>(&a)) return sym_double_bits(*d) == sym_double_bits(std::get<double>(b));
    return a == b;
}
struct init { fvn v; cosim::scalar_value x; };
inline bool has_values(const cosim::variable_value_map& m, const std::vector<init>& want) // later ones replace earlier ones
{
    std::vector<init> w;
    for (auto& i : want) { bool had = false; for (auto& j : w) if (same(j.v, i.v)) { j.x = i.x; had = true; } if (!had) w.push_back(i); }
    if (m.size() != w.size()) return false;
    for (auto& i : w) { auto it = m.find(i.v); if (it == m.end() || !same_scalar(it->second, i.x)) return false; }
    return true;
}
