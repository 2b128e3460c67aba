// Queries over floating-point terms, as a relaxation over integers and reals: every rounded operation becomes a
// real within the rounding error of the exact result (2^-53 of it, exact where the result is known to be
// representable), everything that is not translated is left unconstrained.  Unsatisfiable here therefore means
// unsatisfiable; a model is only a candidate, which the caller evaluates with the real operations.
#include "solver.h"
#include <z3++.h>
#include <cmath>
#include <cstring>
#include <map>
#include <tuple>
#include <vector>

namespace {
typedef z3::expr E;
struct Real { E v, nan; };
struct Range { s128 lo, hi; };

std::string dec(s128 v) { bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u); return n ? "-" + s : s; }
std::string pow2(unsigned k) { // decimal digits of 2^k
    std::string s = "1";
    for (unsigned i = 0; i < k; ++i) { int c = 0; for (size_t j = s.size(); j-- > 0;) { int d = (s[j] - '0') * 2 + c; s[j] = (char)('0' + d % 10); c = d / 10; } if (c) s.insert(s.begin(), (char)('0' + c)); }
    return s;
}

struct Relax {
    z3::context c;
    z3::solver s;
    std::map<uint32_t, E> ints, bools;   // by expression id; ints: signed value
    std::map<uint32_t, E> uns;
    std::map<uint32_t, Real> reals;
    std::map<uint32_t, E> symInt, symReal; // by symbol
    struct Gran { bool known; int sc; long double mag; u128 odd = 1; };
    static u128 gcd(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
    // a number that divides the signed value (0 for zero)
    u128 content(Ex e, int depth = 0) {
        if (e->w > 64 || depth > 30) return 1;
        auto fits = [&](s128 lo, s128 hi) { return lo >= -lim(e->w) && hi < lim(e->w); };
        switch (e->op) {
        case Op::Const: { s128 v = sextW(e->val, e->w); return v < 0 ? (u128)-v : (u128)v; }
        case Op::SExt: return content(e->k[0], depth + 1);
        case Op::Ite: return gcd(content(e->k[1], depth + 1), content(e->k[2], depth + 1));
        case Op::Mul: if (isConst(e->k[1])) { s128 f = sextW(e->k[1]->val, e->w); Range a = range(e->k[0]); u128 c = content(e->k[0], depth + 1), g = (u128)(f < 0 ? -f : f); if (c && c < ((u128)1 << 62) && g < ((u128)1 << 62) && fits(std::min(f * a.lo, f * a.hi), std::max(f * a.lo, f * a.hi))) return c * g; } return 1;
        case Op::Add: { Range a = range(e->k[0]), b = range(e->k[1]); return fits(a.lo + b.lo, a.hi + b.hi) ? gcd(content(e->k[0], depth + 1), content(e->k[1], depth + 1)) : 1; }
        case Op::Sub: { Range a = range(e->k[0]), b = range(e->k[1]); return fits(a.lo - b.hi, a.hi - b.lo) ? gcd(content(e->k[0], depth + 1), content(e->k[1], depth + 1)) : 1; }
        default: return 1;
        }
    }
    std::map<uint32_t, Gran> grans;
    int fresh = 0;
    bool margin = false; // look for a model that is not close to any comparison, computing without rounding
    Relax() : s(c) { }
    E num(s128 v) { return c.int_val(dec(v).c_str()); }
    E freshInt() { return c.int_const(("i" + std::to_string(fresh++)).c_str()); }
    E freshReal() { return c.real_const(("r" + std::to_string(fresh++)).c_str()); }
    E freshBool() { return c.bool_const(("b" + std::to_string(fresh++)).c_str()); }
    static s128 lim(unsigned w) { return (s128)1 << (w - 1); }

    std::map<uint32_t, Range> ranges;
    Range full(unsigned w) { return {-lim(w), lim(w) - 1}; }
    Range range(Ex e) { // of the signed value
        auto it = ranges.find(e->id); if (it != ranges.end()) return it->second;
        Range r = full(e->w > 100 ? 100 : e->w);
        auto fit = [&](s128 lo, s128 hi) { if (lo >= -lim(e->w) && hi < lim(e->w)) r = {lo, hi}; };
        if (e->w <= 64) switch (e->op) {
        case Op::Const: { s128 v = sextW(e->val, e->w); r = {v, v}; break; }
        case Op::ZExt: if (e->k[0]->w < 100) { Range x = range(e->k[0]); if (x.lo >= 0) r = x; else r = {0, ((s128)1 << e->k[0]->w) - 1}; } break;
        case Op::SExt: r = range(e->k[0]); break;
        case Op::Ite: { Range a = range(e->k[1]), b = range(e->k[2]); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
        case Op::Add: case Op::Sub: case Op::Mul: { // linear normal form, so that common terms cancel
            std::map<uint32_t, std::pair<Ex, s128>> m; s128 k = 0; bool ok = true; lin(e, 1, m, k, ok, 0);
            if (ok) { long double lo = (long double)k, hi = lo; s128 l = k, h = k; for (auto& t : m) { if (!t.second.second) continue; Range x = t.second.first == e ? full(e->w) : range(t.second.first); s128 f = t.second.second; long double a = (long double)f * x.lo, b = (long double)f * x.hi; lo += std::min(a, b); hi += std::max(a, b); if (lo < -1e30L || hi > 1e30L) { ok = false; break; } l += f > 0 ? f * x.lo : f * x.hi; h += f > 0 ? f * x.hi : f * x.lo; } if (ok) fit(l, h); }
            break; }
        case Op::SDiv: if (isConst(e->k[1]) && sextW(e->k[1]->val, e->w) > 0) { s128 d = sextW(e->k[1]->val, e->w); Range a = range(e->k[0]); r = {a.lo / d, a.hi / d}; } break;
        default: break;
        }
        return ranges.emplace(e->id, r).first->second;
    }
    void lin(Ex e, s128 f, std::map<uint32_t, std::pair<Ex, s128>>& m, s128& k, bool& ok, int d) {
        if (!ok || f > ((s128)1 << 60) || f < -((s128)1 << 60) || d > 200) { ok = false; return; }
        if (e->op == Op::Const) { s128 v = sextW(e->val, e->w); if (v > ((s128)1 << 62) || v < -((s128)1 << 62)) { ok = false; return; } k += f * v; return; }
        if (e->op == Op::Add) { lin(e->k[0], f, m, k, ok, d + 1); lin(e->k[1], f, m, k, ok, d + 1); return; }
        if (e->op == Op::Sub) { lin(e->k[0], f, m, k, ok, d + 1); lin(e->k[1], -f, m, k, ok, d + 1); return; }
        if (e->op == Op::Mul && isConst(e->k[1])) { lin(e->k[0], f * sextW(e->k[1]->val, e->w), m, k, ok, d + 1); return; }
        auto it = m.emplace(e->id, std::make_pair(e, (s128)0)).first; it->second.second += f;
    }

    E unsignedOf(Ex e) {
        auto it = uns.find(e->id); if (it != uns.end()) return it->second;
        E r(c);
        if (e->op == Op::Sym) {
            auto j = symInt.find(e->aux);
            if (j == symInt.end()) { E v = c.int_const(("s" + std::to_string(e->aux)).c_str()); s.add(v >= 0 && v < num((s128)1 << e->w)); j = symInt.emplace(e->aux, v).first; }
            r = j->second;
        } else if (e->op == Op::ZExt) r = unsignedOf(e->k[0]);
        else { E v = intOf(e); r = range(e).lo >= 0 ? v : z3::ite(v < 0, v + num((s128)1 << e->w), v); }
        return uns.emplace(e->id, r).first->second;
    }
    E wrap(E t, unsigned w, Range x, bool known) { // the signed value of t modulo 2^w
        if (known && x.lo >= -lim(w) && x.hi < lim(w)) return t;
        E k = freshInt(), r = t - num((s128)1 << w) * k;
        s.add(r >= num(-lim(w)) && r < num(lim(w)));
        return r;
    }
    E truncDiv(E t, s128 d) { E q = freshInt(); s.add(z3::ite(t >= 0, num(d) * q <= t && t < num(d) * q + num(d), num(d) * q - num(d) < t && t <= num(d) * q)); return q; }
    E intOf(Ex e) {
        auto it = ints.find(e->id); if (it != ints.end()) return it->second;
        E r(c); bool done = false;
        auto any = [&] { r = freshInt(); s.add(r >= num(-lim(e->w)) && r < num(lim(e->w))); done = true; };
        if (e->w > 64) any();
        else if (e->w == 1) { E b = boolOf(e); r = z3::ite(b, c.int_val(-1), c.int_val(0)); done = true; }
        else switch (e->op) {
        case Op::Const: r = num(sextW(e->val, e->w)); done = true; break;
        case Op::Sym: { E u = unsignedOf(e); r = z3::ite(u >= num(lim(e->w)), u - num((s128)1 << e->w), u); done = true; break; }
        case Op::ZExt: if (e->k[0]->w == 1) r = z3::ite(boolOf(e->k[0]), c.int_val(1), c.int_val(0)); else r = unsignedOf(e->k[0]); done = true; break;
        case Op::SExt: r = intOf(e->k[0]); done = true; break;
        case Op::Ite: r = z3::ite(boolOf(e->k[0]), intOf(e->k[1]), intOf(e->k[2])); done = true; break;
        case Op::Add: case Op::Sub: {
            Range full_ = full(e->w), x = range(e); E t = e->op == Op::Add ? intOf(e->k[0]) + intOf(e->k[1]) : intOf(e->k[0]) - intOf(e->k[1]);
            // a known range that is smaller than the full one means that the sum as such lies in it (see range)
            bool known = x.lo > full_.lo || x.hi < full_.hi;
            if (known) { Range a = range(e->k[0]), b = range(e->k[1]); s128 lo = e->op == Op::Add ? a.lo + b.lo : a.lo - b.hi, hi = e->op == Op::Add ? a.hi + b.hi : a.hi - b.lo; known = lo >= full_.lo && hi <= full_.hi; }
            r = wrap(t, e->w, x, known); if (!known) s.add(r >= num(x.lo) && r <= num(x.hi)); done = true; break; }
        case Op::Mul: if (isConst(e->k[1])) { s128 f = sextW(e->k[1]->val, e->w); Range a = range(e->k[0]); long double lo = std::min((long double)f * a.lo, (long double)f * a.hi), hi = std::max((long double)f * a.lo, (long double)f * a.hi);
            bool known = lo >= -(long double)lim(e->w) && hi < (long double)lim(e->w); r = wrap(num(f) * intOf(e->k[0]), e->w, range(e), known); done = true; } break;
        case Op::SDiv: if (isConst(e->k[1]) && sextW(e->k[1]->val, e->w) > 0) { r = truncDiv(intOf(e->k[0]), sextW(e->k[1]->val, e->w)); done = true; } break;
        case Op::SRem: if (isConst(e->k[1]) && sextW(e->k[1]->val, e->w) > 0) { s128 d = sextW(e->k[1]->val, e->w); E a = intOf(e->k[0]); r = a - num(d) * truncDiv(a, d); done = true; } break;
        case Op::Extract: if (e->aux == 0 && e->k[0]->w <= 64) { r = wrap(intOf(e->k[0]), e->w, range(e->k[0]), true); done = true; } break;
        case Op::FToSI: if (e->k[0]->w == 64) {
            Real x = realOf(e->k[0]);
            E xv = x.v.simplify(), xn = x.nan.simplify();
            auto tk = std::make_tuple(xv.id(), xn.id(), e->w); // the same value is truncated to the same number
            auto ti = truncs.find(tk);
            if (ti != truncs.end()) { r = ti->second; done = true; break; }
            E q = freshInt(), t = z3::to_real(q);
            keep.push_back(xv); keep.push_back(xn); truncs.emplace(tk, q);
            E in = !x.nan && x.v < z3::to_real(num(lim(e->w))) && x.v > z3::to_real(num(-lim(e->w) - 1));
            s.add(q >= num(-lim(e->w)) && q < num(lim(e->w)));
            s.add(z3::implies(in, z3::ite(x.v >= 0, t <= x.v && x.v < t + 1, t - 1 < x.v && x.v <= t)));
            s.add(z3::implies(!in, q == num(-lim(e->w))));
            r = q; done = true; } break;
        default: break;
        }
        if (!done) any();
        return ints.emplace(e->id, r).first->second;
    }
    E boolOf(Ex e) {
        auto it = bools.find(e->id); if (it != bools.end()) return it->second;
        E r(c);
        switch (e->op) {
        case Op::Const: r = c.bool_val(e->val != 0); break;
        case Op::Sym: r = unsignedOf(e) == 1; break;
        case Op::And: r = boolOf(e->k[0]) && boolOf(e->k[1]); break;
        case Op::Or: r = boolOf(e->k[0]) || boolOf(e->k[1]); break;
        case Op::Xor: r = boolOf(e->k[0]) != boolOf(e->k[1]); break;
        case Op::Ite: r = z3::ite(boolOf(e->k[0]), boolOf(e->k[1]), boolOf(e->k[2])); break;
        case Op::Eq: r = e->k[0]->w == 1 ? boolOf(e->k[0]) == boolOf(e->k[1]) : e->k[0]->w <= 64 ? intOf(e->k[0]) == intOf(e->k[1]) : freshBool(); break;
        case Op::Slt: r = e->k[0]->w <= 64 ? intOf(e->k[0]) < intOf(e->k[1]) : freshBool(); break;
        case Op::Sle: r = e->k[0]->w <= 64 ? intOf(e->k[0]) <= intOf(e->k[1]) : freshBool(); break;
        case Op::Ult: r = e->k[0]->w <= 64 && e->k[0]->w > 1 ? unsignedOf(e->k[0]) < unsignedOf(e->k[1]) : freshBool(); break;
        case Op::Ule: r = e->k[0]->w <= 64 && e->k[0]->w > 1 ? unsignedOf(e->k[0]) <= unsignedOf(e->k[1]) : freshBool(); break;
        case Op::FLt: case Op::FLe: case Op::FEq: case Op::FUno: {
            if (e->k[0]->w != 64) { r = freshBool(); break; }
            Real a = realOf(e->k[0]), b = realOf(e->k[1]);
            if (margin && (e->op == Op::FLt || e->op == Op::FLe)) s.add(a.nan || b.nan || a.v - b.v >= 4 || b.v - a.v >= 4);
            if (e->op == Op::FUno) r = a.nan || b.nan;
            else r = !a.nan && !b.nan && (e->op == Op::FLt ? a.v < b.v : e->op == Op::FLe ? a.v <= b.v : a.v == b.v);
            break; }
        default: r = freshBool();
        }
        return bools.emplace(e->id, r).first->second;
    }
    // the term is known to be an integer multiple of odd * 2^-sc, of at most the given magnitude
    Gran gran(Ex e) {
        auto it = grans.find(e->id); if (it != grans.end()) return it->second;
        Gran g{false, 0, 0};
        auto use = [&](int sc, long double mag) { if (sc >= -1000 && sc <= 1000 && std::isfinite(mag) && std::ldexp(mag, sc) <= 0x1p53L) g = {true, sc, mag}; };
        switch (e->op) {
        case Op::Const: { double d; uint64_t u = (uint64_t)e->val; memcpy(&d, &u, 8); if (std::isfinite(d)) { int sc = 0; if (d != 0) { int x; double m = std::frexp(d, &x); sc = 53 - x; m = std::ldexp(m, 53); while (std::fmod(m, 2) == 0) { m /= 2; --sc; } } use(sc, std::fabs((long double)d)); } break; }
        case Op::SIToF: if (e->k[0]->w <= 64) { Range r = range(e->k[0]); int tz = 0; u128 c = content(e->k[0]); while (c && c % 2 == 0) { c /= 2; ++tz; } use(-tz, std::max(std::fabs((long double)r.lo), std::fabs((long double)r.hi))); g.odd = c ? c : 1; } break;
        case Op::FAdd: case Op::FSub: { Gran a = gran(e->k[0]), b = gran(e->k[1]); if (a.known && b.known) use(std::max(a.sc, b.sc), a.mag + b.mag); break; }
        case Op::FMul: { Gran a = gran(e->k[0]), b = gran(e->k[1]); if (a.known && b.known) use(a.sc + b.sc, a.mag * b.mag); break; }
        case Op::FDiv: { Gran a = gran(e->k[0]); if (a.known && isConst(e->k[1])) { double d; uint64_t u = (uint64_t)e->k[1]->val; memcpy(&d, &u, 8); int x; if (std::isfinite(d) && d != 0) { d = std::fabs(d); u128 m = (u128)std::ldexp(std::frexp(d, &x), 53); x -= 53; while (m % 2 == 0) { m /= 2; ++x; } if (a.odd % m == 0) use(a.sc + x, a.mag / d); } } break; }
        case Op::Ite: { Gran a = gran(e->k[1]), b = gran(e->k[2]); if (a.known && b.known) use(std::max(a.sc, b.sc), std::max(a.mag, b.mag)); break; }
        default: break;
        }
        return grans.emplace(e->id, g).first->second;
    }
    E realConst(double d) { // exact
        int x; double m = std::frexp(d, &x); long long n = (long long)std::ldexp(m, 53); x -= 53;
        while (n && n % 2 == 0 && x < 0) { n /= 2; ++x; }
        E v = c.real_val(dec(n).c_str());
        if (x > 0) v = v * c.real_val(pow2((unsigned)x).c_str());
        if (x < 0) v = v / c.real_val(pow2((unsigned)-x).c_str());
        return v.simplify();
    }
    E abs_(E v) { return z3::ite(v >= 0, v, -v); }
    Real rounded(Ex e, E v, E nan, E cond) { // v: exact result, meaningful under cond; nan: definitely not a number
        if (gran(e).known) return {v, c.bool_val(false)}; // so are the operands: finite and exact
        v = v.simplify();
        E ns = nan.simplify(), cd = cond.simplify();
        auto key = std::make_tuple(v.id(), ns.id(), cd.id()); // the same exact value is rounded the same way
        auto it = roundings.find(key);
        if (it != roundings.end()) return it->second;
        Real z = roundedNew(v, nan, cond);
        keep.push_back(v); keep.push_back(ns); keep.push_back(cd);
        roundings.emplace(key, z);
        return z;
    }
    std::map<std::tuple<unsigned, unsigned, unsigned>, Real> roundings;
    std::map<std::tuple<unsigned, unsigned, unsigned>, E> truncs;
    std::vector<E> keep;
    Real roundedNew(E v, E nan, E cond) {
        E r = freshReal(), n = freshBool();
        if (margin) { E n = freshBool(), x = freshReal(); s.add(z3::implies(cond, !n && x == v)); s.add(z3::implies(nan, n)); return {x, n}; }
        E big = c.real_val(pow2(1023).c_str());
        E ok = cond && v <= big && v >= -big;
        E eps = abs_(v) / c.real_val(pow2(53).c_str()) + c.real_val("1") / c.real_val(pow2(1074).c_str());
        s.add(z3::implies(ok, !n && r - v <= eps && v - r <= eps && z3::implies(v >= 0, r >= 0) && z3::implies(v <= 0, r <= 0)));
        s.add(z3::implies(nan, n));
        return {r, n};
    }
    Real realOf(Ex e) {
        auto it = reals.find(e->id); if (it != reals.end()) return it->second;
        Real r{E(c), c.bool_val(false)};
        E huge = c.real_val(pow2(1023).c_str());
        auto fin = [&](const Real& x) { return !x.nan && x.v <= huge && x.v >= -huge; };
        switch (e->op) {
        case Op::Const: { double d; uint64_t u = (uint64_t)e->val; memcpy(&d, &u, 8);
            if (std::isnan(d)) r = {c.real_val(0), c.bool_val(true)};
            else if (std::isinf(d)) r = {c.real_val(pow2(1100).c_str()), c.bool_val(false)};
            else r = {realConst(d), c.bool_val(false)};
            if (std::isinf(d) && d < 0) r.v = -r.v;
            break; }
        case Op::SIToF: if (e->k[0]->w <= 64) { r = rounded(e, z3::to_real(intOf(e->k[0])), c.bool_val(false), c.bool_val(true)); break; } [[fallthrough]];
        case Op::UIToF: if (e->op == Op::UIToF && e->k[0]->w <= 64) { r = rounded(e, z3::to_real(unsignedOf(e->k[0])), c.bool_val(false), c.bool_val(true)); break; } [[fallthrough]];
        default: { E n = freshBool(), v = freshReal();
            if (e->op == Op::ZExt && e->k[0]->op == Op::Extract && e->k[0]->w == 63 && e->k[0]->aux == 0 && e->k[0]->k[0]->w == 64) { Real a = realOf(e->k[0]->k[0]); v = abs_(a.v); n = a.nan; } // absolute value
            else if ((e->op == Op::And || e->op == Op::Xor) && isConst(e->k[1]) && e->w == 64) {
                uint64_t mask = (uint64_t)e->k[1]->val;
                if (e->op == Op::And && mask == ~(1ull << 63)) { Real a = realOf(e->k[0]); v = abs_(a.v); n = a.nan; }
                if (e->op == Op::Xor && mask == 1ull << 63) { Real a = realOf(e->k[0]); v = -a.v; n = a.nan; }
            }
            if (e->op == Op::Sym) { auto j = symReal.find(e->aux); if (j == symReal.end()) symReal.emplace(e->aux, v); }
            r = {v, n}; break; }
        case Op::Ite: { Real a = realOf(e->k[1]), b = realOf(e->k[2]); E q = boolOf(e->k[0]); r = {z3::ite(q, a.v, b.v), z3::ite(q, a.nan, b.nan)}; break; }
        case Op::FAdd: case Op::FSub: { Real a = realOf(e->k[0]), b = realOf(e->k[1]);
            if (isConst(e->k[1]) && !(e->k[1]->val << 1 & ~(u128)0 >> 64)) { r = a; break; }
            if (e->op == Op::FAdd && isConst(e->k[0]) && !(e->k[0]->val << 1 & ~(u128)0 >> 64)) { r = b; break; }
            r = rounded(e, e->op == Op::FAdd ? a.v + b.v : a.v - b.v, a.nan || b.nan, fin(a) && fin(b));
            if (!gran(e).known && !margin) {
                // Sterbenz: the difference of numbers within a factor of two of each other is exact
                if (e->op == Op::FSub) s.add(z3::implies(fin(a) && fin(b) && ((a.v >= 0 && b.v >= 0 && a.v <= 2 * b.v && b.v <= 2 * a.v) || (a.v <= 0 && b.v <= 0 && a.v >= 2 * b.v && b.v >= 2 * a.v)), r.v == a.v - b.v));
                // x + (y - x): y itself, when that is the exact result
                if (e->op == Op::FAdd) for (int i = 0; i < 2; ++i) { Ex d = e->k[i], x = e->k[1 - i]; if (d->op == Op::FSub && d->k[1] == x) { Real y = realOf(d->k[0]); s.add(z3::implies(fin(a) && fin(b) && a.v + b.v == y.v, r.v == y.v)); } }
            }
            break; }
        case Op::FMul: { Ex ka = e->k[0], kb = e->k[1]; if (isConst(ka)) std::swap(ka, kb); Real a = realOf(ka), b = realOf(kb); r = rounded(e, a.v * b.v, a.nan || b.nan, fin(a) && fin(b)); break; }
        case Op::FDiv: { Real a = realOf(e->k[0]), b = realOf(e->k[1]); E v(c);
            if (isConst(e->k[1]) && realOf(e->k[1]).v.is_numeral()) v = a.v / b.v; else { v = freshReal(); s.add(z3::implies(b.v != 0, v * b.v == a.v)); }
            r = rounded(e, v, a.nan || b.nan, fin(a) && fin(b) && b.v != 0); break; }
        case Op::FRoundInt: { Real a = realOf(e->k[0]); E q = freshInt(), t = z3::to_real(q); E ok = fin(a);
            E in = e->aux == 0 ? t <= a.v && a.v < t + 1 : e->aux == 1 ? t - 1 < a.v && a.v <= t : e->aux == 2 ? z3::ite(a.v >= 0, t <= a.v && a.v < t + 1, t - 1 < a.v && a.v <= t) : t * 2 - 1 <= a.v * 2 && a.v * 2 <= t * 2 + 1;
            E v = freshReal(), n = freshBool(); s.add(z3::implies(ok, in && v == t && !n)); s.add(z3::implies(a.nan, n)); r = {v, n}; break; }
        case Op::FSqrt: case Op::FRem: case Op::FPExt: r = {freshReal(), freshBool()}; break;
        }
        return reals.emplace(e->id, r).first->second;
    }
};
}

Res relaxConj(const std::vector<Ex>& cs, Model& m, unsigned timeoutMs, bool margin) {
    try {
        Relax R; R.margin = margin;
        z3::params p(R.c); p.set("timeout", timeoutMs); R.s.set(p);
        for (Ex e : cs) R.s.add(R.boolOf(e));
        z3::check_result r = R.s.check();
        if (r == z3::unsat) return Res::Unsat;
        if (r != z3::sat) return Res::Unknown;
        z3::model zm = R.s.get_model();
        m.clear();
        for (auto& kv : R.symInt) { E v = zm.eval(kv.second, true); std::string t = v.get_decimal_string(0); u128 x = 0; for (char ch : t) if (ch >= '0' && ch <= '9') x = x * 10 + (unsigned)(ch - '0'); m[kv.first] = x; }
        for (auto& kv : R.symReal) if (!R.symInt.count(kv.first)) { E v = zm.eval(kv.second, true); double d = Z3_get_numeral_double(R.c, v); uint64_t u; memcpy(&u, &d, 8); m[kv.first] = u; }
        return Res::Sat;
    } catch (const z3::exception&) { return Res::Unknown; }
}
