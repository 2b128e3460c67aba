#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>

SolverStats g_sstats;
unsigned g_solverTimeoutMs = 60000;

namespace {
Z3_context C = nullptr;
std::unordered_map<uint32_t, Z3_ast> memo;
std::unordered_map<uint32_t, bool> hasFp;
size_t memoBytes = 0;
const char* lastErr = nullptr;

void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); lastErr = "err"; }

void init() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, onErr);
}
Z3_ast keep(uint32_t id, Z3_ast a) { Z3_inc_ref(C, a); memo[id] = a; return a; }
Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bv(w));
    return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64) & (uint64_t)maskW(w - 64), bv(w - 64)), Z3_mk_unsigned_int64(C, (uint64_t)v, bv(64)));
}
Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); }
Z3_ast tr(Ex e);
Z3_ast fp(Ex e) { return Z3_mk_fpa_to_fp_bv(C, tr(e), fps(e->w)); }
Z3_ast fpToBv(Z3_ast f, unsigned w) {
    return Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), num(w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u, w), Z3_mk_fpa_to_ieee_bv(C, f));
}
Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(C, v, num(1, 1)); }
Z3_ast tr(Ex e) {
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    Z3_ast r;
    Z3_ast rne = nullptr, rtz = nullptr;
    auto RNE = [&] { return Z3_mk_fpa_round_nearest_ties_to_even(C); };
    auto RTZ = [&] { return Z3_mk_fpa_round_toward_zero(C); };
    (void)rne; (void)rtz;
    switch (e->op) {
    case Op::Const: r = num(e->val, e->w); break;
    case Op::Sym: r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->aux), bv(e->w)); break;
#define B(O, F) case Op::O: { Z3_ast a = tr(e->k[0]), b = tr(e->k[1]); r = F(C, a, b); break; }
    B(Add, Z3_mk_bvadd) B(Sub, Z3_mk_bvsub) B(Mul, Z3_mk_bvmul) B(UDiv, Z3_mk_bvudiv) B(SDiv, Z3_mk_bvsdiv)
    B(URem, Z3_mk_bvurem) B(SRem, Z3_mk_bvsrem) B(And, Z3_mk_bvand) B(Or, Z3_mk_bvor) B(Xor, Z3_mk_bvxor)
    B(Shl, Z3_mk_bvshl) B(LShr, Z3_mk_bvlshr) B(AShr, Z3_mk_bvashr) B(Concat, Z3_mk_concat)
#undef B
#define P(O, F) case Op::O: { Z3_ast a = tr(e->k[0]), b = tr(e->k[1]); r = b2v(F(C, a, b)); break; }
    P(Eq, Z3_mk_eq) P(Ult, Z3_mk_bvult) P(Ule, Z3_mk_bvule) P(Slt, Z3_mk_bvslt) P(Sle, Z3_mk_bvsle)
#undef P
    case Op::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, tr(e->k[0])); break;
    case Op::ZExt: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, tr(e->k[0])); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, tr(e->k[0])); break;
    case Op::Ite: { Z3_ast c = v2b(tr(e->k[0])), a = tr(e->k[1]), b = tr(e->k[2]); r = Z3_mk_ite(C, c, a, b); break; }
    case Op::FAdd: r = fpToBv(Z3_mk_fpa_add(C, RNE(), fp(e->k[0]), fp(e->k[1])), e->w); break;
    case Op::FSub: r = fpToBv(Z3_mk_fpa_sub(C, RNE(), fp(e->k[0]), fp(e->k[1])), e->w); break;
    case Op::FMul: r = fpToBv(Z3_mk_fpa_mul(C, RNE(), fp(e->k[0]), fp(e->k[1])), e->w); break;
    case Op::FDiv: r = fpToBv(Z3_mk_fpa_div(C, RNE(), fp(e->k[0]), fp(e->k[1])), e->w); break;
    case Op::FRem: { // C fmod: x - y*trunc(x/y); z3's fp.rem is IEEE remainder: not the same; left uninterpreted-free
        Z3_sort d[2] = {bv(e->w), bv(e->w)};
        Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, e->w == 64 ? "fmod64" : "fmod32"), 2, d, bv(e->w));
        Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])};
        r = Z3_mk_app(C, f, 2, a); break; }
    case Op::FSqrt: r = fpToBv(Z3_mk_fpa_sqrt(C, RNE(), fp(e->k[0])), e->w); break;
    case Op::FRoundInt: {
        Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_round_toward_negative(C) : e->aux == 1 ? Z3_mk_fpa_round_toward_positive(C) : e->aux == 2 ? RTZ() : e->aux == 3 ? RNE() : Z3_mk_fpa_round_nearest_ties_to_away(C);
        r = fpToBv(Z3_mk_fpa_round_to_integral(C, rm, fp(e->k[0])), e->w); break; }
    case Op::FLt: r = b2v(Z3_mk_fpa_lt(C, fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FLe: r = b2v(Z3_mk_fpa_leq(C, fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FEq: r = b2v(Z3_mk_fpa_eq(C, fp(e->k[0]), fp(e->k[1]))); break;
    case Op::FUno: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(C, fp(e->k[0])), Z3_mk_fpa_is_nan(C, fp(e->k[1]))}; r = b2v(Z3_mk_or(C, 2, a)); break; }
    case Op::FToSI: {
        Ex x = e->k[0]; Z3_ast f = fp(x);
        // in range iff -2^(w-1)-1 < x < 2^(w-1)
        Z3_ast tri = Z3_mk_fpa_round_to_integral(C, RTZ(), f);
        Z3_ast lo = Z3_mk_fpa_to_fp_float(C, RNE(), Z3_mk_fpa_numeral_double(C, -__builtin_ldexp(1.0, e->w - 1), fps(64)), fps(x->w));
        Z3_ast hi = Z3_mk_fpa_to_fp_float(C, RNE(), Z3_mk_fpa_numeral_double(C, __builtin_ldexp(1.0, e->w - 1), fps(64)), fps(x->w));
        Z3_ast in[2] = {Z3_mk_fpa_leq(C, lo, tri), Z3_mk_fpa_lt(C, tri, hi)};
        r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, RTZ(), f, e->w), num((u128)1 << (e->w - 1), e->w)); break; }
    case Op::FToUI: {
        Ex x = e->k[0]; Z3_ast f = fp(x);
        Z3_ast tri = Z3_mk_fpa_round_to_integral(C, RTZ(), f);
        Z3_ast lo = Z3_mk_fpa_zero(C, fps(x->w), false);
        Z3_ast hi = Z3_mk_fpa_to_fp_float(C, RNE(), Z3_mk_fpa_numeral_double(C, __builtin_ldexp(1.0, e->w), fps(64)), fps(x->w));
        Z3_ast in[2] = {Z3_mk_fpa_leq(C, lo, tri), Z3_mk_fpa_lt(C, tri, hi)};
        r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_ubv(C, RTZ(), f, e->w), num(maskW(e->w), e->w)); break; }
    case Op::SIToF: r = fpToBv(Z3_mk_fpa_to_fp_signed(C, RNE(), tr(e->k[0]), fps(e->w)), e->w); break;
    case Op::UIToF: r = fpToBv(Z3_mk_fpa_to_fp_unsigned(C, RNE(), tr(e->k[0]), fps(e->w)), e->w); break;
    case Op::FPExt: r = fpToBv(Z3_mk_fpa_to_fp_float(C, RNE(), fp(e->k[0]), fps(64)), 64); break;
    case Op::FPTrunc: r = fpToBv(Z3_mk_fpa_to_fp_float(C, RNE(), fp(e->k[0]), fps(32)), 32); break;
    default: abort();
    }
    return keep(e->id, r);
}
bool usesFp(Ex e) {
    if (e->op >= Op::FAdd) return true;
    if (e->nk == 0) return false;
    auto it = hasFp.find(e->id);
    if (it != hasFp.end()) return it->second;
    bool r = false;
    for (int i = 0; i < e->nk && !r; ++i) r = usesFp(e->k[i]);
    hasFp[e->id] = r;
    return r;
}
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
std::unordered_map<std::vector<uint32_t>, std::pair<Res, Model>, VecHash> cache;
}

void sliceFor(const std::vector<Ex>& pc, Ex e, std::vector<Ex>& out) {
    std::vector<char> used(pc.size(), 0);
    std::vector<char> mark(g_syms.size() + 1, 0);
    for (auto s : exprSyms(e)) mark[s] = 1;
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (used[i]) continue;
            const auto& ss = exprSyms(pc[i]);
            bool hit = false;
            for (auto s : ss) if (mark[s]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            for (auto s : ss) if (!mark[s]) { mark[s] = 1; ch = true; }
        }
    }
    for (size_t i = 0; i < pc.size(); ++i) if (used[i]) out.push_back(pc[i]);
}

double g_deadline = 1e300;
static double noBug = 0;
volatile double* g_firstBug = &noBug;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
bool timeUp() { double n = nowS(); return n > g_deadline || (*g_firstBug > 0 && n > *g_firstBug + bugGrace); }
static unsigned timeoutMs(unsigned most) {
    double end = g_deadline; if (*g_firstBug > 0) end = std::min(end, *g_firstBug + bugGrace);
    double left = end - nowS();
    return left < 0.1 ? 100 : left * 1000 < most ? (unsigned)(left * 1000) : most;
}
Res solveConj(const std::vector<Ex>& cs0, Model& m) {
    std::vector<Ex> cs;
    for (Ex e : cs0) { if (isFalse(e)) return Res::Unsat; if (!isTrue(e)) cs.push_back(e); }
    std::sort(cs.begin(), cs.end(), [](Ex a, Ex b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    if (cs.empty()) { m.clear(); return Res::Sat; }
    std::vector<uint32_t> key; for (Ex e : cs) key.push_back(e->id);
    auto it = cache.find(key);
    if (it != cache.end()) { g_sstats.cacheHits++; m = it->second.second; return it->second.first; }
    init();
    auto t0 = std::chrono::steady_clock::now();
    bool f = false; for (Ex e : cs) if (usesFp(e)) { f = true; break; }
    if (f) { // first as a relaxation over the reals; only what that does not decide is bit-blasted
        auto holds = [&] { // is the candidate a model?
            for (Ex e : cs) for (auto s : exprSyms(e)) if (!m.count(s)) m[s] = 0;
            evalNewEpoch();
            for (Ex e : cs) if (!evalExprCont(e, m)) return false;
            return true;
        };
        Res q = relaxConj(cs, m, timeoutMs(5000), false);
        if (q == Res::Sat && !holds()) q = relaxConj(cs, m, timeoutMs(5000), true) == Res::Sat && holds() ? Res::Sat : Res::Unknown;
        if (q != Res::Unknown) {
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            g_sstats.queries++; g_sstats.relaxed++; g_sstats.seconds += dt; g_sstats.maxSeconds = std::max(g_sstats.maxSeconds, dt);
            if (q == Res::Sat) g_sstats.sat++; else g_sstats.unsat++;
            cache[key] = {q, m};
            return q;
        }
    }
    if (memo.size() > 400000) { // bound memory: start over with a fresh context
        Z3_del_context(C); C = nullptr; memo.clear(); init();
    }
    Z3_solver S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, f ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(C, S);
    Z3_params pr = Z3_mk_params(C); Z3_params_inc_ref(C, pr);
    Z3_params_set_uint(C, pr, Z3_mk_string_symbol(C, "timeout"), timeoutMs(g_solverTimeoutMs));
    Z3_solver_set_params(C, S, pr);
    Z3_params_dec_ref(C, pr);
    std::set<uint32_t> syms;
    for (Ex e : cs) { Z3_solver_assert(C, S, v2b(tr(e))); for (auto s : exprSyms(e)) syms.insert(s); }
    Z3_lbool r = Z3_solver_check(C, S);
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    m.clear();
    if (res == Res::Sat) {
        Z3_model zm = Z3_solver_get_model(C, S);
        Z3_model_inc_ref(C, zm);
        for (auto s : syms) {
            unsigned w = g_syms[s].w;
            Z3_ast c = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)s), bv(w)), v = nullptr;
            Z3_model_eval(C, zm, c, true, &v);
            if (w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(C, v, &x); m[s] = x; }
            else { std::string t = Z3_get_numeral_string(C, v); u128 x = 0; for (char ch : t) x = x * 10 + (ch - '0'); m[s] = x; }
        }
        Z3_model_dec_ref(C, zm);
        evalNewEpoch();
        for (Ex e : cs) if (!evalExprCont(e, m)) { // encoding/evaluator mismatch: never report as decided
            fprintf(stderr, "solver: model does not satisfy %s\n", exprStr(e, 5).c_str());
            res = Res::Unknown; break;
        }
    }
    Z3_solver_dec_ref(C, S);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > 2 && getenv("ENG_DEBUG")) { fprintf(stderr, "slow query %.1fs res=%d:\n", dt, (int)res); for (Ex e : cs) fprintf(stderr, "   %s\n", exprStr(e, 12).c_str()); }
    g_sstats.queries++; g_sstats.seconds += dt; g_sstats.maxSeconds = std::max(g_sstats.maxSeconds, dt);
    if (res == Res::Sat) g_sstats.sat++; else if (res == Res::Unsat) g_sstats.unsat++; else g_sstats.unknown++;
    if (res != Res::Unknown) cache[key] = {res, m};
    return res;
}
