#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include <cstdio>
#include <cstdlib>

std::vector<SymInfo> g_syms;
static std::unordered_map<std::string, uint32_t> g_symIndex;

namespace {
// ---- arena and hash table
struct Table {
    std::vector<Expr*> buckets;
    size_t n = 0;
    std::vector<Expr*> chunks;
    size_t used = 0;
    Table() { buckets.assign(1 << 16, nullptr); }
    std::vector<Expr*> next; // chained by index = id
} T;
const size_t CH = 4096;
Expr* allocExpr() {
    if (T.chunks.empty() || T.used == CH) { T.chunks.push_back((Expr*)calloc(CH, sizeof(Expr))); T.used = 0; }
    return &T.chunks.back()[T.used++];
}
size_t mix(size_t h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

Ex intern(Op op, unsigned w, unsigned aux, u128 val, Ex a, Ex b, Ex c) {
    size_t h = mix((size_t)op * 131 + w, aux);
    h = mix(h, (size_t)val); h = mix(h, (size_t)(val >> 64));
    h = mix(h, a ? a->hash : 1); h = mix(h, b ? b->hash : 2); h = mix(h, c ? c->hash : 3);
    size_t i = h & (T.buckets.size() - 1);
    for (Expr* e = T.buckets[i]; e; e = T.next[e->id])
        if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
    Expr* e = allocExpr();
    e->op = op; e->w = (uint8_t)w; e->aux = aux; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
    e->hash = h; e->id = (uint32_t)T.n++; e->syms = nullptr; e->evalEpoch = 0;
    T.next.push_back(T.buckets[i]);
    T.buckets[i] = e;
    if (T.n > T.buckets.size()) {
        std::vector<Expr*> nb(T.buckets.size() * 4, nullptr);
        for (Expr* p : T.buckets) while (p) {
            Expr* nx = T.next[p->id];
            size_t j = p->hash & (nb.size() - 1);
            T.next[p->id] = nb[j]; nb[j] = p; p = nx;
        }
        T.buckets.swap(nb);
    }
    return e;
}

double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
u128 frD(double d) { if (std::isnan(d)) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &d, 8); return x; }
u128 frF(float d) { if (std::isnan(d)) return 0x7fc00000u; uint32_t x; memcpy(&x, &d, 4); return x; }
}

size_t exprCount() { return T.n; }
Ex mkConst(u128 v, unsigned w) { return intern(Op::Const, w, 0, v & maskW(w), nullptr, nullptr, nullptr); }
Ex mkSym(const std::string& name, unsigned w) {
    std::string key = name + "/" + std::to_string(w);
    auto it = g_symIndex.find(key);
    uint32_t i;
    if (it == g_symIndex.end()) { i = (uint32_t)g_syms.size(); g_syms.push_back({name, w}); g_symIndex[key] = i; }
    else i = it->second;
    return intern(Op::Sym, w, i, 0, nullptr, nullptr, nullptr);
}
bool isTrue(Ex e) { return isConst(e) && e->w == 1 && e->val == 1; }
bool isFalse(Ex e) { return isConst(e) && e->w == 1 && e->val == 0; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
    ok = true;
    u128 m = maskW(w);
    switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: if (!b) { return m; } return a / b;
    case Op::URem: if (!b) { return a; } return a % b;
    case Op::SDiv: { s128 x = sextW(a, w), y = sextW(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case Op::SRem: { s128 x = sextW(a, w), y = sextW(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case Op::AShr: { s128 x = sextW(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextW(a, w) < sextW(b, w);
    case Op::Sle: return sextW(a, w) <= sextW(b, w);
    case Op::FAdd: return w == 64 ? frD(asD(a) + asD(b)) : frF(asF(a) + asF(b));
    case Op::FSub: return w == 64 ? frD(asD(a) - asD(b)) : frF(asF(a) - asF(b));
    case Op::FMul: return w == 64 ? frD(asD(a) * asD(b)) : frF(asF(a) * asF(b));
    case Op::FDiv: return w == 64 ? frD(asD(a) / asD(b)) : frF(asF(a) / asF(b));
    case Op::FRem: return w == 64 ? frD(std::fmod(asD(a), asD(b))) : frF(std::fmod(asF(a), asF(b)));
    case Op::FLt: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case Op::FLe: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case Op::FEq: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case Op::FUno: return w == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    default: ok = false; return 0;
    }
}
u128 foldUn(Op op, u128 a, unsigned inw, unsigned w, unsigned aux) {
    switch (op) {
    case Op::FSqrt: return inw == 64 ? frD(std::sqrt(asD(a))) : frF(std::sqrt(asF(a)));
    case Op::FRoundInt: {
        double d = inw == 64 ? asD(a) : asF(a), r;
        switch (aux) { case 0: r = std::floor(d); break; case 1: r = std::ceil(d); break; case 2: r = std::trunc(d); break; case 3: r = std::nearbyint(d); break; default: r = std::round(d); }
        return inw == 64 ? frD(r) : frF((float)r);
    }
    case Op::FToSI: {
        double d = inw == 64 ? asD(a) : asF(a);
        if (std::isnan(d)) return ((u128)1 << (w - 1));
        double lim = std::ldexp(1.0, (int)w - 1);
        if (d >= lim || d < -lim) { if (!(d < -lim && std::trunc(d) >= -lim)) return ((u128)1 << (w - 1)); }
        return (u128)(s128)d & maskW(w);
    }
    case Op::FToUI: {
        double d = inw == 64 ? asD(a) : asF(a);
        if (std::isnan(d) || d <= -1 || d >= std::ldexp(1.0, (int)w)) return maskW(w);
        return (u128)d & maskW(w);
    }
    case Op::SIToF: { s128 x = sextW(a, inw); return w == 64 ? frD((double)x) : frF((float)x); }
    case Op::UIToF: return w == 64 ? frD((double)a) : frF((float)a);
    case Op::FPExt: return frD((double)asF(a));
    case Op::FPTrunc: return frF((float)asD(a));
    default: abort();
    }
}

static bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle || op == Op::FLt || op == Op::FLe || op == Op::FEq || op == Op::FUno; }

Ex mkNot(Ex a) {
    if (isConst(a)) return mkConst(!a->val, 1);
    if (a->op == Op::Xor && isConst(a->k[1]) && a->k[1]->val == 1) return a->k[0];
    return intern(Op::Xor, 1, 0, 0, a, mkConst(1, 1), nullptr);
}

// can the value of a be determined to have its top bits zero?  returns number of significant bits upper bound
static unsigned sigBits(Ex a, int d = 4) {
    switch (a->op) {
    case Op::Const: { unsigned n = 0; u128 v = a->val; while (v) { n++; v >>= 1; } return n; }
    case Op::ZExt: return sigBits(a->k[0], d);
    case Op::Concat: if (isConst(a->k[0]) && a->k[0]->val == 0) return sigBits(a->k[1], d); return a->w;
    case Op::And: if (d) return std::min(sigBits(a->k[0], d - 1), sigBits(a->k[1], d - 1)); return a->w;
    case Op::Ite: if (d) return std::max(sigBits(a->k[1], d - 1), sigBits(a->k[2], d - 1)); return a->w;
    case Op::LShr: if (isConst(a->k[1]) && a->k[1]->val < a->w) { unsigned s = d ? sigBits(a->k[0], d - 1) : a->w; unsigned k = (unsigned)a->k[1]->val; return s > k ? s - k : 0; } return a->w;
    default: return a->w;
    }
}


// Comparisons of a monotone function of one integer (a conversion to double followed by arithmetic with
// constants) with a constant are rewritten exactly into an integer comparison; the threshold is found by
// bisection over the concrete function.
namespace {
struct Mono { Ex x; bool sgn; bool inc = true; std::vector<Ex> chain; };
bool monoOf(Ex e, Mono& m) {
    if (e->w != 64) return false;
    for (;;) {
        if (e->op == Op::SIToF || e->op == Op::UIToF) {
            m.chain.push_back(e); m.x = e->k[0]; m.sgn = e->op == Op::SIToF;
            return m.x->w <= 64;
        }
        if (e->op != Op::FAdd && e->op != Op::FSub && e->op != Op::FMul && e->op != Op::FDiv) return false;
        Ex a = e->k[0], b = e->k[1]; bool ca = isConst(a), cb = isConst(b);
        if (ca == cb) return false;
        double c = asD(ca ? a->val : b->val);
        if (!std::isfinite(c)) return false;
        if (e->op == Op::FMul) { if (c == 0) return false; if (c < 0) m.inc = !m.inc; }
        else if (e->op == Op::FDiv) { if (ca || c == 0) return false; if (c < 0) m.inc = !m.inc; }
        else if (e->op == Op::FSub && ca) m.inc = !m.inc;
        m.chain.push_back(e); e = ca ? b : a;
    }
}
double monoEval(const Mono& m, s128 x) {
    double v = 0;
    for (size_t i = m.chain.size(); i-- > 0;) {
        Ex e = m.chain[i];
        switch (e->op) {
        case Op::SIToF: v = (double)x; break;
        case Op::UIToF: v = (double)(u128)x; break;
        default: { double a = isConst(e->k[0]) ? asD(e->k[0]->val) : v, b = isConst(e->k[1]) ? asD(e->k[1]->val) : v;
            v = e->op == Op::FAdd ? a + b : e->op == Op::FSub ? a - b : e->op == Op::FMul ? a * b : a / b; }
        }
    }
    return v;
}
// the smallest x in the range for which pred (false..false true..true) holds, or hi + 1
template<typename P> s128 firstTrue(s128 lo, s128 hi, P pred) { while (lo <= hi) { s128 mid = lo + (hi - lo) / 2; if (pred(mid)) { if (mid == lo) return lo; hi = mid; } else lo = mid + 1; if (lo == hi) return pred(lo) ? lo : lo + 1; } return lo; }
Ex geInt(const Mono& m, s128 X, s128 lo, s128 hi) { // x >= X
    if (X <= lo) return mkConst(1, 1);
    if (X > hi) return mkConst(0, 1);
    return mkBin(m.sgn ? Op::Sle : Op::Ule, mkConst((u128)X & maskW(m.x->w), m.x->w), m.x);
}
Ex monoCmp(Op op, Ex a, Ex b) {
    bool ca = isConst(a);
    if (ca == isConst(b)) return nullptr;
    if (a->w != 64) return nullptr;
    double c = asD(ca ? a->val : b->val);
    Mono m;
    if (!monoOf(ca ? b : a, m)) return nullptr;
    if (op == Op::FUno) return mkConst(std::isnan(c), 1);
    if (std::isnan(c)) return mkConst(0, 1);
    unsigned w = m.x->w;
    s128 lo = m.sgn ? -((s128)1 << (w - 1)) : 0, hi = m.sgn ? ((s128)1 << (w - 1)) - 1 : ((s128)1 << w) - 1;
    auto f = [&](s128 x) { return monoEval(m, x); };
    // where the function passes c: first x with f(x) >= c / f(x) > c (increasing), f(x) <= c / f(x) < c (decreasing)
    s128 weak = firstTrue(lo, hi, [&](s128 x) { return m.inc ? f(x) >= c : f(x) <= c; });
    s128 strict = firstTrue(lo, hi, [&](s128 x) { return m.inc ? f(x) > c : f(x) < c; });
    Ex w_ = geInt(m, weak, lo, hi), s_ = geInt(m, strict, lo, hi);
    if (op == Op::FEq) return mkBin(Op::And, w_, mkNot(s_));
    bool less = op == Op::FLt;
    if (!ca) return m.inc ? (less ? mkNot(w_) : mkNot(s_)) : (less ? s_ : w_); // f < c, f <= c
    return m.inc ? (less ? s_ : w_) : (less ? mkNot(w_) : mkNot(s_));          // c < f, c <= f
}
}
Ex mkBin(Op op, Ex a, Ex b) {
    unsigned w = a->w;
    unsigned rw = isCmp(op) ? 1 : w;
    if (isConst(a) && isConst(b)) { bool ok; u128 v = foldBin(op, a->val, b->val, w, ok); if (ok) return mkConst(v, rw); }
    if (op == Op::FLt || op == Op::FLe || op == Op::FEq || op == Op::FUno) if (Ex r = monoCmp(op, a, b)) return r;
    // canonical: constant on the right for commutative ops
    if ((op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq) &&
        (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
    if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
    bool cb = isConst(b);
    u128 bv = cb ? b->val : 0;
    switch (op) {
    case Op::Add:
        if (cb && bv == 0) return a;
        if (cb && a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->val + bv, w));
        if (cb && a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->val + bv, w), mkConst(a->k[2]->val + bv, w));
        if (!cb && a->op == Op::Sub && a->k[1] == b) return a->k[0];
        if (!cb && b->op == Op::Sub && b->k[1] == a) return b->k[0];
        if (!cb && a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
        if (!cb && b->op == Op::Add && isConst(b->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
        break;
    case Op::Sub:
        if (a == b) return mkConst(0, w);
        if (cb) return mkBin(Op::Add, a, mkConst((~bv + 1), w));
        if (a->op == Op::Add && a->k[0] == b) return a->k[1];
        if (a->op == Op::Add && a->k[1] == b) return a->k[0];
        if (a->op == Op::Add && b->op == Op::Add && a->k[0] == b->k[0]) return mkBin(Op::Sub, a->k[1], b->k[1]);
        if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkBin(Op::Sub, a->k[0], b->k[0]);
        if (b->op == Op::Add && isConst(b->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(~b->k[1]->val + 1, w));
        break;
    case Op::Mul:
        if (cb && bv == 0) return b;
        if (cb && bv == 1) return a;
        if (cb && a->op == Op::Mul && isConst(a->k[1])) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->val * bv, w));
        break;
    case Op::UDiv: if (cb && bv == 1) return a;
        if (cb && bv && !(bv & (bv - 1))) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(Op::LShr, a, mkConst(s, w)); }
        break;
    case Op::SDiv: if (cb && bv == 1) return a; break;
    case Op::URem: if (cb && bv == 1) return mkConst(0, w);
        if (cb && bv && !(bv & (bv - 1))) return mkBin(Op::And, a, mkConst(bv - 1, w));
        break;
    case Op::And:
        if (a == b) return a;
        if (cb && bv == 0) return b;
        if (cb && bv == maskW(w)) return a;
        if (cb && a->op == Op::And && isConst(a->k[1])) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->val & bv, w));
        if (cb) { unsigned sb = sigBits(a); if (sb < w && (bv & maskW(sb)) == maskW(sb)) return a;
            // low mask -> zext(extract)
            if (!(bv & (bv + 1)) && w > 1) { unsigned n = 0; while ((bv >> n) & 1) n++; if (n < w) return mkZExt(mkExtract(a, 0, n), w); } }
        if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
        break;
    case Op::Or:
        if (a == b) return a;
        if (cb && bv == 0) return a;
        if (cb && bv == maskW(w)) return b;
        if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
        // disjoint pieces: (zext lo) | (x << k)
        if (!cb) {
            Ex x = a, y = b;
            for (int t = 0; t < 2; ++t, std::swap(x, y)) {
                if (y->op == Op::Concat && isConst(y->k[1]) && y->k[1]->val == 0) { // y = hi ++ 0^k
                    unsigned k = y->k[1]->w;
                    if (sigBits(x) <= k) return mkConcat(y->k[0], mkExtract(x, 0, k));
                    if (y->k[0]->op != Op::Const && x->op == Op::Concat && x->k[1]->w == k) return mkConcat(mkBin(Op::Or, x->k[0], y->k[0]), x->k[1]);
                }
            }
        }
        break;
    case Op::Xor:
        if (a == b) return mkConst(0, w);
        if (cb && bv == 0) return a;
        if (w == 1 && cb) return mkNot(a);
        if (cb && a->op == Op::Xor && isConst(a->k[1])) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->val ^ bv, w));
        break;
    case Op::Shl:
        if (cb && bv == 0) return a;
        if (cb && bv >= w) return mkConst(0, w);
        if (cb) return mkConcat(mkExtract(a, 0, w - (unsigned)bv), mkConst(0, (unsigned)bv));
        break;
    case Op::LShr:
        if (cb && bv == 0) return a;
        if (cb && bv >= w) return mkConst(0, w);
        if (cb) return mkZExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
        break;
    case Op::AShr:
        if (cb && bv == 0) return a;
        if (cb && bv < w) return mkSExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
        break;
    case Op::Eq:
        if (a == b) return mkConst(1, 1);
        if (w == 1) { if (cb) return bv ? a : mkNot(a); }
        if (cb) {
            if (a->op == Op::ZExt || (a->op == Op::Concat && isConst(a->k[0]))) {
                Ex in = a->op == Op::ZExt ? a->k[0] : a->k[1];
                u128 hi = a->op == Op::ZExt ? 0 : a->k[0]->val;
                if ((bv >> in->w) != hi) return mkConst(0, 1);
                return mkBin(Op::Eq, in, mkConst(bv, in->w));
            }
            if (a->op == Op::SExt) {
                Ex in = a->k[0];
                if (((u128)sextW(bv & maskW(in->w), in->w) & maskW(w)) != bv) return mkConst(0, 1);
                return mkBin(Op::Eq, in, mkConst(bv, in->w));
            }
            if (a->op == Op::Concat && isConst(a->k[1])) {
                unsigned k = a->k[1]->w;
                if ((bv & maskW(k)) != a->k[1]->val) return mkConst(0, 1);
                return mkBin(Op::Eq, a->k[0], mkConst(bv >> k, a->k[0]->w));
            }
            if (a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(bv - a->k[1]->val, w));
            if (a->op == Op::Xor && isConst(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(bv ^ a->k[1]->val, w));
            if (a->op == Op::Ite) {
                bool c1 = isConst(a->k[1]), c2 = isConst(a->k[2]);
                if (c1 && c2) {
                    bool e1 = a->k[1]->val == bv, e2 = a->k[2]->val == bv;
                    if (e1 && e2) return mkConst(1, 1);
                    if (e1) return a->k[0];
                    if (e2) return mkNot(a->k[0]);
                    return mkConst(0, 1);
                }
                if (c1) { if (a->k[1]->val == bv) return mkBin(Op::Or, a->k[0], mkBin(Op::Eq, a->k[2], b)); return mkBin(Op::And, mkNot(a->k[0]), mkBin(Op::Eq, a->k[2], b)); }
                if (c2) { if (a->k[2]->val == bv) return mkBin(Op::Or, mkNot(a->k[0]), mkBin(Op::Eq, a->k[1], b)); return mkBin(Op::And, a->k[0], mkBin(Op::Eq, a->k[1], b)); }
            }
            if (a->op == Op::Sub && bv == 0) return mkBin(Op::Eq, a->k[0], a->k[1]);
        } else {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::Add && b->op == Op::Add && isConst(a->k[1]) && isConst(b->k[1])) return mkBin(Op::Eq, a->k[0], mkBin(Op::Add, b->k[0], mkConst(b->k[1]->val - a->k[1]->val, w)));
            if (a->op == Op::Add && (a->k[0] == b)) return mkBin(Op::Eq, a->k[1], mkConst(0, w));
            if (b->op == Op::Add && (b->k[0] == a)) return mkBin(Op::Eq, b->k[1], mkConst(0, w));
        }
        break;
    case Op::Ult:
        if (a == b) return mkConst(0, 1);
        if (cb && bv == 0) return mkConst(0, 1);
        if (cb && bv == 1) return mkBin(Op::Eq, a, mkConst(0, w));
        if (isConst(a) && a->val == maskW(w)) return mkConst(0, 1);
        if (isConst(a) && a->val == 0) return mkNot(mkBin(Op::Eq, b, a));
        if (cb) { unsigned sb = sigBits(a); if (sb < w && bv > maskW(sb)) return mkConst(1, 1);
            if (a->op == Op::ZExt) { if (bv > maskW(a->k[0]->w)) return mkConst(1, 1); return mkBin(Op::Ult, a->k[0], mkConst(bv, a->k[0]->w)); } }
        if (isConst(a) && b->op == Op::ZExt) { if (a->val >= maskW(b->k[0]->w)) return mkConst(0, 1); return mkBin(Op::Ult, mkConst(a->val, b->k[0]->w), b->k[0]); }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Ult, a->k[0], b->k[0]);
        break;
    case Op::Ule:
        if (a == b) return mkConst(1, 1);
        return mkNot(mkBin(Op::Ult, b, a));
    case Op::Slt:
        if (a == b) return mkConst(0, 1);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Slt, a->k[0], b->k[0]);
        if (cb && sigBits(a) < w) { if (sextW(bv, w) <= 0) return mkConst(0, 1); return mkBin(Op::Ult, a, b); }
        if (isConst(a) && sigBits(b) < w) { if (sextW(a->val, w) < 0) return mkConst(1, 1); return mkBin(Op::Ult, a, b); }
        if (a->op == Op::ZExt && b->op == Op::ZExt) return mkBin(Op::Ult, a, b);
        if (cb && a->op == Op::SExt) { unsigned iw = a->k[0]->w; s128 v = sextW(bv, w), lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1; if (v <= lo) return mkConst(0, 1); if (v > hi) return mkConst(1, 1); return mkBin(Op::Slt, a->k[0], mkConst((u128)v, iw)); }
        if (isConst(a) && b->op == Op::SExt) { unsigned iw = b->k[0]->w; s128 v = sextW(a->val, w), lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1; if (v >= hi) return mkConst(0, 1); if (v < lo) return mkConst(1, 1); return mkBin(Op::Slt, mkConst((u128)v, iw), b->k[0]); }
        break;
    case Op::Sle:
        if (a == b) return mkConst(1, 1);
        return mkNot(mkBin(Op::Slt, b, a));
    default: break;
    }
    return intern(op, rw, 0, 0, a, b, nullptr);
}

Ex mkExtract(Ex a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case Op::Const: return mkConst(a->val >> lo, w);
    case Op::Extract: return mkExtract(a->k[0], lo + a->aux, w);
    case Op::Concat: {
        unsigned lw = a->k[1]->w;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case Op::SExt: {
        unsigned iw = a->k[0]->w;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo < iw) return mkSExt(mkExtract(a->k[0], lo, iw - lo), w);
        return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
    }
    case Op::Ite:
        if ((isConst(a->k[1]) || a->k[1]->op == Op::Concat || a->k[1]->op == Op::ZExt || a->k[1]->op == Op::Ite) && (isConst(a->k[2]) || a->k[2]->op == Op::Concat || a->k[2]->op == Op::ZExt|| a->k[2]->op == Op::Ite))
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case Op::And: case Op::Or: case Op::Xor:
        if (isConst(a->k[1])) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        break;
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0 && !(w == 8 && a->w == 64)) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); // (bytes of stored words are put together again)
        break;
    default: break;
    }
    return intern(Op::Extract, w, lo, 0, a, nullptr, nullptr);
}
Ex mkTrunc(Ex a, unsigned w) { return mkExtract(a, 0, w); }

Ex mkConcat(Ex hi, Ex lo) {
    unsigned w = hi->w + lo->w;
    if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
    if (isConst(hi) && hi->val == 0) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
    // (x ++ ext1) ++ ext2 with adjacent
    if (hi->op == Op::Concat && lo->op == Op::Extract && hi->k[1]->op == Op::Extract && hi->k[1]->k[0] == lo->k[0] && hi->k[1]->aux == lo->aux + lo->w)
        return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, lo->w + hi->k[1]->w));
    // zext(x ++ ...)
    if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    if (hi->op == Op::Ite && isConst(lo) && isConst(hi->k[1]) && isConst(hi->k[2])) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
    if (hi->op == Op::Concat && isConst(hi->k[1]) && isConst(lo)) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    // sign-extension pieces re-assembled: hi = sext(extract(x, iw-1,1)), lo = x : leave
    return intern(Op::Concat, w, 0, 0, hi, lo, nullptr);
}
Ex mkZExt(Ex a, unsigned w) {
    if (w == a->w) return a;
    if (isConst(a)) return mkConst(a->val, w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->val, w), mkConst(a->k[2]->val, w));
    return intern(Op::ZExt, w, 0, 0, a, nullptr, nullptr);
}
Ex mkSExt(Ex a, unsigned w) {
    if (w == a->w) return a;
    if (isConst(a)) return mkConst((u128)sextW(a->val, a->w), w);
    if (a->op == Op::SExt) return mkSExt(a->k[0], w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return intern(Op::SExt, w, 0, 0, a, nullptr, nullptr);
}
Ex mkIte(Ex c, Ex a, Ex b) {
    if (isConst(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == Op::Xor && isConst(c->k[1])) return mkIte(c->k[0], b, a); // not
    if (a->w == 1) {
        if (isConst(a) && isConst(b)) return a->val ? c : mkNot(c);
        if (isConst(a)) return a->val ? mkBin(Op::Or, c, b) : mkBin(Op::And, mkNot(c), b);
        if (isConst(b)) return b->val ? mkBin(Op::Or, mkNot(c), a) : mkBin(Op::And, c, a);
    }
    if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return intern(Op::Ite, a->w, 0, 0, c, a, b);
}
Ex mkUn(Op op, Ex a, unsigned w, unsigned aux) {
    if (isConst(a)) return mkConst(foldUn(op, a->val, a->w, w, aux), w);
    return intern(op, w, aux, 0, a, nullptr, nullptr);
}

static uint32_t g_epoch = 0;
void evalNewEpoch() { ++g_epoch; }
u128 evalExprCont(Ex e, const Model& m) {
    if (e->op == Op::Const) return e->val;
    if (e->evalEpoch == g_epoch) return e->evalVal;
    u128 r = 0;
    switch (e->op) {
    case Op::Sym: { auto it = m.find(e->aux); r = it == m.end() ? 0 : it->second; break; }
    case Op::Concat: r = (evalExprCont(e->k[0], m) << e->k[1]->w) | evalExprCont(e->k[1], m); break;
    case Op::Extract: r = (evalExprCont(e->k[0], m) >> e->aux) & maskW(e->w); break;
    case Op::ZExt: r = evalExprCont(e->k[0], m); break;
    case Op::SExt: r = (u128)sextW(evalExprCont(e->k[0], m), e->k[0]->w) & maskW(e->w); break;
    case Op::Ite: r = evalExprCont(e->k[0], m) ? evalExprCont(e->k[1], m) : evalExprCont(e->k[2], m); break;
    default:
        if (e->nk == 2) { bool ok; r = foldBin(e->op, evalExprCont(e->k[0], m), evalExprCont(e->k[1], m), e->k[0]->w, ok); }
        else r = foldUn(e->op, evalExprCont(e->k[0], m), e->k[0]->w, e->w, e->aux);
    }
    e->evalEpoch = g_epoch; e->evalVal = r;
    return r;
}
u128 evalExpr(Ex e, const Model& m) { evalNewEpoch(); return evalExprCont(e, m); }

const std::vector<uint32_t>& exprSyms(Ex e) {
    if (e->syms) return *e->syms;
    static const std::vector<uint32_t> empty;
    if (e->op == Op::Const) { e->syms = &empty; return empty; }
    if (e->op == Op::Sym) { e->syms = new std::vector<uint32_t>{e->aux}; return *e->syms; }
    const std::vector<uint32_t>* acc = &exprSyms(e->k[0]);
    for (int i = 1; i < e->nk; ++i) {
        const std::vector<uint32_t>* o = &exprSyms(e->k[i]);
        if (o == acc || o->empty()) continue;
        if (acc->empty()) { acc = o; continue; }
        if (std::includes(acc->begin(), acc->end(), o->begin(), o->end())) continue;
        if (std::includes(o->begin(), o->end(), acc->begin(), acc->end())) { acc = o; continue; }
        auto* n = new std::vector<uint32_t>();
        std::set_union(acc->begin(), acc->end(), o->begin(), o->end(), std::back_inserter(*n));
        acc = n;
    }
    e->syms = acc;
    return *acc;
}

std::string exprStr(Ex e, int depth) {
    static const char* names[] = {"Const", "Sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fround", "flt", "fle", "feq", "funo", "ftosi", "ftoui", "sitof", "uitof", "fpext", "fptrunc"};
    std::ostringstream s;
    if (e->op == Op::Const) { s << (e->w > 64 ? "wide:" : "") << (unsigned long long)e->val << ":" << (int)e->w; return s.str(); }
    if (e->op == Op::Sym) return g_syms[e->aux].name;
    if (depth == 0) return "..";
    s << "(" << names[(int)e->op];
    if (e->op == Op::Extract) s << "[" << e->aux << "+" << (int)e->w << "]";
    for (int i = 0; i < e->nk; ++i) s << " " << exprStr(e->k[i], depth - 1);
    s << ")";
    return s.str();
}
