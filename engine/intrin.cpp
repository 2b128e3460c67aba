// Handlers for intrinsics, the C library kernel, the sym_* harness interface and threads.
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <algorithm>
using namespace llvm;
#define H(NAME) X.handlers[NAME] = [](Executor & X, State & S, const Inst& I, std::vector<Val>& A)
typedef std::vector<Val> Args;

static void fin(Executor& X, State& S, const Inst& I) { if (I.opc == Instruction::Invoke) X.gotoBB(S, I.b0); else S.fr().ip++; }
static void fin(Executor& X, State& S, const Inst& I, Val v) { if (I.dst >= 0) S.fr().regs[I.dst] = v; fin(X, S, I); }
static void fin2(Executor& X, State& S, const Inst& I, Val v, Val w) { if (I.dst >= 0) { S.fr().regs[I.dst] = v; S.fr().regs[I.dst + 1] = w; } fin(X, S, I); }

static void freeObj(Executor& X, State& S, uint64_t p) {
    if (!p) return;
    uint64_t b; MObj* o = S.mem.find(p, b);
    if (!o || b != p || !(o->flags & F_HEAP)) X.bug(S, "memory", "free of a pointer that is not a heap block");
    if (!(o->flags & F_ALIVE)) X.bug(S, "memory", "double free");
    if (S.multi) X.raceAccess(S, p, o->size, true);
    S.mem.kill(p);
}
// returns: expression for memcmp-like result (sign only matters), or eq only
static Val cmpMem(Executor& X, State& S, uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
    if (!n) return cval(0);
    uint64_t ba, bb; MObj* oa = X.access(S, a, n, false, ba); MObj* ob = X.access(S, b, n, false, bb);
    if (S.multi) { X.raceAccess(S, a, n, false); X.raceAccess(S, b, n, false); oa = S.mem.find(a, ba); ob = S.mem.find(b, bb); }
    if (!oa->sym && !ob->sym) { int r = memcmp(oa->bytes + (a - ba), ob->bytes + (b - bb), n); return cval((uint32_t)(r < 0 ? -1 : r > 0)); }
    Ex r = mkConst(0, 32);
    if (eqOnly) {
        Ex eq = mkConst(1, 1);
        for (uint64_t i = 0; i < n; ++i) { eq = mkBin(Op::And, eq, mkBin(Op::Eq, X.byteAt(oa, a - ba + i), X.byteAt(ob, b - bb + i))); if (isFalse(eq)) break; }
        return mkVal(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    }
    for (uint64_t i = n; i-- > 0;) {
        Ex x = X.byteAt(oa, a - ba + i), y = X.byteAt(ob, b - bb + i);
        r = mkIte(mkBin(Op::Eq, x, y), r, mkIte(mkBin(Op::Ult, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
    }
    return mkVal(r);
}
static uint64_t strlenS(Executor& X, State& S, uint64_t a, uint64_t max = ~0ull) {
    uint64_t n = 0, b;
    while (n < max) {
        MObj* o = X.access(S, a + n, 1, false, b);
        uint64_t off = a + n - b;
        if (o->sym && o->sym[off]) { if (X.branch(S, mkBin(Op::Eq, o->sym[off], mkConst(0, 8)))) return n; }
        else if (!o->bytes[off]) return n;
        ++n;
    }
    return n;
}
static std::string fmt(Executor& X, State& S, uint64_t f, std::function<Val(bool fp)> next) {
    std::string in = X.cstr(S, f), out;
    for (size_t i = 0; i < in.size(); ++i) {
        if (in[i] != '%') { out += in[i]; continue; }
        std::string sp = "%"; ++i;
        bool l = false;
        while (i < in.size() && strchr("-+ #0123456789.*lhzjtL", in[i])) {
            if (in[i] == '*') sp += std::to_string((int)X.evalM(S, next(false), 32));
            else if (strchr("lzjt", in[i])) l = true;
            else if (in[i] != 'h' && in[i] != 'L') sp += in[i];
            ++i;
        }
        if (i >= in.size()) break;
        char c = in[i], buf[512]; buf[0] = 0;
        if (c == '%') { out += '%'; continue; }
        if (strchr("diuxXoc", c)) {
            uint64_t v = X.evalM(S, next(false), 64);
            if (c == 'c') { out += (char)v; continue; }
            if (!l) v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
            sp += "ll"; sp += c; snprintf(buf, sizeof buf, sp.c_str(), (long long)v);
        } else if (strchr("fFeEgGaA", c)) { uint64_t v = X.evalM(S, next(true), 64); double d; memcpy(&d, &v, 8); sp += c; snprintf(buf, sizeof buf, sp.c_str(), d); }
        else if (c == 's') { out += X.cstr(S, X.evalM(S, next(false), 64)); continue; }
        else if (c == 'p') { snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)X.evalM(S, next(false), 64)); }
        out += buf;
    }
    return out;
}
static void putStr(Executor& X, State& S, uint64_t dst, uint64_t size, const std::string& s) {
    if (!size) return;
    uint64_t n = std::min<uint64_t>(s.size(), size - 1);
    for (uint64_t i = 0; i < n; ++i) X.wr(S, dst + i, (uint8_t)s[i], 8);
    X.wr(S, dst + n, 0, 8);
}
static void mathFn(Executor& X, const char* n, double (*f)(double)) {
    static std::map<std::string, double (*)(double)> tab; tab[n] = f;
    X.handlers[n] = [](Executor& X, State& S, const Inst& I, Args& A) {
        auto fn = tab[I.callee ? I.callee->getName().str() : ""];
        uint64_t v = X.concretize(S, A[0], 64); double d; memcpy(&d, &v, 8); d = fn(d); memcpy(&v, &d, 8); fin(X, S, I, cval(v));
    };
}
static void roundFn(Executor& X, const char* n, unsigned mode) {
    static std::map<std::string, unsigned> tab; tab[n] = mode;
    X.handlers[n] = [](Executor& X, State& S, const Inst& I, Args& A) {
        std::string nm = I.name; unsigned m = 0; while (!tab.count(nm)) { auto p = nm.rfind('.'); if (p == std::string::npos) break; nm = nm.substr(0, p); } m = tab[nm];
        for (unsigned i = 0; i < I.n; ++i) S.fr().regs[I.dst + i] = mkVal(mkUn(Op::FRoundInt, toEx(A[i], I.w), I.w, m));
        fin(X, S, I);
    };
}
static void binInt(Executor& X, const char* n, int k) {
    static std::map<std::string, int> tab; tab[n] = k;
    X.handlers[n] = [](Executor& X, State& S, const Inst& I, Args& A) {
        std::string nm = I.name; while (!tab.count(nm)) { auto p = nm.rfind('.'); if (p == std::string::npos) break; nm = nm.substr(0, p); }
        int k = tab[nm];
        for (unsigned i = 0; i < I.n; ++i) {
            Ex a = toEx(A[i], I.w), b = toEx(A[I.n + i], I.w), r = nullptr;
            unsigned w = I.w; u128 smax = ((u128)1 << (w - 1)) - 1, smin = (u128)1 << (w - 1);
            switch (k) {
            case 0: r = mkIte(mkBin(Op::Ult, b, a), a, b); break; // umax
            case 1: r = mkIte(mkBin(Op::Ult, a, b), a, b); break; // umin
            case 2: r = mkIte(mkBin(Op::Slt, b, a), a, b); break; // smax
            case 3: r = mkIte(mkBin(Op::Slt, a, b), a, b); break; // smin
            case 4: { Ex s = mkBin(Op::Add, a, b); r = mkIte(mkBin(Op::Ult, s, a), mkConst(maskW(w), w), s); break; } // uadd.sat
            case 5: r = mkIte(mkBin(Op::Ult, a, b), mkConst(0, w), mkBin(Op::Sub, a, b)); break; // usub.sat
            case 6: case 7: { // sadd.sat / ssub.sat
                Ex a2 = mkSExt(a, w + 1), b2 = mkSExt(b, w + 1), s = mkBin(k == 6 ? Op::Add : Op::Sub, a2, b2);
                r = mkIte(mkBin(Op::Slt, mkConst(smax, w + 1), s), mkConst(smax, w), mkIte(mkBin(Op::Slt, s, mkSExt(mkConst(smin, w), w + 1)), mkConst(smin, w), mkTrunc(s, w))); break; }
            }
            S.fr().regs[I.dst + i] = mkVal(r);
        }
        fin(X, S, I);
    };
}
static void ovf(Executor& X, const char* n, int k) {
    static std::map<std::string, int> tab; tab[n] = k;
    X.handlers[n] = [](Executor& X, State& S, const Inst& I, Args& A) {
        std::string nm = I.name; while (!tab.count(nm)) { auto p = nm.rfind('.'); if (p == std::string::npos) break; nm = nm.substr(0, p); }
        int k = tab[nm]; unsigned w = I.w;
        Ex a = toEx(A[0], w), b = toEx(A[1], w), r, o;
        bool sg = k & 1; Op op = (k / 2) == 0 ? Op::Add : (k / 2) == 1 ? Op::Sub : Op::Mul;
        unsigned W = op == Op::Mul ? 2 * w : w + 1;
        if (W > 128) X.incomplete(S, "wide overflow arithmetic");
        Ex a2 = sg ? mkSExt(a, W) : mkZExt(a, W), b2 = sg ? mkSExt(b, W) : mkZExt(b, W), full = mkBin(op, a2, b2);
        r = mkTrunc(full, w);
        o = mkNot(mkBin(Op::Eq, full, sg ? mkSExt(r, W) : mkZExt(r, W)));
        fin2(X, S, I, mkVal(r), mkVal(o));
    };
}

static void cvWait(Executor& X, State& S, const Inst& I, Args& A, bool timed) {
    uint64_t cv = A[0].c, m = A[1].c;
    Thread& T = S.th[S.cur];
    if (T.cvPhase2) {
        if (!T.go) { X.schedule(S, true); return; }
        T.go = false; T.cvPhase2 = false; T.pend = PK::None; T.timed = false;
        MutexSt& M = S.mtx[m]; M.owner = S.cur; M.count = 1;
        X.vcJoin(S.th[S.cur].vc, M.vc); X.vcJoin(S.th[S.cur].vc, M.rvc);
        fin(X, S, I, cval(S.th[S.cur].timedOut ? 1 : 0));
        return;
    }
    if (!X.syncPoint(S, PK::CvWait, cv, m)) return;
    MutexSt& M = S.mtx[m];
    if (M.owner != S.cur) X.bug(S, "lock", "condition wait without holding the mutex");
    Thread& T2 = S.th[S.cur];
    M.owner = -1; M.count = 0; X.vcJoin(M.vc, T2.vc); X.vcTick(S, S.cur);
    S.cv[cv].waiters.push_back(S.cur);
    T2.status = TS::WaitCV; T2.cvMutex = m; T2.cvPhase2 = true; T2.timedOut = false; T2.timed = timed; T2.pend = PK::CvRelock; T2.paddr = m; T2.go = false;
    S.concurrent = true;
    X.schedule(S, false);
}
static void cvNotify(Executor& X, State& S, const Inst& I, Args& A, bool all) {
    uint64_t cv = A[0].c;
    if (!X.syncPoint(S, PK::Notify, cv)) return;
    auto it = S.cv.find(cv);
    if (it != S.cv.end() && !it->second.waiters.empty()) {
        auto wake = [&](State& Q, size_t i) {
            auto& w = Q.cv[cv].waiters; int t = w[i]; w.erase(w.begin() + i);
            Q.th[t].status = TS::Run; // pend stays CvRelock
        };
        if (all) { while (!S.cv[cv].waiters.empty()) wake(S, 0); }
        else {
            size_t n = S.cv[cv].waiters.size();
            for (size_t i = 1; i < n; ++i) { State* q = X.forkWith(S, nullptr, Model()); wake(*q, i); fin(X, *q, I, cval(0)); q->sched.push_back(1000 + (int)i); }
            wake(S, 0); if (n > 1) S.sched.push_back(1000);
        }
    }
    fin(X, S, I, cval(0));
}

void registerHandlers(Executor& X) {
    // ---- harness interface
    H("sym_make") {
        std::string name = X.cstr(S, X.concretize(S, A[0], 64)); unsigned w = (unsigned)X.concretize(S, A[1], 32);
        unsigned k = S.symCount[name]++;
        Ex e = mkSym(name + "#" + std::to_string(k), w);
        S.inputs.push_back({name, w, e});
        fin(X, S, I, mkVal(w < 64 ? mkZExt(e, 64) : e));
    };
    H("sym_assume") {
        Ex c = mkNot(mkBin(Op::Eq, toEx(A[0], 32), mkConst(0, 32)));
        if (isTrue(c)) { fin(X, S, I); return; }
        if (isFalse(c)) throw PathEnd{1, "assume"};
        if (!evalExpr(c, *S.model)) {
            Model m; if (!X.mayBeTrue(S, c, &m)) throw PathEnd{1, "assume"};
            auto nm = std::make_shared<Model>(*S.model); for (auto& kv : m) (*nm)[kv.first] = kv.second; S.model = nm;
        }
        X.addC(S, c); fin(X, S, I);
    };
    H("sym_assert_impl") {
        Ex c = mkNot(mkBin(Op::Eq, toEx(A[0], 32), mkConst(0, 32)));
        X.R.asserts++;
        if (!isTrue(c)) {
            std::string msg = X.cstr(S, A[1].c);
            if (isFalse(c)) X.bug(S, "assert", msg);
            X.R.assertQueries++;
            bool v = evalExpr(c, *S.model) != 0;
            if (!v) {
                X.recordBug(S, "assert", msg, *S.model);
                Model m; if (!X.mayBeTrue(S, c, &m)) throw PathEnd{2, "assert"};
                auto nm = std::make_shared<Model>(*S.model); for (auto& kv : m) (*nm)[kv.first] = kv.second; S.model = nm;
                X.addC(S, c);
            } else {
                Model m; if (X.mayBeTrue(S, mkNot(c), &m)) { Model full = *S.model; for (auto& kv : m) full[kv.first] = kv.second; X.recordBug(S, "assert", msg, full); X.addC(S, c); }
            }
        }
        fin(X, S, I);
    };
    H("sym_reach") { X.R.reach[X.cstr(S, A[0].c)]++; fin(X, S, I); };
    H("sym_observe") { S.obs.push_back({X.cstr(S, A[0].c), toEx(A[1], 64)}); fin(X, S, I); };
    H("sym_option") {
        std::string n = X.cstr(S, A[0].c); auto it = X.cfg.options.find(n);
        fin(X, S, I, it == X.cfg.options.end() ? A[1] : cval((uint64_t)it->second));
    };
    H("sym_is_symbolic") { fin(X, S, I, cval(isC(A[0]) ? 0 : 1)); };
    H("sym_concretize") { uint64_t v = X.concretize(S, A[0], 64); fin(X, S, I, cval(v)); };
    H("sym_peek") { fin(X, S, I, cval(X.evalM(S, A[0], 64))); }; // value under the current model; for message texts only
    H("sym_abandon") { throw PathEnd{1, X.cstr(S, A[0].c)}; };
    H("sym_end_path") { (void)I; throw PathEnd{0, ""}; };
    H("sym_unsupported") { X.incomplete(S, "stub: " + X.cstr(S, A[0].c)); };
    H("sym_fail") { X.bug(S, "assert", X.cstr(S, A[0].c)); };
    H("sym_is_engine") { fin(X, S, I, cval(1)); };
    H("sym_stub") { X.R.stubs.insert(X.cstr(S, A[0].c)); fin(X, S, I); };
    H("sym_print") { if (X.cfg.verbose) errs() << "PRINT " << X.cstr(S, A[0].c) << " " << (isC(A[1]) ? std::to_string(A[1].c) : exprStr(A[1].e)) << "\n"; fin(X, S, I); };
    H("sym_bug") { X.bug(S, X.cstr(S, A[0].c), X.cstr(S, A[1].c)); };
    H("sym_freed") { uint64_t b; MObj* o = S.mem.find(A[0].c, b); fin(X, S, I, cval(!o || !(o->flags & F_ALIVE))); };
    // live heap bytes? (leak checks)
    // ---- memory
    H("malloc") { uint64_t n = X.concretize(S, A[0], 64); if (n > (1ull << 28)) { fin(X, S, I, cval(0)); return; } uint64_t p = X.malloc_(S, n, F_HEAP); fin(X, S, I, cval(p)); };
    H("calloc") { uint64_t n = X.concretize(S, A[0], 64) * X.concretize(S, A[1], 64); if (n > (1ull << 28)) { fin(X, S, I, cval(0)); return; } uint64_t p = X.malloc_(S, n, F_HEAP), b; MObj* o = S.mem.findW(p, b); memset(o->bytes, 0, n); fin(X, S, I, cval(p)); };
    H("realloc") {
        uint64_t p = X.concretize(S, A[0], 64), n = X.concretize(S, A[1], 64), q = X.malloc_(S, n, F_HEAP), b;
        if (p) { MObj* o = S.mem.find(p, b); uint64_t os = o->size; X.copyMem(S, q, p, std::min(os, n)); freeObj(X, S, p); }
        fin(X, S, I, cval(q));
    };
    H("free") { freeObj(X, S, X.concretize(S, A[0], 64)); fin(X, S, I); };
    auto cpy = [](Executor& X, State& S, const Inst& I, Args& A) {
        uint64_t n = X.concretize(S, A[2], 64); uint64_t d = X.concretize(S, A[0], 64), s = X.concretize(S, A[1], 64);
        X.copyMem(S, d, s, n); fin(X, S, I, cval(d));
    };
    X.handlers["memcpy"] = X.handlers["memmove"] = X.handlers["llvm.memcpy"] = X.handlers["llvm.memmove"] = X.handlers["llvm.memcpy.inline"] = cpy;
    auto set = [](Executor& X, State& S, const Inst& I, Args& A) {
        uint64_t n = X.concretize(S, A[2], 64), d = X.concretize(S, A[0], 64);
        if (n) {
            uint64_t b; X.access(S, d, n, true, b);
            if (S.multi) X.raceAccess(S, d, n, true);
            MObj* o = X.access(S, d, n, true, b);
            Ex v = mkTrunc(toEx(A[1], I.callee && I.callee->isIntrinsic() ? 8 : 32), 8);
            for (uint64_t i = 0; i < n; ++i) X.setByte(o, d - b + i, v);
        }
        fin(X, S, I, cval(d));
    };
    X.handlers["memset"] = X.handlers["llvm.memset"] = set;
    H("memcmp") { uint64_t n = X.concretize(S, A[2], 64), a = X.concretize(S, A[0], 64), b = X.concretize(S, A[1], 64); fin(X, S, I, cmpMem(X, S, a, b, n, false)); };
    H("bcmp") { uint64_t n = X.concretize(S, A[2], 64), a = X.concretize(S, A[0], 64), b = X.concretize(S, A[1], 64); fin(X, S, I, cmpMem(X, S, a, b, n, true)); };
    H("strlen") { uint64_t n = strlenS(X, S, X.concretize(S, A[0], 64)); fin(X, S, I, cval(n)); };
    H("strnlen") { uint64_t n = strlenS(X, S, X.concretize(S, A[0], 64), X.concretize(S, A[1], 64)); fin(X, S, I, cval(n)); };
    H("strcmp") {
        uint64_t a = X.concretize(S, A[0], 64), b = X.concretize(S, A[1], 64), na = strlenS(X, S, a), nb = strlenS(X, S, b);
        fin(X, S, I, cmpMem(X, S, a, b, std::min(na, nb) + 1, false));
    };
    H("memchr") {
        uint64_t a = X.concretize(S, A[0], 64), n = X.concretize(S, A[2], 64); Ex c = mkTrunc(toEx(A[1], 32), 8);
        uint64_t r = 0;
        for (uint64_t i = 0; i < n; ++i) { uint64_t b; MObj* o = X.access(S, a + i, 1, false, b); if (X.branch(S, mkBin(Op::Eq, X.byteAt(o, a + i - b), c))) { r = a + i; break; } }
        fin(X, S, I, cval(r));
    };
    // ---- llvm intrinsics
    binInt(X, "llvm.umax", 0); binInt(X, "llvm.umin", 1); binInt(X, "llvm.smax", 2); binInt(X, "llvm.smin", 3);
    binInt(X, "llvm.uadd.sat", 4); binInt(X, "llvm.usub.sat", 5); binInt(X, "llvm.sadd.sat", 6); binInt(X, "llvm.ssub.sat", 7);
    ovf(X, "llvm.uadd.with.overflow", 0); ovf(X, "llvm.sadd.with.overflow", 1); ovf(X, "llvm.usub.with.overflow", 2); ovf(X, "llvm.ssub.with.overflow", 3); ovf(X, "llvm.umul.with.overflow", 4); ovf(X, "llvm.smul.with.overflow", 5);
    H("llvm.abs") { for (unsigned i = 0; i < I.n; ++i) { Ex a = toEx(A[i], I.w); S.fr().regs[I.dst + i] = mkVal(mkIte(mkBin(Op::Slt, a, mkConst(0, I.w)), mkBin(Op::Sub, mkConst(0, I.w), a), a)); } fin(X, S, I); };
    auto cnt = [](Executor& X, State& S, const Inst& I, Args& A) {
        unsigned w = I.w; Ex a = toEx(A[0], w), r; bool lead = I.name.find("ctlz") != std::string::npos, pop = I.name.find("ctpop") != std::string::npos;
        if (pop) { r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkBin(Op::Add, r, mkZExt(mkExtract(a, i, 1), w)); }
        else { r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) { unsigned bit = lead ? i : w - 1 - i; unsigned v = lead ? w - 1 - i : w - 1 - i; r = mkIte(mkBin(Op::Eq, mkExtract(a, bit, 1), mkConst(1, 1)), mkConst(lead ? v : bit, w), r); } }
        fin(X, S, I, mkVal(r));
    };
    X.handlers["llvm.ctlz"] = X.handlers["llvm.cttz"] = X.handlers["llvm.ctpop"] = cnt;
    H("llvm.bswap") { Ex a = toEx(A[0], I.w), r = mkExtract(a, 0, 8); for (unsigned i = 1; i < I.w / 8; ++i) r = mkConcat(r, mkExtract(a, i * 8, 8)); fin(X, S, I, mkVal(r)); };
    auto fsh = [](Executor& X, State& S, const Inst& I, Args& A) {
        unsigned w = I.w; uint64_t k = X.concretize(S, A[2], w) % w; bool l = I.name.find("fshl") != std::string::npos;
        Ex c = mkConcat(toEx(A[0], w), toEx(A[1], w)); if (2 * w > 128) X.incomplete(S, "wide funnel shift");
        fin(X, S, I, mkVal(mkExtract(c, l ? w - (unsigned)k : (unsigned)k, w)));
    };
    X.handlers["llvm.fshl"] = X.handlers["llvm.fshr"] = fsh;
    H("llvm.fabs") { for (unsigned i = 0; i < I.n; ++i) S.fr().regs[I.dst + i] = mkVal(mkBin(Op::And, toEx(A[i], I.w), mkConst(maskW(I.w - 1), I.w))); fin(X, S, I); };
    X.handlers["fabs"] = X.handlers["fabsf"] = X.handlers["llvm.fabs"];
    H("llvm.copysign") { fin(X, S, I, mkVal(mkBin(Op::Or, mkBin(Op::And, toEx(A[0], I.w), mkConst(maskW(I.w - 1), I.w)), mkBin(Op::And, toEx(A[1], I.w), mkConst((u128)1 << (I.w - 1), I.w))))); };
    roundFn(X, "llvm.floor", 0); roundFn(X, "llvm.ceil", 1); roundFn(X, "llvm.trunc", 2); roundFn(X, "llvm.rint", 3); roundFn(X, "llvm.nearbyint", 3); roundFn(X, "llvm.roundeven", 3); roundFn(X, "llvm.round", 4);
    roundFn(X, "floor", 0); roundFn(X, "ceil", 1); roundFn(X, "trunc", 2); roundFn(X, "rint", 3); roundFn(X, "nearbyint", 3); roundFn(X, "round", 4);
    auto lround = [](Executor& X, State& S, const Inst& I, Args& A) { Ex r = mkUn(Op::FRoundInt, toEx(A[0], 64), 64, I.name.find("rint") != std::string::npos ? 3 : 4); fin(X, S, I, mkVal(mkUn(Op::FToSI, r, I.w))); };
    X.handlers["lround"] = X.handlers["llround"] = X.handlers["llvm.lround"] = X.handlers["llvm.llround"] = X.handlers["lrint"] = X.handlers["llrint"] = X.handlers["llvm.lrint"] = lround;
    auto sq = [](Executor& X, State& S, const Inst& I, Args& A) { fin(X, S, I, mkVal(mkUn(Op::FSqrt, toEx(A[0], I.w), I.w))); };
    X.handlers["sqrt"] = X.handlers["llvm.sqrt"] = sq;
    H("llvm.fmuladd") { fin(X, S, I, mkVal(mkBin(Op::FAdd, mkBin(Op::FMul, toEx(A[0], I.w), toEx(A[1], I.w)), toEx(A[2], I.w)))); };
    H("fmod") { fin(X, S, I, mkVal(mkBin(Op::FRem, toEx(A[0], 64), toEx(A[1], 64)))); };
    auto mnx = [](Executor& X, State& S, const Inst& I, Args& A) {
        bool mx = I.name.find("max") != std::string::npos; Ex a = toEx(A[0], I.w), b = toEx(A[1], I.w);
        Ex r = mkIte(mkBin(Op::FUno, a, a), b, mkIte(mkBin(Op::FUno, b, b), a, mkIte(mx ? mkBin(Op::FLt, a, b) : mkBin(Op::FLt, b, a), b, a))); fin(X, S, I, mkVal(r)); };
    X.handlers["fmax"] = X.handlers["fmin"] = X.handlers["llvm.maxnum"] = X.handlers["llvm.minnum"] = mnx;
    H("llvm.is.fpclass") {
        unsigned w = I.ow ? I.ow : 64; w = A[0].e ? A[0].e->w : (cast<CallBase>(I.I)->getArgOperand(0)->getType()->isFloatTy() ? 32 : 64);
        unsigned mask = (unsigned)A[1].c; Ex a = toEx(A[0], w); unsigned mb = w == 64 ? 52 : 23; unsigned eb = w - 1 - mb;
        Ex ex = mkExtract(a, mb, eb), man = mkExtract(a, 0, mb), sg = mkExtract(a, w - 1, 1);
        Ex e1 = mkBin(Op::Eq, ex, mkConst(maskW(eb), eb)), e0 = mkBin(Op::Eq, ex, mkConst(0, eb)), m0 = mkBin(Op::Eq, man, mkConst(0, mb)), q = mkBin(Op::Eq, mkExtract(a, mb - 1, 1), mkConst(1, 1)), pos = mkNot(sg);
        Ex nan = mkBin(Op::And, e1, mkNot(m0)), inf = mkBin(Op::And, e1, m0), zero = mkBin(Op::And, e0, m0), sub = mkBin(Op::And, e0, mkNot(m0)), norm = mkBin(Op::And, mkNot(e1), mkNot(e0));
        Ex c[10] = {mkBin(Op::And, nan, mkNot(q)), mkBin(Op::And, nan, q), mkBin(Op::And, inf, sg), mkBin(Op::And, norm, sg), mkBin(Op::And, sub, sg), mkBin(Op::And, zero, sg), mkBin(Op::And, zero, pos), mkBin(Op::And, sub, pos), mkBin(Op::And, norm, pos), mkBin(Op::And, inf, pos)};
        Ex r = mkConst(0, 1); for (int i = 0; i < 10; ++i) if (mask >> i & 1) r = mkBin(Op::Or, r, c[i]);
        fin(X, S, I, mkVal(r));
    };
    H("llvm.expect") { fin(X, S, I, A[0]); };
    H("llvm.is.constant") { fin(X, S, I, cval(0)); };
    H("llvm.objectsize") { fin(X, S, I, cval(A.size() > 1 && A[1].c ? 0 : ~0ull)); };
    H("llvm.launder.invariant.group") { fin(X, S, I, A[0]); };
    H("llvm.strip.invariant.group") { fin(X, S, I, A[0]); };
    H("llvm.stacksave") { fin(X, S, I, cval(0)); };
    H("llvm.stackrestore") { fin(X, S, I); };
    H("llvm.trap") { (void)I; (void)A; X.bug(S, "abort", "trap"); };
    H("llvm.ubsantrap") { (void)I; (void)A; X.bug(S, "abort", "undefined behaviour trap"); };
    H("llvm.eh.typeid.for") { uint64_t t = A[0].c; fin(X, S, I, cval(X.typeIdx(t))); };
    H("llvm.threadlocal.address") {
        auto* gv = cast<GlobalVariable>(cast<CallBase>(I.I)->getArgOperand(0)->stripPointerCasts());
        auto& m = S.th[S.cur].tls; auto it = m.find(gv);
        if (it == m.end()) {
            uint64_t sz = X.DL->getTypeAllocSize(gv->getValueType()), a = S.mem.alloc(sz, F_GLOBAL, nullptr), b; MObj* o = S.mem.findW(a, b); memset(o->bytes, 0, sz);
            if (gv->hasInitializer()) X.writeConst(S, a, gv->getInitializer());
            it = S.th[S.cur].tls.emplace(gv, a).first;
        }
        fin(X, S, I, cval(it->second));
    };
    H("llvm.load.relative") { uint64_t p = A[0].c, o = A[1].c; int32_t r = (int32_t)X.rd(S, p + o, 32); fin(X, S, I, cval(p + r)); };
    auto vred = [](Executor& X, State& S, const Inst& I, Args& A) {
        Op op = I.name.find(".add") != std::string::npos ? Op::Add : I.name.find(".or") != std::string::npos ? Op::Or : I.name.find(".and") != std::string::npos ? Op::And : Op::Xor;
        Ex r = toEx(A[0], I.w); for (size_t i = 1; i < A.size(); ++i) r = mkBin(op, r, toEx(A[i], I.w)); fin(X, S, I, mkVal(r)); };
    X.handlers["llvm.vector.reduce.add"] = X.handlers["llvm.vector.reduce.or"] = X.handlers["llvm.vector.reduce.and"] = X.handlers["llvm.vector.reduce.xor"] = vred;
    // ---- varargs (x86-64 va_list whose register area is marked used up)
    H("llvm.va_start") {
        uint64_t ap = A[0].c; auto va = S.fr().varargs; uint64_t area = X.malloc_(S, va.size() * 8 + 8, F_STACK); S.fr().allocas.push_back(area);
        auto ws = S.fr().varw;
        for (size_t i = 0; i < va.size(); ++i) { unsigned w = i < ws.size() ? ws[i] : 64; if (w > 64) X.incomplete(S, "wide variadic argument"); X.store(S, cval(area + 8 * i), w < 64 ? mkVal(mkZExt(toEx(va[i], w), 64)) : va[i], 64); }
        X.wr(S, ap, 48, 32); X.wr(S, ap + 4, 304, 32); X.wr(S, ap + 8, area, 64); X.wr(S, ap + 16, 0, 64); fin(X, S, I);
    };
    H("llvm.va_end") { fin(X, S, I); };
    H("llvm.va_copy") { X.copyMem(S, A[0].c, A[1].c, 24); fin(X, S, I); };
    H("vsnprintf") {
        uint64_t ap = A[3].c, area = X.rd(S, ap + 8, 64); size_t k = 0;
        std::string r = fmt(X, S, A[2].c, [&](bool) { return X.load(S, cval(area + 8 * k++), 64); });
        putStr(X, S, A[0].c, X.concretize(S, A[1], 64), r); fin(X, S, I, cval((uint32_t)r.size()));
    };
    H("snprintf") {
        size_t k = 3; std::string r = fmt(X, S, A[2].c, [&](bool) { return k < A.size() ? A[k++] : cval(0); });
        putStr(X, S, A[0].c, X.concretize(S, A[1], 64), r); fin(X, S, I, cval((uint32_t)r.size()));
    };
    H("printf") { size_t k = 1; std::string r = fmt(X, S, A[0].c, [&](bool) { return k < A.size() ? A[k++] : cval(0); }); if (X.cfg.verbose) errs() << r; fin(X, S, I, cval(0)); };
    X.handlers["puts"] = X.handlers["putchar"] = [](Executor& X, State& S, const Inst& I, Args&) { fin(X, S, I, cval(0)); };
    H("strtod") {
        uint64_t a = X.concretize(S, A[0], 64), n = strlenS(X, S, a); std::string t = X.strN(S, a, n);
        for (uint64_t i = 0; i < n; ++i) { uint64_t b; MObj* o = X.access(S, a + i, 1, false, b); Ex e = X.byteAt(o, a + i - b); X.concretize(S, mkVal(e), 8); }
        t = X.strN(S, a, n); char* end; errno = 0; double d = strtod(t.c_str(), &end); uint64_t v; memcpy(&v, &d, 8);
        if (A[1].c) X.wr(S, A[1].c, a + (uint64_t)(end - t.c_str()), 64);
        fin(X, S, I, cval(v));
    };
    // ---- termination
    H("abort") { (void)I; (void)A; X.bug(S, "abort", "abort called"); };
    H("__assert_fail") { std::string m = X.cstr(S, A[0].c); X.bug(S, "abort", "assertion failed: " + m); };
    H("_ZSt21__glibcxx_assert_failPKciS0_S0_") { std::string m = X.cstr(S, A[3].c); X.bug(S, "abort", "assertion failed: " + m); };
    H("_ZSt9terminatev") { (void)I; (void)A; X.bug(S, "terminate", "std::terminate called"); };
    H("exit") { (void)A; (void)I; throw PathEnd{0, ""}; };
    H("__cxa_atexit") { fin(X, S, I, cval(0)); };
    H("__cxa_thread_atexit") { fin(X, S, I, cval(0)); };
    H("__cxa_pure_virtual") { (void)I; (void)A; X.bug(S, "abort", "pure virtual call"); };
    // ---- exceptions (rest in runtime/rt.cpp)
    H("eng_raise") { (void)I; X.raise(S, A[0].c); };
    H("eng_can_catch") { uint64_t adj = A[2].c; bool r = X.canCatch(S, A[0].c, A[1].c, A[2].c, adj); if (A[3].c) X.wr(S, A[3].c, adj, 64); fin(X, S, I, cval(r)); };
    H("__dynamic_cast") {
        uint64_t p = X.concretize(S, A[0], 64), dst = A[2].c;
        uint64_t r = 0;
        if (p) {
            uint64_t vt = X.rd(S, p, 64); int64_t top = (int64_t)X.rd(S, vt - 16, 64); uint64_t ti = X.rd(S, vt - 8, 64), whole = p + top, adj;
            if (X.upcast(S, ti, dst, whole, adj)) r = adj;
        }
        fin(X, S, I, cval(r));
    };
    H("eng_most_derived") { uint64_t p = A[0].c, vt = X.rd(S, p, 64); fin(X, S, I, cval(p + X.rd(S, vt - 16, 64))); };
    // ---- threads
    H("eng_thread_create") {
        uint64_t fn = A[0].c; int id = X.newThread(S);
        const Function* F = X.fnByIdx[(fn - (5ull << 40)) / 16];
        int c = S.cur; S.cur = id; X.pushCall(S, X.info(F), {A[1]}, nullptr); S.cur = c;
        fin(X, S, I, cval((uint64_t)id));
    };
    H("eng_thread_self") { fin(X, S, I, cval((uint64_t)S.cur)); };
    H("eng_thread_join") {
        uint64_t t = A[0].c;
        if (!X.syncPoint(S, PK::Join, t)) return;
        X.vcJoin(S.th[S.cur].vc, S.th[t].exitVC);
        fin(X, S, I);
    };
    H("eng_yield") { if (!X.syncPoint(S, PK::Yield, 0)) return; fin(X, S, I, cval(0)); };
    X.handlers["sched_yield"] = X.handlers["eng_yield"];
    H("eng_wait_changed") { if (!X.syncPoint(S, PK::WaitChange, A[0].c, A[1].c & 0xffffffff)) return; X.vcJoin(S.th[S.cur].vc, S.avc[A[0].c & ~7ull]); fin(X, S, I); };
    H("pthread_mutex_lock") {
        uint64_t a = A[0].c;
        { auto it = S.mtx.find(a); if (it != S.mtx.end() && it->second.owner == S.cur && !S.th[S.cur].go) {
            uint32_t kind = (uint32_t)X.rd(S, a + 16, 32);
            if (kind == 1) { it->second.count++; fin(X, S, I, cval(0)); return; }
            X.bug(S, "deadlock", "thread locks a mutex it already holds"); } }
        uint64_t b; X.access(S, a, 1, false, b);
        if (!X.syncPoint(S, PK::MutexLock, a)) return;
        MutexSt& M = S.mtx[a]; M.owner = S.cur; M.count = 1; X.vcJoin(S.th[S.cur].vc, M.vc);
        fin(X, S, I, cval(0));
    };
    H("pthread_mutex_trylock") {
        uint64_t a = A[0].c;
        if (!X.syncPoint(S, PK::MutexTry, a)) return;
        MutexSt& M = S.mtx[a];
        if (M.owner == -1) { M.owner = S.cur; M.count = 1; X.vcJoin(S.th[S.cur].vc, M.vc); fin(X, S, I, cval(0)); }
        else fin(X, S, I, cval(16));
    };
    H("pthread_mutex_unlock") {
        uint64_t a = A[0].c; uint64_t b; X.access(S, a, 1, false, b);
        MutexSt& M = S.mtx[a];
        if (M.owner != S.cur) X.bug(S, "lock", "unlock of a mutex not held by this thread");
        if (--M.count == 0) { M.owner = -1; M.vc = S.th[S.cur].vc; X.vcTick(S, S.cur); }
        fin(X, S, I, cval(0));
    };
    H("pthread_rwlock_wrlock") {
        uint64_t a = A[0].c; auto it = S.mtx.find(a);
        if (it != S.mtx.end() && !S.th[S.cur].go) { if (it->second.owner == S.cur) { fin(X, S, I, cval(35)); return; } auto& r = it->second.readers; if (std::find(r.begin(), r.end(), S.cur) != r.end()) X.bug(S, "deadlock", "thread takes an exclusive lock while holding it shared"); }
        if (!X.syncPoint(S, PK::WrLock, a)) return;
        MutexSt& M = S.mtx[a]; M.owner = S.cur; X.vcJoin(S.th[S.cur].vc, M.vc); X.vcJoin(S.th[S.cur].vc, M.rvc); fin(X, S, I, cval(0));
    };
    H("pthread_rwlock_rdlock") {
        uint64_t a = A[0].c; auto it = S.mtx.find(a);
        if (it != S.mtx.end() && !S.th[S.cur].go && it->second.owner == S.cur) { fin(X, S, I, cval(35)); return; }
        if (!X.syncPoint(S, PK::RdLock, a)) return;
        MutexSt& M = S.mtx[a]; M.readers.push_back(S.cur); X.vcJoin(S.th[S.cur].vc, M.vc); fin(X, S, I, cval(0));
    };
    H("pthread_rwlock_trywrlock") {
        uint64_t a = A[0].c; if (!X.syncPoint(S, PK::RwTry, a)) return;
        MutexSt& M = S.mtx[a]; if (M.owner == -1 && M.readers.empty()) { M.owner = S.cur; X.vcJoin(S.th[S.cur].vc, M.vc); X.vcJoin(S.th[S.cur].vc, M.rvc); fin(X, S, I, cval(0)); } else fin(X, S, I, cval(16));
    };
    H("pthread_rwlock_tryrdlock") {
        uint64_t a = A[0].c; if (!X.syncPoint(S, PK::RwTry, a)) return;
        MutexSt& M = S.mtx[a]; if (M.owner == -1) { M.readers.push_back(S.cur); X.vcJoin(S.th[S.cur].vc, M.vc); fin(X, S, I, cval(0)); } else fin(X, S, I, cval(16));
    };
    H("pthread_rwlock_unlock") {
        uint64_t a = A[0].c; MutexSt& M = S.mtx[a];
        if (M.owner == S.cur) { M.owner = -1; M.vc = S.th[S.cur].vc; M.rvc.clear(); X.vcTick(S, S.cur); }
        else { auto it = std::find(M.readers.begin(), M.readers.end(), S.cur); if (it == M.readers.end()) X.bug(S, "lock", "unlock of a read-write lock not held by this thread"); M.readers.erase(it); X.vcJoin(M.rvc, S.th[S.cur].vc); X.vcTick(S, S.cur); }
        fin(X, S, I, cval(0));
    };
    auto zero = [](Executor& X, State& S, const Inst& I, Args&) { fin(X, S, I, cval(0)); };
    auto mdestroy = [](Executor& X, State& S, const Inst& I, Args& A) { auto it = S.mtx.find(A[0].c); if (it != S.mtx.end()) { if (it->second.owner != -1 || !it->second.readers.empty()) X.bug(S, "lock", "lock destroyed while held"); S.mtx.erase(it); } fin(X, S, I, cval(0)); };
    X.handlers["pthread_mutex_destroy"] = X.handlers["pthread_rwlock_destroy"] = mdestroy;
    X.handlers["pthread_cond_init"] = X.handlers["pthread_cond_destroy"] = X.handlers["pthread_mutexattr_init"] = X.handlers["pthread_mutexattr_destroy"] = X.handlers["pthread_rwlock_init"] = zero;
    H("pthread_mutexattr_settype") { X.wr(S, A[0].c, A[1].c, 32); fin(X, S, I, cval(0)); };
    H("pthread_mutex_init") { for (int i = 0; i < 40; ++i) X.wr(S, A[0].c + i, 0, 8); if (A[1].c) X.wr(S, A[0].c + 16, X.rd(S, A[1].c, 32), 32); fin(X, S, I, cval(0)); };
    X.handlers["eng_cv_wait"] = [](Executor& X, State& S, const Inst& I, Args& A) { cvWait(X, S, I, A, false); };
    X.handlers["eng_cv_timedwait"] = [](Executor& X, State& S, const Inst& I, Args& A) { cvWait(X, S, I, A, true); };
    X.handlers["eng_cv_notify_one"] = [](Executor& X, State& S, const Inst& I, Args& A) { cvNotify(X, S, I, A, false); };
    X.handlers["eng_cv_notify_all"] = [](Executor& X, State& S, const Inst& I, Args& A) { cvNotify(X, S, I, A, true); };
    H("eng_cv_destroy") { auto it = S.cv.find(A[0].c); if (it != S.cv.end()) { if (!it->second.waiters.empty()) X.bug(S, "lock", "condition variable destroyed while threads wait on it"); S.cv.erase(it); } fin(X, S, I); };
    mathFn(X, "exp", exp); mathFn(X, "log", log); mathFn(X, "log10", log10); mathFn(X, "sin", sin); mathFn(X, "cos", cos); mathFn(X, "tan", tan);
}
