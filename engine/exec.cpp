#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
using namespace llvm;
static bool modelFile(const DISubprogram* sp) { auto f = sp->getFilename(); return f.contains("/shadow/") || f.startswith("shadow/") || f.endswith("runtime/stubs.cpp"); }
// does the instruction stem (also by inlining) from a library model?
static bool inModel(const Instruction& I)
{
    for (const DILocation* l = I.getDebugLoc(); l; l = l->getInlinedAt())
        if (auto* sp = l->getScope()->getSubprogram()) if (modelFile(sp)) return true;
    return false;
}

double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Executor::Executor(Module* m, Config c) : M(m), DL(&m->getDataLayout()), cfg(c) { registerHandlers(*this); }

static const uint64_t FNBASE = 5ull << 40;

// ---------------------------------------------------------------- constants and globals
void Executor::flatten(Type* t, uint64_t off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * es, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeStoreSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), off + i * es, out);
    } else if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) {
    } else if (t->isPointerTy()) out.push_back({off, 64, false});
    else if (t->isIntegerTy()) out.push_back({off, t->getIntegerBitWidth(), false});
    else if (t->isDoubleTy()) out.push_back({off, 64, true});
    else if (t->isFloatTy()) out.push_back({off, 32, true});
    else if (t->isX86_FP80Ty()) out.push_back({off, 80, true});
    else { out.push_back({off, 64, false}); }
}
static uint64_t apLow(const APInt& a) { return a.getBitWidth() <= 64 ? a.getZExtValue() : a.getRawData()[0]; }
static Val apVal(const APInt& a) {
    unsigned w = a.getBitWidth();
    if (w <= 64) return cval(a.getZExtValue());
    u128 v = a.getRawData()[0]; if (w > 64) v |= (u128)a.getRawData()[1] << 64;
    return Val{0, mkConst(v, w)};
}
void Executor::constVals(const Constant* c, std::vector<Val>& out) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(apVal(ci->getValue())); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(apVal(cf->getValueAPF().bitcastToAPInt())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(cval(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<Leaf> l; flatten(c->getType(), 0, l);
        for (auto& x : l) out.push_back(x.w <= 64 ? cval(0) : Val{0, mkConst(0, x.w)});
        return;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) { constVals(ga->getAliasee(), out); return; }
        auto it = gaddr.find(gv);
        if (it != gaddr.end()) { out.push_back(cval(it->second)); return; }
        if (auto* f = dyn_cast<Function>(gv)) {
            if (f->isDeclaration() && f->hasExternalWeakLinkage() && !handlers.count(f->getName().str())) { gaddr[gv] = 0; out.push_back(cval(0)); return; }
            uint64_t a = FNBASE + fnByIdx.size() * 16; fnByIdx.push_back(f); gaddr[gv] = a; out.push_back(cval(a)); return;
        }
        errs() << "no address for global " << gv->getName() << "\n"; out.push_back(cval(0)); return;
    }
    if (auto* ca = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ca->getNumElements(); ++i) constVals(ca->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) constVals(cast<Constant>(c->getOperand(i)), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto* g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(*DL, off)) { errs() << "non-constant gep\n"; }
            out.push_back(cval(constVal(ce->getOperand(0)).c + off.getSExtValue())); return; }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: {
            Val v = constVal(ce->getOperand(0)); unsigned w = DL->getTypeSizeInBits(ce->getType()); if (w < 64) v.c &= (uint64_t)maskW(w); out.push_back(v); return; }
        case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= (uint64_t)maskW(ce->getType()->getIntegerBitWidth()); out.push_back(v); return; }
        case Instruction::Add: out.push_back(cval(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c)); return;
        case Instruction::Sub: out.push_back(cval((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & (uint64_t)maskW(ce->getType()->getIntegerBitWidth()))); return;
        case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; out.push_back(cval(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b)); return; }
        default: errs() << "constexpr " << *ce << "\n";
        }
    }
    std::vector<Leaf> l; flatten(c->getType(), 0, l);
    for (auto& x : l) out.push_back(x.w <= 64 ? cval(0) : Val{0, mkConst(0, x.w)});
}
Val Executor::constVal(const Constant* c) { std::vector<Val> v; constVals(c, v); return v.empty() ? cval(0) : v[0]; }

void Executor::writeConst(State& S, uint64_t addr, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // memory was zeroed
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t b; MObj* o = S.mem.findW(addr, b);
        StringRef r = cd->getRawDataValues(); memcpy(o->bytes + (addr - b), r.data(), r.size()); return;
    }
    std::vector<Leaf> l; flatten(c->getType(), 0, l);
    std::vector<Val> v; constVals(c, v);
    for (size_t i = 0; i < l.size(); ++i) {
        uint64_t b; MObj* o = S.mem.findW(addr, b);
        u128 x = v[i].e ? v[i].e->val : v[i].c;
        for (unsigned k = 0; k < (l[i].w + 7) / 8; ++k) o->bytes[addr - b + l[i].off + k] = (uint8_t)(x >> (8 * k));
    }
}

void Executor::setupGlobals(State& S) {
    for (auto& F : M->functions()) { if (F.isDeclaration() && F.hasExternalWeakLinkage() && !handlers.count(F.getName().str())) { gaddr[&F] = 0; continue; } gaddr[&F] = FNBASE + fnByIdx.size() * 16; fnByIdx.push_back(&F); }
    for (auto& G : M->globals()) {
        if (G.isThreadLocal()) continue;
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 64);
        uint64_t a = S.mem.alloc(sz, F_GLOBAL, nullptr);
        uint64_t b; MObj* o = S.mem.findW(a, b); memset(o->bytes, 0, sz);
        gaddr[&G] = a;
        StringRef n = G.getName();
        if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vt_class = a + 16;
        if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vt_si = a + 16;
        if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vt_vmi = a + 16;
        if (n == "_ZTVN10__cxxabiv119__pointer_type_infoE") vt_ptr = a + 16;
        if (n == "_ZTVN10__cxxabiv123__fundamental_type_infoE") vt_fund = a + 16;
    }
    for (auto& G : M->globals()) {
        if (G.isThreadLocal() || !G.hasInitializer()) continue;
        writeConst(S, gaddr[&G], G.getInitializer());
    }
    for (auto& G : M->globals()) {
        if (G.isThreadLocal() || !G.hasInitializer() || !G.isConstant()) continue;
        uint64_t b; S.mem.findW(gaddr[&G], b)->flags |= F_RO;
    }
}

// ---------------------------------------------------------------- function decoding
Opnd Executor::opnd(FnInfo*, std::unordered_map<const Value*, int>& slots, const Value* v) {
    Opnd r{-1, 0, nullptr, nullptr};
    if (auto* c = dyn_cast<Constant>(v)) {
        if (isa<GlobalVariable>(c) && cast<GlobalVariable>(c)->isThreadLocal()) { return r; }
        std::vector<Leaf> l; flatten(c->getType(), 0, l);
        if (l.size() == 1) { Val x = constVal(c); r.c = x.c; r.e = x.e; }
        else {
            auto& p = constCache[c];
            if (!p) { p = new std::vector<Val>(); constVals(c, *p); }
            r.agg = p;
        }
        return r;
    }
    auto it = slots.find(v);
    if (it != slots.end()) r.slot = it->second;
    return r;
}

static uint32_t g_bbid = 0;
FnInfo* Executor::info(const Function* F) {
    auto& p = fns[F];
    if (p) return p;
    FnInfo* fi = p = new FnInfo();
    fi->F = F; fi->name = F->getName().str();
    if (auto* sp = F->getSubprogram()) {
        std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str();
        std::string full = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
        fi->fromRepo = full.find("/repo/src/") != std::string::npos || full.find("/repo/include/") != std::string::npos;
    }
    std::unordered_map<const Value*, int> slots;
    std::unordered_map<const BasicBlock*, int> bbi;
    auto addSlots = [&](const Value* v) -> unsigned {
        std::vector<Leaf> l; flatten(v->getType(), 0, l);
        slots[v] = (int)fi->nslots; fi->nslots += (unsigned)l.size(); return (unsigned)l.size();
    };
    for (auto& A : F->args()) { unsigned n = addSlots(&A); fi->argSlot.push_back(slots[&A]); fi->argN.push_back(n); }
    int k = 0;
    for (auto& B : *F) { bbi[&B] = k++; for (auto& I : B) if (!I.getType()->isVoidTy()) addSlots(&I); }
    fi->blocks.resize(k);
    k = 0;
    for (auto& B : *F) {
        BlockInfo& bi = fi->blocks[k++];
        bi.bb = &B; bi.gid = g_bbid++;
        for (auto& I : B) {
            if (auto* ph = dyn_cast<PHINode>(&I)) {
                Phi P; P.dst = slots[&I];
                std::vector<Leaf> l; flatten(I.getType(), 0, l); P.n = (unsigned)l.size(); P.w = l.empty() ? 0 : l[0].w;
                for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) P.in.push_back({bbi[ph->getIncomingBlock(i)], opnd(fi, slots, ph->getIncomingValue(i))});
                bi.phis.push_back(std::move(P));
                continue;
            }
            if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::dbg_assign: case Intrinsic::var_annotation: continue;
                default: break;
                }
            }
            Inst in; in.I = &I; in.opc = I.getOpcode();
            in.model = inModel(I);
            if (!I.getType()->isVoidTy()) {
                in.dst = slots[&I]; flatten(I.getType(), 0, in.leaves); in.n = (unsigned)in.leaves.size(); in.w = in.n ? in.leaves[0].w : 0;
            }
            switch (I.getOpcode()) {
            case Instruction::Br: {
                auto* br = cast<BranchInst>(&I);
                if (br->isConditional()) { in.o.push_back(opnd(fi, slots, br->getCondition())); in.b0 = bbi[br->getSuccessor(0)]; in.b1 = bbi[br->getSuccessor(1)]; }
                else in.b0 = bbi[br->getSuccessor(0)];
                break; }
            case Instruction::Switch: {
                auto* sw = cast<SwitchInst>(&I);
                in.o.push_back(opnd(fi, slots, sw->getCondition())); in.ow = sw->getCondition()->getType()->getIntegerBitWidth();
                in.b0 = bbi[sw->getDefaultDest()];
                for (auto& c : sw->cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
                break; }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I);
                in.o.push_back(opnd(fi, slots, g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* idx = gi.getOperand();
                    if (auto* st = gi.getStructTypeOrNull()) { in.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    int64_t sz = (int64_t)DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) { in.off += ci->getSExtValue() * sz; continue; }
                    in.o.push_back(opnd(fi, slots, idx)); in.scale.push_back(sz); in.sw.push_back(idx->getType()->getIntegerBitWidth());
                }
                break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&I);
                for (auto& a : cb->args()) {
                    if (a->getType()->isMetadataTy()) { in.o.push_back(Opnd{-1, 0, nullptr, nullptr}); in.on.push_back(0); continue; }
                    in.o.push_back(opnd(fi, slots, a)); std::vector<Leaf> l; flatten(a->getType(), 0, l); in.on.push_back((unsigned)l.size());
                }
                const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto* f = dyn_cast<Function>(cv)) {
                    in.callee = f; in.name = f->getName().str();
                    auto h = handlers.find(in.name);
                    if (h != handlers.end()) in.handler = h->second;
                    else if (f->isIntrinsic()) { // strip type suffixes
                        std::string b = in.name;
                        while (true) { auto h2 = handlers.find(b); if (h2 != handlers.end()) { in.handler = h2->second; break; } auto p = b.rfind('.'); if (p == std::string::npos || p <= 5) break; b = b.substr(0, p); }
                    }
                } else in.o.push_back(opnd(fi, slots, cb->getCalledOperand()));
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.b0 = bbi[iv->getNormalDest()]; in.b1 = bbi[iv->getUnwindDest()]; }
                break; }
            case Instruction::ExtractValue: {
                auto* ev = cast<ExtractValueInst>(&I);
                Type* t = ev->getAggregateOperand()->getType(); unsigned first = 0;
                for (unsigned ix : ev->indices()) {
                    if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; ++i) { std::vector<Leaf> l; flatten(st->getElementType(i), 0, l); first += l.size(); } t = st->getElementType(ix); }
                    else { auto* at = cast<ArrayType>(t); std::vector<Leaf> l; flatten(at->getElementType(), 0, l); first += l.size() * ix; t = at->getElementType(); }
                }
                in.first = first; in.o.push_back(opnd(fi, slots, ev->getAggregateOperand()));
                break; }
            case Instruction::InsertValue: {
                auto* ev = cast<InsertValueInst>(&I);
                Type* t = ev->getAggregateOperand()->getType(); unsigned first = 0;
                for (unsigned ix : ev->indices()) {
                    if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; ++i) { std::vector<Leaf> l; flatten(st->getElementType(i), 0, l); first += l.size(); } t = st->getElementType(ix); }
                    else { auto* at = cast<ArrayType>(t); std::vector<Leaf> l; flatten(at->getElementType(), 0, l); first += l.size() * ix; t = at->getElementType(); }
                }
                in.first = first; in.o.push_back(opnd(fi, slots, ev->getAggregateOperand())); in.o.push_back(opnd(fi, slots, ev->getInsertedValueOperand()));
                std::vector<Leaf> l; flatten(ev->getInsertedValueOperand()->getType(), 0, l); in.on.push_back((unsigned)l.size());
                break; }
            default:
                for (auto& op : I.operands()) {
                    if (isa<BasicBlock>(op) || op->getType()->isMetadataTy()) continue;
                    in.o.push_back(opnd(fi, slots, op)); std::vector<Leaf> l; flatten(op->getType(), 0, l); in.on.push_back((unsigned)l.size());
                    if (in.o.size() == 1 && !l.empty()) in.ow = l[0].w;
                }
                if (isa<StoreInst>(I)) { flatten(cast<StoreInst>(I).getValueOperand()->getType(), 0, in.leaves); }
            }
            bi.insts.push_back(std::move(in));
        }
    }
    return fi;
}

// ---------------------------------------------------------------- diagnostics
std::string Executor::where(State& S) {
    if (S.th[S.cur].st.empty()) return "?";
    // innermost frame with a /repo location, else innermost
    auto& st = S.th[S.cur].st;
    std::string first;
    for (size_t i = st.size(); i-- > 0;) {
        Frame& f = st[i];
        if (f.ip >= f.fn->blocks[f.bb].insts.size()) continue;
        const Instruction* I = f.fn->blocks[f.bb].insts[f.ip].I;
        if (auto& dl = I->getDebugLoc()) {
            auto* sc = cast<DIScope>(dl->getScope());
            std::string s = sc->getFilename().str() + ":" + std::to_string(dl.getLine());
            if (first.empty()) first = s;
            if (s.find("/repo/") != std::string::npos) return s;
            for (auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) {
                std::string s2 = cast<DIScope>(ia->getScope())->getFilename().str() + ":" + std::to_string(ia->getLine());
                if (s2.find("/repo/") != std::string::npos) return s2;
            }
        }
    }
    return first.empty() ? st.back().fn->name : first;
}
std::vector<std::string> Executor::stackTrace(State& S) {
    std::vector<std::string> r;
    auto& st = S.th[S.cur].st;
    for (size_t i = st.size(); i-- > 0 && r.size() < 40;) {
        Frame& f = st[i];
        std::string s = demangle(f.fn->name);
        if (s.size() > 160) s.resize(160);
        if (f.ip < f.fn->blocks[f.bb].insts.size())
            if (auto& dl = f.fn->blocks[f.bb].insts[f.ip].I->getDebugLoc()) {
                s += " @ " + cast<DIScope>(dl->getScope())->getFilename().str() + ":" + std::to_string(dl.getLine());
                for (auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) s += " <- " + cast<DIScope>(ia->getScope())->getFilename().str() + ":" + std::to_string(ia->getLine());
            }
        r.push_back(s);
    }
    return r;
}
void Executor::collectInputs(State& S, const Model& m, std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>& out) {
    evalNewEpoch();
    for (auto& i : S.inputs) out.push_back({i.name, {i.w, (uint64_t)evalExprCont(i.e, m)}});
}
void Executor::recordBug(State& S, const std::string& kind, const std::string& msg, const Model& m) {
    std::string loc = where(S);
    std::string key = kind + "|" + msg + "|" + loc;
    R.bugPaths++;
    if (!R.bugKeys.insert(key).second && R.bugs.size() >= 2) return;
    if (R.bugs.size() >= cfg.maxBugs) return;
    if (*g_firstBug == 0) *g_firstBug = nowSec();
    Bug b; b.kind = kind; b.msg = msg; b.loc = loc; b.sched = S.sched; b.stack = stackTrace(S);
    collectInputs(S, m, b.inputs);
    evalNewEpoch();
    for (auto& o : S.obs) b.obs.push_back({o.name, (uint64_t)evalExprCont(o.e, m)});
    R.bugs.push_back(b);
    if (cfg.verbose) {
        errs() << "BUG " << kind << ": " << msg << " at " << loc << "\n";
        for (auto& s : b.stack) errs() << "    " << s << "\n";
        for (auto& i : b.inputs) errs() << "    " << i.first << " = " << i.second.second << "\n";
        errs() << "    sched:"; for (int t : S.sched) errs() << " " << t; errs() << "\n";
    }
}
void Executor::bug(State& S, const std::string& kind, const std::string& msg, Model* m) {
    recordBug(S, kind, msg, m ? *m : *S.model);
    throw PathEnd{2, kind};
}
void Executor::incomplete(State& S, const std::string& why) {
    if (cfg.verbose) { errs() << "INCOMPLETE " << why << "\n"; for (auto& s : stackTrace(S)) errs() << "    " << s << "\n"; }
    throw PathEnd{3, why};
}
void Executor::finishPath(State& S) {
    R.paths++;
    if (!S.pc.empty() || S.sched.size()) R.symPaths++;
    bool keepIt = R.samples.size() < cfg.maxSamples;
    size_t slot = R.samples.size();
    if (!keepIt && cfg.maxSamples) { // reservoir with a deterministic generator
        static uint64_t rng = 88172645463325252ull + cfg.seed; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        uint64_t j = rng % R.paths; if (j < cfg.maxSamples) { keepIt = true; slot = j; }
    }
    if (keepIt) {
        Sample s; collectInputs(S, *S.model, s.inputs); evalNewEpoch();
        for (auto& o : S.obs) s.obs.push_back({o.name, (uint64_t)evalExprCont(o.e, *S.model)});
        s.sched = S.sched;
        if (slot == R.samples.size()) R.samples.push_back(s); else R.samples[slot] = s;
    }
}

// ---------------------------------------------------------------- symbolic decisions
void Executor::addC(State& S, Ex c) { if (isTrue(c)) return; for (size_t i = S.pc.size(), k = 0; i-- > 0 && k < 8; ++k) if (S.pc[i] == c) return; S.pc.push_back(c); }
uint64_t Executor::evalM(State& S, const Val& v, unsigned) { return v.e ? (uint64_t)evalExpr(v.e, *S.model) : v.c; }
bool Executor::mayBeTrue(State& S, Ex c, Model* out) {
    if (isConst(c)) { if (c->val && out) out->clear(); return c->val != 0; }
    for (size_t i = S.pc.size(), k = 0; i-- > 0 && k < 64; ++k) { if (S.pc[i] == c) { if (out) out->clear(); return true; } }
    Ex nc = mkNot(c);
    for (size_t i = S.pc.size(), k = 0; i-- > 0 && k < 64; ++k) if (S.pc[i] == nc) return false;
    std::vector<Ex> cs; sliceFor(S.pc, c, cs); cs.push_back(c);
    Model m; Res r = solveConj(cs, m);
    if (r == Res::Unknown) incomplete(S, "solver gave no answer within its limit");
    if (r == Res::Sat && out) *out = m;
    return r == Res::Sat;
}
State* Executor::forkWith(State& S, Ex c, const Model& m) {
    State* n = new State(S);
    auto nm = std::make_shared<Model>(*S.model);
    for (auto& kv : m) (*nm)[kv.first] = kv.second;
    n->model = nm;
    if (c) addC(*n, c);
    n->forks++;
    work.push_back(n);
    R.forks++; forked = true;
    static const bool profile = getenv("SYM_FORKS");
    if (profile) { std::string k; auto st = stackTrace(S); for (size_t i = 0; i < st.size() && i < 4; ++i) k += st[i] + " < "; R.why["fork: " + k]++; }
    return n;
}
bool Executor::branch(State& S, Ex c) {
    if (isConst(c)) return c->val != 0;
    bool v = evalExpr(c, *S.model) != 0;
    Ex taken = v ? c : mkNot(c), other = v ? mkNot(c) : c;
    Model m;
    if (mayBeTrue(S, other, &m)) { forkWith(S, other, m); addC(S, taken); }
    return v;
}
uint64_t Executor::concretize(State& S, const Val& v, unsigned w) {
    if (isC(v)) return v.c;
    u128 x = evalExpr(v.e, *S.model);
    Ex eq = mkBin(Op::Eq, v.e, mkConst(x, v.e->w));
    if (isTrue(eq)) return (uint64_t)x;
    Model m;
    Ex ne = mkNot(eq);
    if (mayBeTrue(S, ne, &m)) { forkWith(S, ne, m); addC(S, eq); }
    return (uint64_t)x;
}

// ---------------------------------------------------------------- memory
Ex Executor::byteAt(const MObj* o, uint64_t off) { if (o->sym && o->sym[off]) return o->sym[off]; return mkConst(o->bytes[off], 8); }
void Executor::setByte(MObj* o, uint64_t off, Ex e) {
    if (isConst(e)) { o->bytes[off] = (uint8_t)e->val; if (o->sym) o->sym[off] = nullptr; return; }
    if (!o->sym) { o->sym = (Ex*)calloc(o->size ? o->size : 1, sizeof(Ex)); }
    o->sym[off] = e;
}
MObj* Executor::access(State& S, uint64_t a, uint64_t n, bool write, uint64_t& base) {
    MObj* o = write ? S.mem.findW(a, base) : S.mem.find(a, base);
    char buf[160];
    if (!o) { snprintf(buf, sizeof buf, "%s of %llu bytes through invalid pointer 0x%llx", write ? "write" : "read", (unsigned long long)n, (unsigned long long)a); bug(S, "memory", a < 4096 ? "null pointer dereference" : buf); }
    if (!(o->flags & F_ALIVE)) bug(S, "memory", write ? "write to freed memory" : "read of freed memory");
    if (a - base + n > o->size) { bug(S, "memory", write ? "out-of-bounds write" : "out-of-bounds read"); }
    if (write && (o->flags & F_RO)) bug(S, "memory", "write to constant");
    return o;
}
static unsigned trailingZeros(Ex e) {
    switch (e->op) {
    case Op::Const: { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    case Op::Concat: { unsigned t = trailingZeros(e->k[1]); return t == e->k[1]->w ? t + trailingZeros(e->k[0]) : t; }
    case Op::ZExt: case Op::SExt: return trailingZeros(e->k[0]);
    case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case Op::Mul: return std::min<unsigned>(e->w, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case Op::Ite: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    default: return 0;
    }
}
// Resolve a symbolic address to a concrete one (forking); or, for loads from small objects, tell the
// caller to build a table (address then is the object's base).
uint64_t Executor::resolve(State& S, const Val& addr, uint64_t n, bool write, bool& table) {
    table = false;
    if (isC(addr)) return addr.c;
    uint64_t a0 = (uint64_t)evalExpr(addr.e, *S.model), base;
    MObj* o = S.mem.find(a0, base);
    if (!o || !(o->flags & F_ALIVE) || a0 - base + n > o->size) { // the model's own address is bad
        access(S, a0, n, write, base);
    }
    // anything outside this object?
    Ex rel = mkBin(Op::Sub, addr.e, mkConst(base, 64));
    Ex in = mkBin(Op::Ule, rel, mkConst(o->size - n, 64));
    Model m;
    if (mayBeTrue(S, mkNot(in), &m)) { forkWith(S, mkNot(in), m); addC(S, in); }
    if (!write && o->size <= 2048) { table = true; return base; }
    return concretize(S, addr, 64);
}
static inline uint64_t ldle(const uint8_t* p, unsigned n) { uint64_t v = 0; memcpy(&v, p, n); return v; }
Val Executor::load(State& S, const Val& addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool table = false;
    uint64_t a = addr.e ? resolve(S, addr, n, false, table) : addr.c, base;
    if (table) {
        MObj* o = access(S, a, 0, false, base);
        if (S.multi) raceAccess(S, base, o->size, false);
        Ex rel = mkBin(Op::Sub, addr.e, mkConst(base, 64));
        unsigned tz = std::min(trailingZeros(addr.e), trailingZeros(mkConst(base, 64)));
        uint64_t stride = tz >= 12 ? 4096 : (1ull << tz);
        auto cell = [&](uint64_t off) { Ex v = nullptr; for (unsigned k = n; k-- > 0;) { Ex b = byteAt(o, off + k); v = v ? mkConcat(v, b) : b; } return v; };
        // group equal cells into runs to keep the chain short
        std::vector<std::pair<uint64_t, Ex>> cells;
        for (uint64_t off = 0; off + n <= o->size; off += stride) cells.push_back({off, cell(off)});
        Ex r = cells.back().second;
        size_t i = cells.size() - 1;
        while (i > 0) {
            size_t j = i; // run of equal values ending before cells[i..]
            Ex v = cells[i - 1].second; j = i - 1;
            while (j > 0 && cells[j - 1].second == v) --j;
            if (v != r) r = mkIte(mkBin(Op::Ult, rel, mkConst(cells[i].first, 64)), v, r);
            i = j;
        }
        if (w < n * 8) r = mkTrunc(r, w);
        return mkVal(r);
    }
    MObj* o = access(S, a, n, false, base);
    if (S.multi) raceAccess(S, a, n, false);
    uint64_t off = a - base;
    bool sym = false;
    if (o->sym) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { sym = true; break; }
    if (!sym) {
        if (n <= 8) { uint64_t v = ldle(o->bytes + off, n); if (w < 64) v &= (1ull << w) - 1; return cval(v); }
        u128 v = 0; memcpy(&v, o->bytes + off, n); return Val{0, mkConst(v, w)};
    }
    Ex v = nullptr;
    for (unsigned k = n; k-- > 0;) { Ex b = byteAt(o, off + k); v = v ? mkConcat(v, b) : b; }
    if (w < n * 8) v = mkTrunc(v, w);
    return mkVal(v);
}
void Executor::store(State& S, const Val& addr, const Val& v, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool table = false;
    uint64_t a = addr.e ? resolve(S, addr, n, true, table) : addr.c, base;
    MObj* o = access(S, a, n, true, base);
    if (S.multi) raceAccess(S, a, n, true);
    uint64_t off = a - base;
    if (isC(v)) { memcpy(o->bytes + off, &v.c, n); if (o->sym) for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr; return; }
    Ex e = v.e;
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i) setByte(o, off + i, mkExtract(e, i * 8, 8));
}
void Executor::copyMem(State& S, uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return;
    uint64_t bs, bd;
    MObj* so = access(S, s, n, false, bs);
    if (S.multi) { raceAccess(S, s, n, false); raceAccess(S, d, n, true); }
    MObj* dobj = access(S, d, n, true, bd);
    so = S.mem.find(s, bs); // d may share a chunk copy with s
    uint64_t so_ = s - bs, do_ = d - bd;
    memmove(dobj->bytes + do_, so->bytes + so_, n);
    if (so->sym || dobj->sym) {
        std::vector<Ex> t(n, nullptr);
        if (so->sym) for (uint64_t i = 0; i < n; ++i) t[i] = so->sym[so_ + i];
        bool any = false; for (auto x : t) if (x) { any = true; break; }
        if (any && !dobj->sym) dobj->sym = (Ex*)calloc(dobj->size, sizeof(Ex));
        if (dobj->sym) for (uint64_t i = 0; i < n; ++i) dobj->sym[do_ + i] = t[i];
    }
}
std::string Executor::cstr(State& S, uint64_t a, size_t max) {
    std::string r; uint64_t b; MObj* o = S.mem.find(a, b);
    if (!o || !(o->flags & F_ALIVE)) return r;
    for (uint64_t i = a - b; i < o->size && r.size() < max; ++i) {
        uint8_t c = o->sym && o->sym[i] ? (uint8_t)evalExpr(o->sym[i], *S.model) : o->bytes[i];
        if (!c) break; r += (char)c;
    }
    return r;
}
std::string Executor::strN(State& S, uint64_t a, size_t n) {
    std::string r; uint64_t b; MObj* o = S.mem.find(a, b);
    if (!o || !(o->flags & F_ALIVE)) return r;
    for (uint64_t i = a - b; i < o->size && r.size() < n; ++i) r += (char)(o->sym && o->sym[i] ? (uint8_t)evalExpr(o->sym[i], *S.model) : o->bytes[i]);
    return r;
}
uint64_t Executor::malloc_(State& S, uint64_t n, uint8_t fl) {
    if (n > (1ull << 30)) incomplete(S, "huge allocation");
    const Instruction* site = nullptr;
    uint64_t a = S.mem.alloc(n, fl, site);
    uint64_t b; MObj* o = S.mem.findW(a, b); memset(o->bytes, 0xCD, n);
    return a;
}
uint64_t Executor::rd(State& S, uint64_t a, unsigned w) { Val v = load(S, cval(a), w); return v.e ? (uint64_t)evalExpr(v.e, *S.model) : v.c; }
void Executor::wr(State& S, uint64_t a, uint64_t v, unsigned w) { store(S, cval(a), cval(v), w); }

// ---------------------------------------------------------------- control flow
static inline Val get(const Opnd& o, const Frame& f) { if (o.slot >= 0) return f.regs[o.slot]; return Val{o.c, o.e}; }
static inline Val getN(const Opnd& o, const Frame& f, unsigned i) { if (o.slot >= 0) return f.regs[o.slot + i]; if (o.agg) return (*o.agg)[i]; return Val{o.c, o.e}; }

void Executor::setRes(State& S, const Inst& I, const Val& v) { if (I.dst >= 0) S.fr().regs[I.dst] = v; }
void Executor::gotoBB(State& S, int bb) {
    Frame& f = S.fr();
    int prev = f.bb;
    BlockInfo& B = f.fn->blocks[bb];
    if (!B.phis.empty()) {
        Val tmp[64]; std::vector<Val> big; size_t total = 0;
        for (auto& p : B.phis) total += p.n;
        Val* t = tmp; if (total > 64) { big.resize(total); t = big.data(); }
        size_t k = 0;
        for (auto& p : B.phis) {
            const Opnd* src = nullptr;
            for (auto& in : p.in) if (in.first == prev) { src = &in.second; break; }
            for (unsigned i = 0; i < p.n; ++i) t[k++] = src ? getN(*src, f, i) : cval(0);
        }
        k = 0;
        for (auto& p : B.phis) for (unsigned i = 0; i < p.n; ++i) f.regs[p.dst + i] = t[k++];
    }
    f.prevBB = prev; f.bb = bb; f.ip = 0;
}
void Executor::pushCall(State& S, FnInfo* f, const std::vector<Val>& args, const Inst*) {
    auto& st = S.th[S.cur].st;
    if (st.size() > 2000) bug(S, "memory", "stack overflow (unbounded recursion)");
    f->calls++;
    bool model = false;
    if (!st.empty()) { Frame& c = st.back(); model = c.model || (c.ip < c.fn->blocks[c.bb].insts.size() && c.fn->blocks[c.bb].insts[c.ip].model); }
    st.emplace_back();
    Frame& n = st.back();
    n.model = model;
    n.fn = f; n.bb = 0; n.ip = 0; n.prevBB = -1;
    n.regs.resize(f->nslots, Val{0, nullptr});
    size_t k = 0;
    for (size_t i = 0; i < f->argSlot.size(); ++i) for (unsigned j = 0; j < f->argN[i]; ++j) if (k < args.size()) n.regs[f->argSlot[i] + j] = args[k++];
    if (f->model < 0) { auto* sp = f->F->getSubprogram(); f->model = sp && (modelFile(sp)); }
    if (f->model) n.model = true;
    if (f->F->isVarArg()) { for (; k < args.size(); ++k) n.varargs.push_back(args[k]); }
}
void Executor::doRet(State& S, std::vector<Val> rv) {
    auto& st = S.th[S.cur].st;
    for (uint64_t a : st.back().allocas) S.mem.kill(a);
    bool disc = st.back().discardRet;
    st.pop_back();
    if (st.empty()) return; // thread finished
    if (disc) return;       // interrupted instruction is re-executed or continues at its own pace
    Frame& f = st.back();
    const Inst& I = f.fn->blocks[f.bb].insts[f.ip];
    if (I.dst >= 0) for (unsigned i = 0; i < I.n && i < rv.size(); ++i) f.regs[I.dst + i] = rv[i];
    if (I.opc == Instruction::Invoke) gotoBB(S, I.b0); else f.ip++;
}

void Executor::callInst(State& S, const Inst& I) {
    Frame& f = S.fr();
    const Function* callee = I.callee;
    Handler h = I.handler;
    unsigned na = (unsigned)I.on.size();
    std::vector<Val> args;
    args.reserve(na + 2);
    for (unsigned i = 0; i < na; ++i) for (unsigned j = 0; j < I.on[i]; ++j) args.push_back(getN(I.o[i], f, j));
    if (!callee) {
        Val cv = get(I.o[na], f);
        uint64_t a = concretize(S, cv, 64);
        uint64_t i = (a - FNBASE) / 16;
        if (a < FNBASE || i >= fnByIdx.size() || (a & 15)) bug(S, "memory", "call through invalid function pointer");
        callee = fnByIdx[i];
        auto it = handlers.find(callee->getName().str());
        if (it != handlers.end()) h = it->second;
    }
    if (h) {
        size_t depth = S.th[S.cur].st.size(); int cur = S.cur; (void)depth; (void)cur;
        h(*this, S, I, args);
        return;
    }
    if (callee->isDeclaration()) {
        incomplete(S, "call of function without definition: " + demangle(callee->getName().str()));
    }
    FnInfo* fi = I.calleeInfo;
    if (!fi || fi->F != callee) { fi = info(callee); if (I.callee) const_cast<Inst&>(I).calleeInfo = fi; }
    // byval arguments are copied
    auto* cb = cast<CallBase>(I.I);
    std::vector<uint64_t> copies;
    for (unsigned i = 0, k = 0; i < na; ++i) {
        if (i < callee->arg_size() && callee->getArg(i)->hasByValAttr() && cb->isByValArgument(i)) {
            uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
            uint64_t src = concretize(S, args[k], 64);
            uint64_t c = malloc_(S, sz, F_STACK); copyMem(S, c, src, sz); args[k] = cval(c); copies.push_back(c);
        }
        k += I.on[i];
    }
    if (fi->F->isVarArg()) { // integers narrower than 64 bits are passed in 8-byte slots
        unsigned k = 0, fixed = 0; std::vector<unsigned> ws;
        for (unsigned i = 0; i < na; ++i) { if (i < callee->arg_size()) fixed += I.on[i]; else { std::vector<Leaf> l; flatten(cb->getArgOperand(i)->getType(), 0, l); for (auto& x : l) ws.push_back(x.w); } k += I.on[i]; }
        pushCall(S, fi, args, &I);
        S.fr().varw = ws;
    } else pushCall(S, fi, args, &I);
    for (uint64_t c : copies) S.fr().allocas.push_back(c);
}

// ---------------------------------------------------------------- exceptions
// typeinfo objects: [vptr][name][base...]
bool Executor::upcast(State& S, uint64_t from, uint64_t to, uint64_t obj, uint64_t& adj) {
    if (from == to) { adj = obj; return true; }
    uint64_t n1 = rd(S, from + 8, 64), n2 = rd(S, to + 8, 64);
    if (n1 == n2 || cstr(S, n1) == cstr(S, n2)) { adj = obj; return true; }
    uint64_t vp = rd(S, from, 64);
    if (vp == vt_si && vt_si) return upcast(S, rd(S, from + 16, 64), to, obj, adj);
    if (vp == vt_vmi && vt_vmi) {
        uint64_t cnt = rd(S, from + 20, 32);
        for (uint64_t i = 0; i < cnt; ++i) {
            uint64_t b = rd(S, from + 24 + 16 * i, 64); int64_t of = (int64_t)rd(S, from + 32 + 16 * i, 64);
            uint64_t o2 = obj;
            if (obj) { if (of & 1) { uint64_t vt = rd(S, obj, 64); o2 = obj + rd(S, vt + (of >> 8), 64); } else o2 = obj + (of >> 8); }
            if (!(of & 2)) continue; // not public
            if (upcast(S, b, to, o2, adj)) return true;
        }
    }
    return false;
}
bool Executor::canCatch(State& S, uint64_t c, uint64_t t, uint64_t obj, uint64_t& adj) {
    adj = obj;
    if (!c) return true;
    return upcast(S, t, c, obj, adj);
}
// exception header (see runtime/rt.cpp): at obj-64: [typeinfo][dtor][refs][handlers][adjusted][next]
void Executor::raise(State& S, uint64_t obj) {
    uint64_t ti = rd(S, obj - 64, 64);
    auto& st = S.th[S.cur].st;
    // phase 1: is there a handler at all?
    bool found = false;
    for (size_t i = st.size(); i-- > 0 && !found;) {
        Frame& f = st[i];
        const Inst& I = f.fn->blocks[f.bb].insts[f.ip];
        if (I.opc != Instruction::Invoke) continue;
        auto* lp = cast<InvokeInst>(I.I)->getLandingPadInst();
        for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
            if (lp->isCatch(k)) { uint64_t adj, cti = constVal(lp->getClause(k)).c; if (canCatch(S, cti, ti, obj, adj)) { found = true; break; } }
            else { if (lp->getClause(k)->getNumOperands() == 0 || isa<ConstantAggregateZero>(lp->getClause(k))) { found = true; break; } }
        }
    }
    if (!found) {
        uint64_t nm = rd(S, ti + 8, 64);
        std::string n = cstr(S, nm); if (!n.empty() && n[0] == '*') n = n.substr(1);
        bug(S, "terminate", "uncaught exception of type " + demangle("_ZTS" + n) + (S.cur ? " in a worker thread" : ""));
    }
    while (!st.empty()) {
        Frame& f = st.back();
        const Inst& I = f.fn->blocks[f.bb].insts[f.ip];
        if (I.opc == Instruction::Invoke) {
            auto* lp = cast<InvokeInst>(I.I)->getLandingPadInst();
            bool land = lp->isCleanup(); uint64_t sel = 0, adj = obj;
            for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                if (lp->isCatch(k)) {
                    uint64_t cti = constVal(lp->getClause(k)).c;
                    if (canCatch(S, cti, ti, obj, adj)) { land = true; sel = typeIdx(cti); break; }
                } else if (isa<ConstantAggregateZero>(lp->getClause(k)) || lp->getClause(k)->getNumOperands() == 0) { land = true; sel = 0xffffffff; break; }
            }
            if (land) {
                wr(S, obj - 64 + 32, adj, 64);
                gotoBB(S, I.b1);
                // position on the landingpad and fill it
                Frame& f2 = S.fr();
                const Inst& L = f2.fn->blocks[f2.bb].insts[f2.ip];
                f2.regs[L.dst] = cval(obj); if (L.n > 1) f2.regs[L.dst + 1] = cval(sel);
                f2.ip++;
                return;
            }
        }
        for (uint64_t a : f.allocas) S.mem.kill(a);
        if (f.discardRet) bug(S, "terminate", "exception leaves a callback");
        st.pop_back();
    }
    bug(S, "terminate", "unwound past the end of the stack");
}

// ---------------------------------------------------------------- main loop
static Op binOp(unsigned opc) {
    switch (opc) {
    case Instruction::Add: return Op::Add; case Instruction::Sub: return Op::Sub; case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv; case Instruction::SDiv: return Op::SDiv; case Instruction::URem: return Op::URem; case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And; case Instruction::Or: return Op::Or; case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl; case Instruction::LShr: return Op::LShr; case Instruction::AShr: return Op::AShr;
    case Instruction::FAdd: return Op::FAdd; case Instruction::FSub: return Op::FSub; case Instruction::FMul: return Op::FMul; case Instruction::FDiv: return Op::FDiv; case Instruction::FRem: return Op::FRem;
    }
    abort();
}
static Ex icmp(CmpInst::Predicate p, Ex a, Ex b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(Op::Eq, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(Op::Eq, a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b); case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a); case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b); case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a); case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    default: abort();
    }
}
static bool icmpC(CmpInst::Predicate p, uint64_t a, uint64_t b, unsigned w) {
    int64_t x = (int64_t)sextW(a, w), y = (int64_t)sextW(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y;
    default: abort();
    }
}
static Ex fcmp(CmpInst::Predicate p, Ex a, Ex b) {
    auto LT = [](Ex x, Ex y) { return mkBin(Op::FLt, x, y); }; auto LE = [](Ex x, Ex y) { return mkBin(Op::FLe, x, y); };
    auto UNO = [](Ex x, Ex y) { return mkBin(Op::FUno, x, y); }; auto EQ = [](Ex x, Ex y) { return mkBin(Op::FEq, x, y); };
    switch (p) {
    case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
    case CmpInst::FCMP_OEQ: return EQ(a, b); case CmpInst::FCMP_OGT: return LT(b, a); case CmpInst::FCMP_OGE: return LE(b, a);
    case CmpInst::FCMP_OLT: return LT(a, b); case CmpInst::FCMP_OLE: return LE(a, b);
    case CmpInst::FCMP_ONE: return mkBin(Op::Or, LT(a, b), LT(b, a));
    case CmpInst::FCMP_ORD: return mkNot(UNO(a, b)); case CmpInst::FCMP_UNO: return UNO(a, b);
    case CmpInst::FCMP_UEQ: return mkBin(Op::Or, UNO(a, b), EQ(a, b));
    case CmpInst::FCMP_UGT: return mkNot(LE(a, b)); case CmpInst::FCMP_UGE: return mkNot(LT(a, b));
    case CmpInst::FCMP_ULT: return mkNot(LE(b, a)); case CmpInst::FCMP_ULE: return mkNot(LT(b, a));
    case CmpInst::FCMP_UNE: return mkNot(EQ(a, b));
    default: abort();
    }
}

void Executor::runPath(State& S) {
    uint64_t check = 0;
    for (;;) {
        Thread& T = S.th[S.cur];
        if (T.st.empty()) { // thread finished
            T.status = TS::Done; T.exitVC = T.vc;
            if (S.cur == 0) return;
            T.pend = PK::None;
            schedule(S, false);
            continue;
        }
        Frame& f = T.st.back();
        const Inst& I = f.fn->blocks[f.bb].insts[f.ip];
        ++S.steps; ++R.steps;
        if (S.steps > cfg.maxSteps) bug(S, "hang", "path exceeds the instruction limit");
        if ((++check & 0xffff) == 0 && timeUp()) incomplete(S, "time limit");
        if (cfg.trace) { errs() << "[" << S.cur << "] " << f.fn->name << ": " << *I.I << "\n"; }
        switch (I.opc) {
        case Instruction::Ret: {
            std::vector<Val> rv;
            if (!I.o.empty()) for (unsigned i = 0; i < I.on[0]; ++i) rv.push_back(getN(I.o[0], f, i));
            doRet(S, std::move(rv));
            break; }
        case Instruction::Br:
            if (I.o.empty()) gotoBB(S, I.b0);
            else {
                Val c = get(I.o[0], f);
                bool t = isC(c) ? (c.c & 1) : branch(S, c.e);
                gotoBB(S, t ? I.b0 : I.b1);
            }
            break;
        case Instruction::Switch: {
            Val c = get(I.o[0], f);
            int dst = I.b0;
            if (isC(c)) { for (auto& k : I.cases) if (k.first == c.c) { dst = k.second; break; } }
            else {
                // one decision per target block
                std::map<int, Ex> cond; Ex any = mkConst(0, 1);
                for (auto& k : I.cases) { Ex e = mkBin(Op::Eq, c.e, mkConst(k.first, I.ow)); auto& q = cond[k.second]; q = q ? mkBin(Op::Or, q, e) : e; any = mkBin(Op::Or, any, e); }
                uint64_t mv = (uint64_t)evalExpr(c.e, *S.model);
                for (auto& k : I.cases) if (k.first == mv) { dst = k.second; break; }
                Ex mine = nullptr;
                if (cond.count(dst)) { mine = cond[dst]; if (dst == I.b0) mine = mkBin(Op::Or, mine, mkNot(any)); } else mine = mkNot(any);
                Model m;
                if (mayBeTrue(S, mkNot(mine), &m)) { forkWith(S, mkNot(mine), m); addC(S, mine); }
            }
            gotoBB(S, dst);
            break; }
        case Instruction::Unreachable: bug(S, "unreachable", "unreachable code executed");
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            Op op = binOp(I.opc);
            bool isDiv = I.opc == Instruction::UDiv || I.opc == Instruction::SDiv || I.opc == Instruction::URem || I.opc == Instruction::SRem;
            for (unsigned i = 0; i < I.n; ++i) {
                Val a = getN(I.o[0], f, i), b = getN(I.o[1], f, i);
                if (isDiv) {
                    Ex z = mkBin(Op::Eq, toEx(b, I.w), mkConst(0, I.w));
                    if (!isFalse(z)) { if (branch(S, z)) bug(S, "arith", "division by zero"); }
                    if (I.opc == Instruction::SDiv || I.opc == Instruction::SRem) {
                        Ex ov = mkBin(Op::And, mkBin(Op::Eq, toEx(b, I.w), mkConst(maskW(I.w), I.w)), mkBin(Op::Eq, toEx(a, I.w), mkConst((u128)1 << (I.w - 1), I.w)));
                        if (!isFalse(ov)) { if (branch(S, ov)) bug(S, "arith", "signed division overflow"); }
                    }
                }
                if (isDiv && (I.w == 64 || I.w == 32) && !isC(b)) { // symbolic divisor: use the narrowest width that holds both operands
                    bool done = false;
                    for (unsigned k : {16u, 24u, 32u, 48u}) {
                        if (k >= I.w) break;
                        Ex lim = mkConst((u128)1 << k, I.w);
                        Ex out = mkBin(Op::Or, mkBin(Op::Ule, lim, toEx(a, I.w)), mkBin(Op::Ule, lim, toEx(b, I.w)));
                        if (isFalse(out) || !mayBeTrue(S, out)) {
                            Op uop = (I.opc == Instruction::UDiv || I.opc == Instruction::SDiv) ? Op::UDiv : Op::URem;
                            S.fr().regs[I.dst + i] = mkVal(mkZExt(mkBin(uop, mkExtract(toEx(a, I.w), 0, k), mkExtract(toEx(b, I.w), 0, k)), I.w));
                            done = true; break;
                        }
                    }
                    if (done) continue;
                }
                Frame& f2 = S.fr();
                if (isC(a) && isC(b) && I.w <= 64) {
                    uint64_t r; bool ok = true;
                    switch (op) {
                    case Op::Add: r = a.c + b.c; break; case Op::Sub: r = a.c - b.c; break; case Op::Mul: r = a.c * b.c; break;
                    case Op::And: r = a.c & b.c; break; case Op::Or: r = a.c | b.c; break; case Op::Xor: r = a.c ^ b.c; break;
                    default: r = (uint64_t)foldBin(op, a.c, b.c, I.w, ok);
                    }
                    if (I.w < 64) r &= (1ull << I.w) - 1;
                    f2.regs[I.dst + i] = cval(r);
                } else f2.regs[I.dst + i] = mkVal(mkBin(op, toEx(a, I.w), toEx(b, I.w)));
            }
            S.fr().ip++;
            break; }
        case Instruction::FNeg:
            for (unsigned i = 0; i < I.n; ++i) { Val a = getN(I.o[0], f, i); f.regs[I.dst + i] = mkVal(mkBin(Op::Xor, toEx(a, I.w), mkConst((u128)1 << (I.w - 1), I.w))); }
            f.ip++; break;
        case Instruction::ICmp: {
            auto p = cast<CmpInst>(I.I)->getPredicate();
            for (unsigned i = 0; i < I.n; ++i) {
                Val a = getN(I.o[0], f, i), b = getN(I.o[1], f, i);
                if (isC(a) && isC(b) && I.ow <= 64) f.regs[I.dst + i] = cval(icmpC(p, a.c, b.c, I.ow));
                else f.regs[I.dst + i] = mkVal(icmp(p, toEx(a, I.ow), toEx(b, I.ow)));
            }
            f.ip++; break; }
        case Instruction::FCmp: {
            auto p = cast<CmpInst>(I.I)->getPredicate();
            for (unsigned i = 0; i < I.n; ++i) f.regs[I.dst + i] = mkVal(fcmp(p, toEx(getN(I.o[0], f, i), I.ow), toEx(getN(I.o[1], f, i), I.ow)));
            f.ip++; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
            for (unsigned i = 0; i < I.n; ++i) {
                Val a = getN(I.o[0], f, i);
                switch (I.opc) {
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
                    if (isC(a) && I.w <= 64) f.regs[I.dst + i] = cval(I.w < 64 ? a.c & ((1ull << I.w) - 1) : a.c);
                    else if (I.w < I.ow) f.regs[I.dst + i] = mkVal(mkTrunc(toEx(a, I.ow), I.w));
                    else f.regs[I.dst + i] = mkVal(mkZExt(toEx(a, I.ow), I.w));
                    break;
                case Instruction::SExt:
                    if (isC(a) && I.w <= 64) f.regs[I.dst + i] = cval((uint64_t)sextW(a.c, I.ow) & (uint64_t)maskW(I.w));
                    else f.regs[I.dst + i] = mkVal(mkSExt(toEx(a, I.ow), I.w));
                    break;
                default: {
                    Op op = I.opc == Instruction::FPToSI ? Op::FToSI : I.opc == Instruction::FPToUI ? Op::FToUI : I.opc == Instruction::SIToFP ? Op::SIToF : I.opc == Instruction::UIToFP ? Op::UIToF : I.opc == Instruction::FPExt ? Op::FPExt : Op::FPTrunc;
                    if (I.ow == 80 || I.w == 80) incomplete(S, "long double");
                    f.regs[I.dst + i] = mkVal(mkUn(op, toEx(a, I.ow), I.w)); }
                }
            }
            f.ip++; break;
        case Instruction::BitCast: {
            auto* t0 = I.I->getOperand(0)->getType(); (void)t0;
            if (I.on[0] == I.n) { for (unsigned i = 0; i < I.n; ++i) f.regs[I.dst + i] = getN(I.o[0], f, i); }
            else { // vector <-> scalar or different element counts: go through one wide expression
                Ex acc = nullptr;
                for (unsigned i = 0; i < I.on[0]; ++i) { Ex e = toEx(getN(I.o[0], f, i), I.ow); acc = acc ? mkConcat(e, acc) : e; }
                for (unsigned i = 0; i < I.n; ++i) { Ex e = mkExtract(acc, i * I.w, I.w); f.regs[I.dst + i] = mkVal(e); }
            }
            f.ip++; break; }
        case Instruction::Freeze:
            for (unsigned i = 0; i < I.n; ++i) f.regs[I.dst + i] = getN(I.o[0], f, i);
            f.ip++; break;
        case Instruction::Select: {
            Val c = get(I.o[0], f);
            bool vec = I.on[0] > 1;
            // avoid symbolic pointers: fork when the selected values are different pointers
            bool ptr = I.I->getType()->isPointerTy();
            if (!vec && !isC(c) && (ptr || I.n > 1)) { bool t = branch(S, c.e); c = cval(t); }
            Frame& f2 = S.fr();
            for (unsigned i = 0; i < I.n; ++i) {
                Val ci = vec ? getN(I.o[0], f2, i) : c;
                Val a = getN(I.o[1], f2, i), b = getN(I.o[2], f2, i);
                unsigned w = I.leaves[i].w;
                if (isC(ci)) f2.regs[I.dst + i] = (ci.c & 1) ? a : b;
                else f2.regs[I.dst + i] = mkVal(mkIte(ci.e, toEx(a, w), toEx(b, w)));
            }
            f2.ip++; break; }
        case Instruction::Alloca: {
            auto* ai = cast<AllocaInst>(I.I);
            uint64_t n = concretize(S, get(I.o[0], f), 64) * DL->getTypeAllocSize(ai->getAllocatedType());
            uint64_t a = malloc_(S, n, F_STACK);
            Frame& f2 = S.fr();
            f2.allocas.push_back(a); f2.regs[I.dst] = cval(a); f2.ip++; break; }
        case Instruction::Load: {
            Val p = get(I.o[0], f);
            if (cast<LoadInst>(I.I)->isAtomic() && S.concurrent) {
                if (!syncPoint(S, PK::Atomic, p.c)) break;
                vcJoin(S.th[S.cur].vc, S.avc[p.c & ~7ull]);
                bool mu = S.multi; S.multi = false; Val v = load(S, p, I.w); S.multi = mu;
                Frame& f2 = S.fr(); f2.regs[I.dst] = v; f2.ip++; break;
            }
            if (I.n == 1) { Val v = load(S, p, I.w); Frame& f2 = S.fr(); f2.regs[I.dst] = v; f2.ip++; }
            else {
                if (!isC(p)) p = cval(concretize(S, p, 64));
                for (unsigned i = 0; i < I.n; ++i) { Val v = load(S, cval(p.c + I.leaves[i].off), I.leaves[i].w); S.fr().regs[I.dst + i] = v; }
                S.fr().ip++;
            }
            break; }
        case Instruction::Store: {
            Val p = get(I.o[1], f);
            if (cast<StoreInst>(I.I)->isAtomic() && S.concurrent) {
                if (!syncPoint(S, PK::Atomic, p.c)) break;
                vcJoin(S.avc[p.c & ~7ull], S.th[S.cur].vc); vcTick(S, S.cur);
                Frame& f2 = S.fr();
                bool mu = S.multi; S.multi = false; store(S, p, get(I.o[0], f2), I.ow); S.multi = mu;
                S.fr().ip++; break;
            }
            if (I.leaves.size() == 1) store(S, p, get(I.o[0], f), I.ow);
            else {
                if (!isC(p)) p = cval(concretize(S, p, 64));
                for (unsigned i = 0; i < I.leaves.size(); ++i) store(S, cval(p.c + I.leaves[i].off), getN(I.o[0], S.fr(), i), I.leaves[i].w);
            }
            S.fr().ip++; break; }
        case Instruction::GetElementPtr: {
            Val b = get(I.o[0], f);
            if (I.n > 1) incomplete(S, "vector getelementptr");
            bool allC = isC(b);
            uint64_t r = b.c + I.off;
            Ex e = allC ? nullptr : mkBin(Op::Add, b.e, mkConst((uint64_t)I.off, 64));
            for (size_t i = 0; i < I.scale.size(); ++i) {
                Val x = get(I.o[1 + i], f);
                if (isC(x) && allC) r += (uint64_t)sextW(x.c, I.sw[i]) * I.scale[i];
                else {
                    if (allC) { e = mkConst(r, 64); allC = false; }
                    Ex xi = toEx(x, I.sw[i]); xi = I.sw[i] < 64 ? mkSExt(xi, 64) : mkTrunc(xi, 64);
                    uint64_t sc = (uint64_t)I.scale[i]; Ex t;
                    if (sc && !(sc & (sc - 1))) { unsigned k = 0; while (!((sc >> k) & 1)) k++; t = mkBin(Op::Shl, xi, mkConst(k, 64)); } else t = mkBin(Op::Mul, xi, mkConst(sc, 64));
                    e = mkBin(Op::Add, e, t);
                }
            }
            f.regs[I.dst] = allC ? cval(r) : mkVal(e);
            f.ip++; break; }
        case Instruction::ExtractValue: for (unsigned i = 0; i < I.n; ++i) f.regs[I.dst + i] = getN(I.o[0], f, I.first + i); f.ip++; break;
        case Instruction::InsertValue: {
            std::vector<Val> t(I.n);
            for (unsigned i = 0; i < I.n; ++i) t[i] = getN(I.o[0], f, i);
            for (unsigned i = 0; i < I.on[0]; ++i) t[I.first + i] = getN(I.o[1], f, i);
            for (unsigned i = 0; i < I.n; ++i) f.regs[I.dst + i] = t[i];
            f.ip++; break; }
        case Instruction::ExtractElement: { uint64_t ix = concretize(S, get(I.o[1], f), 64); Frame& f2 = S.fr(); f2.regs[I.dst] = getN(I.o[0], f2, (unsigned)ix); f2.ip++; break; }
        case Instruction::InsertElement: {
            uint64_t ix = concretize(S, get(I.o[2], f), 64); Frame& f2 = S.fr();
            std::vector<Val> t(I.n); for (unsigned i = 0; i < I.n; ++i) t[i] = getN(I.o[0], f2, i);
            t[ix] = get(I.o[1], f2); for (unsigned i = 0; i < I.n; ++i) f2.regs[I.dst + i] = t[i];
            f2.ip++; break; }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(I.I); unsigned n0 = I.on[0]; std::vector<Val> t(I.n);
            for (unsigned i = 0; i < I.n; ++i) { int m = sv->getMaskValue(i); t[i] = m < 0 ? cval(0) : (unsigned)m < n0 ? getN(I.o[0], f, m) : getN(I.o[1], f, m - n0); }
            for (unsigned i = 0; i < I.n; ++i) f.regs[I.dst + i] = t[i];
            f.ip++; break; }
        case Instruction::Fence: f.ip++; break;
        case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
            Val p = get(I.o[0], f);
            if (S.concurrent) {
                if (!syncPoint(S, PK::Atomic, p.c)) break;
                VC& l = S.avc[p.c & ~7ull]; vcJoin(S.th[S.cur].vc, l); vcJoin(l, S.th[S.cur].vc); vcTick(S, S.cur);
            }
            bool mu = S.multi; S.multi = false;
            if (I.opc == Instruction::AtomicRMW) {
                auto* rm = cast<AtomicRMWInst>(I.I);
                unsigned w = I.w; Val old = load(S, p, w); Frame& f2 = S.fr(); Ex o = toEx(old, w), v = toEx(get(I.o[1], f2), w), n;
                switch (rm->getOperation()) {
                case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkBin(Op::Add, o, v); break; case AtomicRMWInst::Sub: n = mkBin(Op::Sub, o, v); break;
                case AtomicRMWInst::And: n = mkBin(Op::And, o, v); break; case AtomicRMWInst::Or: n = mkBin(Op::Or, o, v); break; case AtomicRMWInst::Xor: n = mkBin(Op::Xor, o, v); break;
                default: S.multi = mu; incomplete(S, "atomicrmw");
                }
                store(S, p, mkVal(n), w); S.fr().regs[I.dst] = old;
            } else {
                unsigned w = I.leaves[0].w; Val old = load(S, p, w); Frame& f2 = S.fr();
                Ex eq = mkBin(Op::Eq, toEx(old, w), toEx(get(I.o[1], f2), w));
                bool t = branch(S, eq);
                if (t) store(S, p, get(I.o[2], S.fr()), w);
                S.fr().regs[I.dst] = old; S.fr().regs[I.dst + 1] = cval(t);
            }
            S.multi = mu; S.fr().ip++; break; }
        case Instruction::Call: case Instruction::Invoke: callInst(S, I); break;
        case Instruction::LandingPad: bug(S, "engine", "landingpad reached by fallthrough");
        case Instruction::Resume: raise(S, getN(I.o[0], f, 0).c); break;
        default: { std::string s; raw_string_ostream os(s); os << *I.I; incomplete(S, "instruction not supported: " + os.str()); }
        }
        if (stopOnFork && forked) throw Yield{};
    }
}
