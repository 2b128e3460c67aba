// Thread scheduling (every interleaving at synchronisation operations, up to the preemption bound)
// and happens-before race detection.
#include "exec.h"
#include <algorithm>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

void Executor::vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
void Executor::vcTick(State& S, int t) { VC& v = S.th[t].vc; if (v.size() <= (size_t)t) v.resize(t + 1, 0); v[t]++; }

int Executor::newThread(State& S) {
    int id = (int)S.th.size();
    S.th.emplace_back();
    Thread& T = S.th.back();
    T.pend = PK::Start;
    T.vc = S.th[S.cur].vc;
    vcTick(S, id);
    vcTick(S, S.cur);
    S.concurrent = true;
    int live = 0; for (auto& t : S.th) if (t.status != TS::Done) live++;
    S.multi = cfg.race && live > 1;
    return id;
}
bool Executor::enabled(State& S, int t) {
    Thread& T = S.th[t];
    if (T.status == TS::Done) return false;
    if (T.status == TS::WaitCV) return T.timed && S.spurious < cfg.spurious + 1;
    switch (T.pend) {
    case PK::MutexLock: case PK::CvRelock: { auto it = S.mtx.find(T.paddr); return it == S.mtx.end() || (it->second.owner == -1 && it->second.readers.empty()); }
    case PK::WrLock: { auto it = S.mtx.find(T.paddr); return it == S.mtx.end() || (it->second.owner == -1 && it->second.readers.empty()); }
    case PK::RdLock: { auto it = S.mtx.find(T.paddr); return it == S.mtx.end() || it->second.owner == -1; }
    case PK::Join: return S.th[T.paddr].status == TS::Done;
    case PK::WaitChange: { uint64_t b; MObj* o = S.mem.find(T.paddr, b); if (!o || !(o->flags & F_ALIVE)) return true; uint32_t v; memcpy(&v, o->bytes + (T.paddr - b), 4); return v != (uint32_t)T.paddr2; }
    default: return true;
    }
}
bool Executor::syncPoint(State& S, PK k, uint64_t a, uint64_t a2, bool) {
    Thread& T = S.th[S.cur];
    if (T.go) { T.go = false; T.pend = PK::None; return true; }
    if (k == PK::Atomic) { Frame& f = S.fr(); if (f.model || f.fn->blocks[f.bb].insts[f.ip].model) return true; }
    T.pend = k; T.paddr = a; T.paddr2 = a2;
    int live = 0; for (auto& t : S.th) if (t.status != TS::Done) live++;
    if (live == 1 && enabled(S, S.cur)) { T.pend = PK::None; return true; }
    schedule(S, true);
    return false;
}
static void choose(State& S, int t, bool preempt) {
    S.sched.push_back(t);
    if (preempt) S.preemptions++;
    S.cur = t;
    Thread& T = S.th[t];
    if (T.pend == PK::Start) { T.pend = PK::None; T.go = false; }
    else T.go = true;
}
void Executor::schedule(State& S, bool) {
    for (;;) {
        R.schedPoints++;
        int n = (int)S.th.size(), live = 0;
        for (auto& t : S.th) if (t.status != TS::Done) live++;
        S.multi = cfg.race && live > 1;
        std::vector<int> en;
        for (int t = 0; t < n; ++t) if (enabled(S, t)) en.push_back(t);
        if (en.empty()) {
            // a timed wait may always time out when nothing else can happen
            for (int t = 0; t < n; ++t) if (S.th[t].status == TS::WaitCV && S.th[t].timed) en.push_back(t);
        }
        if (en.empty()) {
            std::string who; for (int t = 0; t < n; ++t) if (S.th[t].status != TS::Done) who += " " + std::to_string(t);
            if (S.th[S.cur].st.empty()) { for (int t = 0; t < n; ++t) if (!S.th[t].st.empty()) { S.cur = t; break; } }
            bug(S, "deadlock", "all live threads are blocked");
        }
        bool curEn = std::find(en.begin(), en.end(), S.cur) != en.end() && S.th[S.cur].status == TS::Run;
        std::vector<int> cand;
        if (curEn) cand.push_back(S.cur);
        if (!curEn || S.preemptions < cfg.preempt) for (int t : en) if (t != S.cur || !curEn) cand.push_back(t);
        auto apply = [&](State& Q, int t) -> bool { // returns true when another round is needed
            if (Q.th[t].status == TS::WaitCV) { // timeout
                Thread& T = Q.th[t];
                T.status = TS::Run; T.timedOut = true; T.pend = PK::CvRelock; T.paddr = T.cvMutex; T.go = false;
                for (auto& c : Q.cv) { auto& w = c.second.waiters; w.erase(std::remove(w.begin(), w.end(), t), w.end()); }
                Q.spurious++; Q.sched.push_back(-1 - t);
                return true;
            }
            choose(Q, t, curEn && t != S.cur);
            return false;
        };
        for (size_t i = 1; i < cand.size(); ++i) {
            State* q = forkWith(S, nullptr, Model());
            if (apply(*q, cand[i])) q->needSched = true;
        }
        if (!apply(S, cand[0])) return;
    }
}
void Executor::raceAccess(State& S, uint64_t a, uint64_t n, bool write) {
    if (!n) return;
    if (!S.th[S.cur].st.empty()) { Frame& f = S.fr(); if (f.model || (f.ip < f.fn->blocks[f.bb].insts.size() && f.fn->blocks[f.bb].insts[f.ip].model)) return; }
    uint64_t base; MObj* o = S.mem.findW(a, base);
    if (!o || !(o->flags & F_ALIVE) || (o->flags & F_RO) || a - base + n > o->size) return;
    if (S.cur >= 6) return;
    if (!o->shadow) { o->shadow = (SB*)calloc(o->size ? o->size : 1, sizeof(SB)); }
    VC& vc = S.th[S.cur].vc;
    auto le = [&](unsigned t, uint32_t c) { return c == 0 || t == (unsigned)S.cur || (t < vc.size() && c <= vc[t]); };
    uint32_t me = vc[S.cur];
    for (uint64_t i = a - base; i < a - base + n; ++i) {
        SB& s = o->shadow[i];
        if (!le(s.wt, s.wc)) bug(S, "race", write ? "conflicting unsynchronised writes" : "unsynchronised read of a written value");
        if (write) {
            for (unsigned t = 0; t < 6; ++t) if (!le(t, s.rc[t])) bug(S, "race", "unsynchronised write of a value being read");
            s.wt = (uint8_t)S.cur; s.wc = me; memset(s.rc, 0, sizeof s.rc);
        } else s.rc[S.cur] = me;
    }
}
