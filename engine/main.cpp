#include <sys/mman.h>
// Driver: symexec module.bc --entry f --out result.json [--opt name=value]...
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <sstream>
using namespace llvm;

static void endState(Executor& X, State* S, const PathEnd& e) {
    switch (e.kind) {
    case 0: X.finishPath(*S); break;
    case 1: X.R.infeasible++; X.R.why["cut: " + e.why]++; break;
    case 2: break;
    case 3: X.R.incomplete++; X.R.why["incomplete: " + e.why]++; break;
    }
    delete S;
}
void Executor::runState(State* S) {
    forked = false;
    try {
        if (S->needSched) { S->needSched = false; schedule(*S, true); }
        runPath(*S);
        finishPath(*S);
        delete S;
    } catch (PathEnd& e) { endState(*this, S, e); }
    catch (Yield&) { work.push_back(S); }
}
static json::Object statsJson(const SolverStats& s) {
    return json::Object{{"queries", (int64_t)s.queries}, {"sat", (int64_t)s.sat}, {"unsat", (int64_t)s.unsat}, {"unknown", (int64_t)s.unknown}, {"relaxed", (int64_t)s.relaxed}, {"cache", (int64_t)s.cacheHits}, {"seconds", s.seconds}, {"max_seconds", s.maxSeconds}};
}
static json::Array inputsJson(const std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>& in) {
    json::Array a; for (auto& i : in) a.push_back(json::Array{i.first, (int64_t)i.second.first, std::to_string(i.second.second)}); return a;
}
static json::Array obsJson(const std::vector<std::pair<std::string, uint64_t>>& in) { json::Array a; for (auto& i : in) a.push_back(json::Array{i.first, std::to_string(i.second)}); return a; }
static json::Object toJson(Executor& X) {
    Results& R = X.R;
    json::Object o{{"paths", (int64_t)R.paths}, {"infeasible", (int64_t)R.infeasible}, {"incomplete", (int64_t)R.incomplete}, {"bug_paths", (int64_t)R.bugPaths}, {"forks", (int64_t)R.forks}, {"steps", (int64_t)R.steps}, {"asserts", (int64_t)R.asserts}, {"assert_queries", (int64_t)R.assertQueries}, {"sched_points", (int64_t)R.schedPoints}, {"sym_paths", (int64_t)R.symPaths}};
    json::Object reach; for (auto& r : R.reach) reach[json::fixUTF8(r.first)] = (int64_t)r.second; o["reach"] = std::move(reach);
    json::Object why; for (auto& r : R.why) why[json::fixUTF8(r.first)] = (int64_t)r.second; o["why"] = std::move(why);
    json::Array bugs;
    for (auto& b : R.bugs) {
        json::Array st; for (auto& s : b.stack) st.push_back(json::fixUTF8(s)); json::Array sc; for (int t : b.sched) sc.push_back(t);
        bugs.push_back(json::Object{{"kind", b.kind}, {"msg", json::fixUTF8(b.msg)}, {"loc", b.loc}, {"inputs", inputsJson(b.inputs)}, {"obs", obsJson(b.obs)}, {"sched", std::move(sc)}, {"stack", std::move(st)}});
    }
    o["bugs"] = std::move(bugs);
    json::Array sm; for (auto& s : R.samples) { json::Array sc; for (int t : s.sched) sc.push_back(t); sm.push_back(json::Object{{"inputs", inputsJson(s.inputs)}, {"obs", obsJson(s.obs)}, {"sched", std::move(sc)}}); }
    o["samples"] = std::move(sm);
    for (auto& f : X.fns) if (f.second->fromRepo && f.second->calls) R.fns[demangle(f.second->name)] += f.second->calls;
    json::Object fn; for (auto& f : R.fns) fn[json::fixUTF8(f.first)] = (int64_t)f.second; o["functions"] = std::move(fn);
    json::Array sb; for (auto& s : R.stubs) sb.push_back(s); o["stubs"] = std::move(sb);
    o["solver"] = statsJson(g_sstats);
    return o;
}
static void addInt(json::Object& a, const json::Object& b, const char* k) { a[k] = a.getInteger(k).value_or(0) + b.getInteger(k).value_or(0); }
static void merge(json::Object& a, json::Object& b) {
    for (const char* k : {"paths", "infeasible", "incomplete", "bug_paths", "forks", "steps", "asserts", "assert_queries", "sched_points", "sym_paths"}) addInt(a, b, k);
    for (const char* k : {"reach", "why", "functions"}) {
        auto* x = a.getObject(k); auto* y = b.getObject(k); if (!y) continue;
        for (auto& kv : *y) (*x)[kv.first] = x->getInteger(kv.first).value_or(0) + kv.second.getAsInteger().value_or(0);
    }
    for (const char* k : {"bugs", "samples"}) { auto* x = a.getArray(k); auto* y = b.getArray(k); if (y) for (auto& v : *y) x->push_back(std::move(v)); }
    if (auto* y = b.getArray("stubs")) { auto* x = a.getArray("stubs"); for (auto& v : *y) { bool have = false; for (auto& w : *x) if (w == v) have = true; if (!have) x->push_back(v); } }
    auto* sa = a.getObject("solver"); auto* sb = b.getObject("solver");
    if (sb) { for (const char* k : {"queries", "sat", "unsat", "unknown", "relaxed", "cache"}) addInt(*sa, *sb, k);
        (*sa)["seconds"] = sa->getNumber("seconds").value_or(0) + sb->getNumber("seconds").value_or(0);
        (*sa)["max_seconds"] = std::max(sa->getNumber("max_seconds").value_or(0), sb->getNumber("max_seconds").value_or(0)); }
}

int main(int argc, char** argv) {
    Config cfg; std::string in, out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") cfg.entry = nx(); else if (a == "--out") out = nx();
        else if (a == "--opt") { std::string s = nx(); auto p = s.find('='); cfg.options[s.substr(0, p)] = atoll(s.c_str() + p + 1); }
        else if (a == "--max-steps") cfg.maxSteps = atoll(nx().c_str()); else if (a == "--max-seconds") cfg.maxSeconds = atof(nx().c_str());
        else if (a == "--jobs") cfg.jobs = atoi(nx().c_str()); else if (a == "--preempt") cfg.preempt = atoi(nx().c_str()); else if (a == "--spurious") cfg.spurious = atoi(nx().c_str());
        else if (a == "--no-race") cfg.race = false; else if (a == "--trace") cfg.trace = true; else if (a == "--verbose") cfg.verbose = true;
        else if (a == "--samples") cfg.maxSamples = atoi(nx().c_str()); else if (a == "--seed") cfg.seed = atoi(nx().c_str());
        else if (a == "--query-timeout") g_solverTimeoutMs = atoi(nx().c_str()); else if (a == "--max-paths") cfg.maxPaths = atoll(nx().c_str());
        else in = a;
    }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(in, err, ctx);
    if (!M) { err.print("symexec", errs()); return 3; }
    Executor X(M.get(), cfg);
    X.t0 = nowSec();
    g_deadline = X.t0 + cfg.maxSeconds;
    { void* sh = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh != MAP_FAILED) g_firstBug = (volatile double*)sh; }
    State* S = new State();
    X.setupGlobals(*S);
    S->th.emplace_back(); S->th[0].pend = PK::None; S->th[0].vc = {1};
    // global constructors, then the entry point, each as its own top-level call
    std::vector<Function*> seq;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function*>> v;
        for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) seq.push_back(p.second);
    }
    Function* E = M->getFunction(cfg.entry);
    if (!E || E->isDeclaration()) { errs() << "no entry point " << cfg.entry << "\n"; return 3; }
    bool ok = true;
    for (Function* f : seq) {
        try { X.pushCall(*S, X.info(f), {}, nullptr); X.runPath(*S); S->th[0].status = TS::Run; }
        catch (PathEnd& e) { errs() << "global constructor " << f->getName() << " failed: " << e.why << "\n"; ok = false; X.R.incomplete++; X.R.why["incomplete: global constructor: " + e.why]++; break; }
    }
    std::vector<std::string> parts;
    if (ok) {
        X.pushCall(*S, X.info(E), {}, nullptr);
        X.work.push_back(S);
        size_t target = cfg.jobs > 1 ? (size_t)cfg.jobs * 6 : 1;
        if (cfg.jobs > 1) { // breadth first until there is enough work to share
            X.stopOnFork = true;
            while (!X.work.empty() && X.work.size() < target) {
                State* s = X.work.front(); X.work.erase(X.work.begin());
                if (timeUp()) { X.R.incomplete++; X.R.why["incomplete: time limit"]++; continue; }
                X.runState(s);
            }
            X.stopOnFork = false;
        }
        if (cfg.jobs > 1 && !X.work.empty()) {
            int nj = std::min<size_t>(cfg.jobs, X.work.size());
            std::vector<State*> all; all.swap(X.work);
            std::vector<pid_t> pids; std::vector<std::string> files;
            // a shared pipe hands out state indices one byte-pair at a time
            int pfd[2]; if (pipe(pfd)) return 3;
            for (size_t i = 0; i < all.size(); ++i) { uint16_t k = (uint16_t)i; if (write(pfd[1], &k, 2) != 2) return 3; }
            close(pfd[1]);
            for (int j = 0; j < nj; ++j) {
                std::string fn = out + ".part" + std::to_string(j); files.push_back(fn);
                pid_t p = fork();
                if (p == 0) {
                    X.R = Results(); g_sstats = SolverStats(); for (auto& f : X.fns) f.second->calls = 0;
                    uint16_t k;
                    while (read(pfd[0], &k, 2) == 2) {
                        X.work.push_back(all[k]);
                        while (!X.work.empty()) { State* s = X.work.back(); X.work.pop_back();
                            if (timeUp()) { X.R.incomplete++; X.R.why["incomplete: time limit"]++; continue; }
                            X.runState(s); if (X.R.bugs.size() >= cfg.maxBugs) break; }
                        if (X.R.bugs.size() >= cfg.maxBugs) { X.R.incomplete++; X.R.why["incomplete: stopped after several violations"]++; break; }
                    }
                    std::ofstream os(fn); std::string s; raw_string_ostream rs(s); rs << json::Value(toJson(X)); rs.flush(); os << s; os.close();
                    _exit(0);
                }
                pids.push_back(p);
            }
            json::Object total = toJson(X);
            for (size_t j = 0; j < pids.size(); ++j) {
                int st = 0; waitpid(pids[j], &st, 0);
                auto mb = MemoryBuffer::getFile(files[j]);
                bool good = false;
                if (mb && WIFEXITED(st) && WEXITSTATUS(st) == 0) { auto v = json::parse((*mb)->getBuffer()); if (v) { if (auto* o = v->getAsObject()) { merge(total, *o); good = true; } } else consumeError(v.takeError()); }
                if (!good) { total["incomplete"] = total.getInteger("incomplete").value_or(0) + 1; (*total.getObject("why"))["incomplete: a worker process died"] = 1; }
                unlink(files[j].c_str());
            }
            total["wall_s"] = nowSec() - X.t0;
            std::string s; raw_string_ostream rs(s); rs << json::Value(std::move(total)); rs.flush();
            if (out.empty()) outs() << s << "\n"; else { std::ofstream os(out); os << s; }
            return 0;
        }
        while (!X.work.empty()) {
            State* s = X.work.back(); X.work.pop_back();
            if (timeUp() || X.R.paths >= cfg.maxPaths) { X.R.incomplete++; X.R.why["incomplete: limit"]++; continue; }
            X.runState(s);
            if (X.R.bugs.size() >= cfg.maxBugs) { if (!X.work.empty()) { X.R.incomplete++; X.R.why["incomplete: stopped after several violations"]++; } break; }
        }
    }
    json::Object total = toJson(X);
    total["wall_s"] = nowSec() - X.t0;
    std::string s; raw_string_ostream rs(s); rs << json::Value(std::move(total)); rs.flush();
    if (out.empty()) outs() << s << "\n"; else { std::ofstream os(out); os << s; }
    fflush(nullptr); _exit(0);
}
