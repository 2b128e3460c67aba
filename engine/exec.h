#pragma once
#include "state.h"
#include <functional>
#include <unordered_map>
#include <unordered_set>

struct PathEnd { int kind; std::string why; }; // kind 0 = normal, 1 = infeasible/assume, 2 = bug, 3 = incomplete
struct Yield {};                                // re-schedule (state pushed back or switched)

struct Bug { std::string kind, msg, loc; std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputs; std::vector<int> sched; std::vector<std::string> stack; std::vector<std::pair<std::string, uint64_t>> obs; };
struct Sample { std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> inputs; std::vector<std::pair<std::string, uint64_t>> obs; std::vector<int> sched; };

struct Results {
    uint64_t paths = 0, infeasible = 0, incomplete = 0, bugPaths = 0, forks = 0, steps = 0, asserts = 0, assertQueries = 0, schedPoints = 0, symPaths = 0;
    std::map<std::string, uint64_t> reach, why;
    std::vector<Bug> bugs; std::set<std::string> bugKeys;
    std::vector<Sample> samples;
    std::map<std::string, uint64_t> fns; // repo functions executed -> calls
    std::set<std::string> stubs;
    SolverStats ss;
};

struct Config {
    std::string entry = "harness";
    uint64_t maxSteps = 30000000; double maxSeconds = 600; int jobs = 1; int preempt = 2; unsigned spurious = 0;
    uint64_t maxPaths = ~0ull; unsigned maxSamples = 24; unsigned maxBugs = 8;
    std::map<std::string, int64_t> options; bool trace = false; bool race = true; unsigned seed = 1; bool verbose = false;
    std::vector<std::string> ignoreBugs;
};

struct Executor {
    llvm::Module* M; const llvm::DataLayout* DL; Config cfg; Results R;
    std::unordered_map<const llvm::Function*, FnInfo*> fns;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
    std::vector<const llvm::Function*> fnByIdx; std::unordered_map<std::string, uint64_t> extAddr;
    std::unordered_map<std::string, Handler> handlers;
    std::vector<State*> work; bool stopOnFork = false; bool forked = false; size_t maxWork = 0;
    double t0 = 0;
    std::unordered_map<const llvm::Constant*, std::vector<Val>*> constCache;
    std::map<std::pair<uint64_t, uint64_t>, int> dummy;
    uint64_t vt_class = 0, vt_si = 0, vt_vmi = 0, vt_ptr = 0, vt_fund = 0;

    Executor(llvm::Module* m, Config c);
    void setupGlobals(State& S);
    void explore();
    void runState(State* S); // consumes S
    void runPath(State& S);
    FnInfo* info(const llvm::Function* F);
    void flatten(llvm::Type* t, uint64_t off, std::vector<Leaf>& out);
    void constVals(const llvm::Constant* c, std::vector<Val>& out);
    Val constVal(const llvm::Constant* c);
    void writeConst(State& S, uint64_t addr, const llvm::Constant* c);
    Opnd opnd(FnInfo* fi, std::unordered_map<const llvm::Value*, int>& slots, const llvm::Value* v);

    // symbolic decisions (may fork; the fork re-executes the current instruction)
    bool branch(State& S, Ex c);
    bool mayBeTrue(State& S, Ex c, Model* m = nullptr); // Unknown -> path incomplete
    uint64_t concretize(State& S, const Val& v, unsigned w);
    void addC(State& S, Ex c);
    State* forkWith(State& S, Ex c, const Model& m);
    uint64_t evalM(State& S, const Val& v, unsigned w);

    // memory
    Val load(State& S, const Val& addr, unsigned w);
    void store(State& S, const Val& addr, const Val& v, unsigned w);
    uint64_t resolve(State& S, const Val& addr, uint64_t n, bool write, bool& table); // concrete address
    MObj* access(State& S, uint64_t a, uint64_t n, bool write, uint64_t& base);
    Ex byteAt(const MObj* o, uint64_t off);
    void setByte(MObj* o, uint64_t off, Ex e);
    void copyMem(State& S, uint64_t d, uint64_t s, uint64_t n);
    std::string cstr(State& S, uint64_t a, size_t max = 4096);
    std::string strN(State& S, uint64_t a, size_t n);
    uint64_t malloc_(State& S, uint64_t n, uint8_t fl);
    uint64_t rd(State& S, uint64_t a, unsigned w);
    void wr(State& S, uint64_t a, uint64_t v, unsigned w);

    // control
    void pushCall(State& S, FnInfo* f, const std::vector<Val>& args, const Inst* call);
    void doRet(State& S, std::vector<Val> rv);
    void setRes(State& S, const Inst& I, const Val& v);
    void gotoBB(State& S, int bb);
    void callInst(State& S, const Inst& I);
    void raise(State& S, uint64_t obj);
    bool canCatch(State& S, uint64_t catchTi, uint64_t thrownTi, uint64_t obj, uint64_t& adj);
    bool upcast(State& S, uint64_t from, uint64_t to, uint64_t obj, uint64_t& adj);
    [[noreturn]] void bug(State& S, const std::string& kind, const std::string& msg, Model* m = nullptr);
    void recordBug(State& S, const std::string& kind, const std::string& msg, const Model& m);
    [[noreturn]] void incomplete(State& S, const std::string& why);
    std::string where(State& S);
    std::vector<std::string> stackTrace(State& S);
    void finishPath(State& S);

    // threads
    bool enabled(State& S, int t);
    bool syncPoint(State& S, PK k, uint64_t a, uint64_t a2 = 0, bool timed = false); // true: go ahead now
    std::map<uint64_t, uint64_t> tidx; uint64_t typeIdx(uint64_t ti) { if (!ti) return 0x7fffffff; auto it = tidx.find(ti); if (it != tidx.end()) return it->second; uint64_t n = tidx.size() + 1; tidx[ti] = n; return n; }
    void threadDone(State& S);
    void schedule(State& S, bool curEnabledCounts);
    void vcJoin(VC& a, const VC& b);
    void vcTick(State& S, int t);
    void raceAccess(State& S, uint64_t a, uint64_t n, bool write);
    int newThread(State& S);
    void collectInputs(State& S, const Model& m, std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>& out);
};
void registerHandlers(Executor& X);
double nowSec();
