// Program state of the symbolic executor.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/DataLayout.h>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Val { uint64_t c; Ex e; };
inline Val cval(uint64_t c) { return Val{c, nullptr}; }
inline Val mkVal(Ex e) { if (isConst(e) && e->w <= 64) return Val{(uint64_t)e->val, nullptr}; return Val{0, e}; }
inline Ex toEx(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline bool isC(const Val& v) { return v.e == nullptr; }

struct Leaf { uint64_t off; unsigned w; bool fp; };

struct Opnd { int slot; uint64_t c; Ex e; const std::vector<Val>* agg; };

struct State; struct Executor; struct Inst;
typedef void (*Handler)(Executor&, State&, const Inst&, std::vector<Val>&);

struct FnInfo;
struct Inst {
    unsigned opc = 0;
    const llvm::Instruction* I = nullptr;
    int dst = -1;
    unsigned n = 0;       // number of result leaves
    unsigned w = 0;       // width of first result leaf
    unsigned ow = 0;      // operand width
    std::vector<Opnd> o;
    std::vector<unsigned> on; // leaves per operand
    std::vector<Leaf> leaves; // of loaded / stored / result type
    int64_t off = 0;
    std::vector<int64_t> scale; std::vector<unsigned> sw; // GEP
    int b0 = -1, b1 = -1;
    const llvm::Function* callee = nullptr;
    FnInfo* calleeInfo = nullptr;
    Handler handler = nullptr;
    bool model = false;   // part of a library model (shadow headers): atomic and race-free by definition
    std::string name;
    std::vector<std::pair<uint64_t, int>> cases; // switch
    unsigned first = 0;
};
struct Phi { int dst; unsigned n; unsigned w; std::vector<std::pair<int, Opnd>> in; };
struct BlockInfo { std::vector<Phi> phis; std::vector<Inst> insts; const llvm::BasicBlock* bb; uint32_t gid; };
struct FnInfo {
    int model = -1;
    const llvm::Function* F; std::string name; unsigned nslots = 0; std::vector<int> argSlot; std::vector<unsigned> argN;
    std::vector<BlockInfo> blocks; bool fromRepo = false; uint64_t calls = 0;
};

struct Frame {
    FnInfo* fn; int bb; unsigned ip; int prevBB;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs; std::vector<unsigned> varw;
    bool discardRet = false, model = false;
};

enum { F_ALIVE = 1, F_RO = 2, F_HEAP = 4, F_STACK = 8, F_GLOBAL = 16 };
struct SB { uint8_t wt; uint32_t wc; uint32_t rc[6]; };
struct MObj {
    SB* shadow = nullptr; int rc; uint32_t size; uint8_t flags; uint8_t* bytes; Ex* sym; const llvm::Instruction* site;
    MObj(uint32_t s, uint8_t f) : rc(1), size(s), flags(f), bytes((uint8_t*)malloc(s ? s : 1)), sym(nullptr), site(nullptr) {}
    MObj(const MObj& o) : rc(1), size(o.size), flags(o.flags), bytes((uint8_t*)malloc(o.size ? o.size : 1)), sym(nullptr), site(o.site) {
        memcpy(bytes, o.bytes, size);
        if (o.shadow) { shadow = (SB*)malloc(sizeof(SB) * size); memcpy(shadow, o.shadow, sizeof(SB) * size); }
        if (o.sym) { sym = (Ex*)malloc(sizeof(Ex) * size); memcpy(sym, o.sym, sizeof(Ex) * size); }
    }
    ~MObj() { ::free(bytes); ::free(sym); ::free(shadow); }
};
struct Chunk {
    int rc = 1; MObj* o[64];
    Chunk() { memset(o, 0, sizeof o); }
    Chunk(const Chunk& c) : rc(1) { for (int i = 0; i < 64; ++i) { o[i] = c.o[i]; if (o[i]) o[i]->rc++; } }
    ~Chunk() { for (auto* p : o) if (p && --p->rc == 0) delete p; }
};
struct Region { std::vector<Chunk*> ch; uint64_t next = 0; };
const uint64_t OFFMASK = (1ull << 40) - 1;
struct Memory {
    Region r[41];
    Memory() {}
    Memory(const Memory& m) { for (int i = 0; i <= 40; ++i) { r[i] = m.r[i]; for (auto* c : r[i].ch) c->rc++; } }
    ~Memory() { for (auto& g : r) for (auto* c : g.ch) if (--c->rc == 0) delete c; }
    Memory& operator=(const Memory&) = delete;
    static int cls(uint64_t size) { int k = 6; while ((1ull << k) < size + 32) ++k; return k; }
    uint64_t alloc(uint64_t size, uint8_t flags, const llvm::Instruction* site) {
        int k = cls(size); Region& g = r[k];
        uint64_t i = g.next++;
        if (i / 64 >= g.ch.size()) g.ch.push_back(new Chunk());
        Chunk*& c = g.ch[i / 64];
        if (c->rc > 1) { c->rc--; c = new Chunk(*c); }
        MObj* o = new MObj((uint32_t)size, flags | F_ALIVE);
        o->site = site;
        c->o[i % 64] = o;
        return ((uint64_t)k << 40) | (i << k);
    }
    MObj* find(uint64_t a, uint64_t& base) const {
        uint64_t k = a >> 40; if (k < 6 || k > 40) return nullptr;
        uint64_t i = (a & OFFMASK) >> k;
        const Region& g = r[k];
        if (i >= g.next) return nullptr;
        base = (k << 40) | (i << k);
        return g.ch[i / 64]->o[i % 64];
    }
    MObj* findW(uint64_t a, uint64_t& base) {
        uint64_t k = a >> 40; if (k < 6 || k > 40) return nullptr;
        uint64_t i = (a & OFFMASK) >> k;
        Region& g = r[k];
        if (i >= g.next) return nullptr;
        base = (k << 40) | (i << k);
        Chunk*& c = g.ch[i / 64];
        if (c->rc > 1) { c->rc--; c = new Chunk(*c); }
        MObj*& o = c->o[i % 64];
        if (o && o->rc > 1) { o->rc--; o = new MObj(*o); }
        return o;
    }
    void kill(uint64_t a) { // free storage, keep a tombstone
        uint64_t b; MObj* o = findW(a, b);
        if (!o) return;
        o->flags &= ~F_ALIVE;
        ::free(o->bytes); o->bytes = (uint8_t*)malloc(1); ::free(o->sym); o->sym = nullptr;
    }
};

enum class TS : uint8_t { Run, WaitCV, Done };
enum class PK : uint8_t { None, Start, MutexLock, MutexTry, RdLock, WrLock, RwTry, CvWait, CvRelock, Notify, Join, Atomic, WaitChange, Yield };
typedef std::vector<uint32_t> VC;
struct Thread {
    std::vector<Frame> st;
    TS status = TS::Run;
    PK pend = PK::Start; uint64_t paddr = 0, paddr2 = 0; // pending synchronisation operation
    bool go = false;       // chosen by the scheduler to perform the pending operation
    bool timedOut = false; bool timed = false; bool exit_ok = false;
    uint64_t cvMutex = 0;
    bool cvPhase2 = false;
    std::map<const llvm::GlobalVariable*, uint64_t> tls;
    VC vc; VC exitVC;
};
struct MutexSt { int owner = -1; int count = 0; std::vector<int> readers; VC vc; VC rvc; };
struct CvSt { std::vector<int> waiters; VC vc; };

struct InputRec { std::string name; unsigned w; Ex e; };
struct ObsRec { std::string name; Ex e; };

struct State {
    Memory mem;
    std::vector<Thread> th;
    int cur = 0;
    std::vector<Ex> pc;
    std::shared_ptr<Model> model;
    std::map<std::string, unsigned> symCount;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::map<uint64_t, MutexSt> mtx;
    std::map<uint64_t, CvSt> cv;
    std::map<uint64_t, VC> avc; // atomics' release clocks
    std::vector<int> sched;
    int preemptions = 0; unsigned spurious = 0;
    bool multi = false;
    uint64_t steps = 0;
    uint64_t forks = 0;
    bool concurrent = false, needSched = false;
    State() : model(std::make_shared<Model>()) {}
    State(const State&) = default;
    Frame& fr() { return th[cur].st.back(); }
};
