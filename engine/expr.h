// Hash-consed bit-vector expressions (widths 1..128) with constant folding.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <utility>

typedef unsigned __int128 u128;
typedef __int128 s128;
struct Expr;
typedef const Expr* Ex;

enum class Op : uint8_t {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, ZExt, SExt, Ite,
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRoundInt, // FRoundInt: aux = mode
    FLt, FLe, FEq, FUno,
    FToSI, FToUI, SIToF, UIToF, FPExt, FPTrunc
};

struct Expr {
    Op op;
    uint8_t w;      // result width in bits
    uint8_t nk;     // number of kids
    uint32_t id;
    uint32_t aux;   // Extract: low bit; Sym: symbol number; FRoundInt: mode
    u128 val;       // Const
    Ex k[3];
    size_t hash;
    mutable const std::vector<uint32_t>* syms; // sorted symbol ids
    mutable uint32_t evalEpoch;
    mutable u128 evalVal;
};

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextW(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); return (s128)((v ^ m) - m); }

struct SymInfo { std::string name; unsigned w; };
extern std::vector<SymInfo> g_syms;

Ex mkConst(u128 v, unsigned w);
Ex mkSym(const std::string& name, unsigned w);
Ex mkBin(Op op, Ex a, Ex b);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkTrunc(Ex a, unsigned w);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkNot(Ex a); // width 1
Ex mkUn(Op op, Ex a, unsigned w, unsigned aux = 0);
inline bool isConst(Ex e) { return e->op == Op::Const; }
bool isTrue(Ex e);
bool isFalse(Ex e);
u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok);
u128 foldUn(Op op, u128 a, unsigned inw, unsigned w, unsigned aux);

typedef std::unordered_map<uint32_t, u128> Model;
u128 evalExpr(Ex e, const Model& m); // begin new epoch
void evalNewEpoch();
u128 evalExprCont(Ex e, const Model& m);
const std::vector<uint32_t>& exprSyms(Ex e);
std::string exprStr(Ex e, int depth = 6);
size_t exprCount();
