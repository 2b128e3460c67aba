// Harness interface.  In the symbolic build these calls are handled by the executor (symbolic values,
// assumptions, assertions decided by the solver); in the native build runtime/replay.cpp reads the values
// of a counterexample and re-runs the same harness against the real libraries.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
unsigned long long sym_make(const char* name, int bits);
void sym_assume(int);
void sym_assert_impl(int, const char* msg);
void sym_reach(const char* label);
void sym_observe(const char* name, unsigned long long v);
long long sym_option(const char* name, long long def);
int sym_is_engine();
unsigned long long sym_concretize(unsigned long long);
void sym_end_path();
void sym_fail(const char* msg);
void sym_stub(const char* name);
}
#define CHECK(c, msg) sym_assert_impl((c) ? 1 : 0, msg)
inline uint64_t sym_u64(const char* n) { return sym_make(n, 64); }
inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_make(n, 32); }
inline int sym_i32(const char* n) { return (int)(uint32_t)sym_make(n, 32); }
inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_make(n, 8); }
inline bool sym_bool(const char* n) { return sym_make(n, 1) & 1; }
inline bool sym_flag(const char* n) { return sym_concretize(sym_make(n, 1) & 1) & 1; } // one path per value
// integer in [lo, hi], one solver variable
inline int sym_range(const char* n, int lo, int hi) { int v = (int)(uint32_t)sym_make(n, 32); sym_assume((v >= lo) & (v <= hi)); return v; }
inline int64_t sym_range64(const char* n, int64_t lo, int64_t hi) { int64_t v = (int64_t)sym_make(n, 64); sym_assume((v >= lo) & (v <= hi)); return v; }
// integer in [lo, hi], case-split into one path per value
inline int sym_choose(const char* n, int lo, int hi) { int v = sym_range(n, lo, hi); return (int)(uint32_t)sym_concretize((uint32_t)v); }
inline double sym_bits_double(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline uint64_t sym_double_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double sym_double(const char* n) { return sym_bits_double(sym_make(n, 64)); } // any bit pattern
inline void sym_obs_str(const char* n, const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } sym_observe(n, h); }
// string of exactly n bytes
inline std::string sym_bytes(const char* name, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)sym_u8(name); return s; }
