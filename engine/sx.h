// Interface between harnesses and the two ways of running them: symbolically
// (symx) and natively (replay of one assignment against the real build).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
int64_t sx_sym_(const char* name, int bits, int64_t lo, int64_t hi);
int sx_choose(const char* name, int n);       // one path per value 0..n-1
void sx_assume_(bool c);
void sx_assert_(bool c, const char* msg);
void sx_cover(const char* name);              // reachability witness
void sx_obs_(int64_t v);                      // observation, compared with the native run
int64_t sx_heap_live();
void sx_heap_mark();
void sx_check_leaks();
int64_t sx_concrete(int64_t v);               // enumerate the values of v
bool sx_is_symbolic(int64_t v);
bool sx_symbolic_mode();
int sx_case();
int sx_tid();
void sx_yield();
[[noreturn]] void sx_fail(const char* msg);
[[noreturn]] void sx_unsupported(const char* msg);
[[noreturn]] void sx_violation(const char* kind, const char* msg);
void sx_print(const char* name, int64_t v);
}
static inline int64_t sx_i64(const char* n) { return sx_sym_(n, 64, INT64_MIN, INT64_MAX); }
static inline int32_t sx_i32(const char* n) { return (int32_t)sx_sym_(n, 32, INT32_MIN, INT32_MAX); }
static inline int64_t sx_range(const char* n, int64_t lo, int64_t hi) { return sx_sym_(n, 64, lo, hi); }
static inline int32_t sx_range32(const char* n, int32_t lo, int32_t hi) { return (int32_t)sx_sym_(n, 32, lo, hi); }
static inline bool sx_bool(const char* n) { return sx_sym_(n, 1, -1, 0) != 0; }
static inline char sx_char(const char* n) { return (char)sx_sym_(n, 8, -128, 127); }
static inline double sx_double(const char* n) { int64_t b = sx_sym_(n, 64, INT64_MIN, INT64_MAX); double d; memcpy(&d, &b, 8); return d; }
static inline void sx_obs(int64_t v) { sx_obs_(v); }
static inline void sx_obs_double(double d) { int64_t b; memcpy(&b, &d, 8); if (d != d) b = 0x7ff8000000000000ll; sx_obs_(b); }
static inline std::string sx_bytes(const char* n, int len) { std::string s(len, 0); for (int i = 0; i < len; i++) s[i] = sx_char(n); return s; }
#define sx_assume(c) sx_assume_(bool(c))
#define sx_assert(c, msg) sx_assert_(bool(c), msg)
#define SX_ENTRY(name) extern "C" void name()
