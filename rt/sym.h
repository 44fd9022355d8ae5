// Harness interface: symbolic under the engine, concrete values from a file in the native replay build.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_uint(const char* name, uint32_t bits, uint64_t lo, uint64_t hi); // fresh symbol, lo <= v <= hi
uint32_t sym_choice(const char* name, uint32_t n);                             // forks: concrete 0..n-1
uint64_t sym_fork(uint64_t v);                                                  // forks on every feasible value
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reach(const char* tag);
void sym_observe(const char* name, uint64_t v);
void sym_note(const char* s);
uint64_t sym_arg(uint32_t i);
uint32_t sym_engine();           // 1 under the engine, 0 natively
void sym_debug(const char* s, uint64_t v);
extern int model_exact_numbers;   // 1: printing a symbolic number yields its symbolic digits (forks on their count)
uint32_t sym_is_symbolic(uint64_t v);
uint64_t sym_bound(uint64_t v, uint64_t lo, uint64_t hi);   // v; only where lo <= v <= hi was assumed just before
uint64_t sym_ite64(bool c, uint64_t a, uint64_t b);
}
static inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_uint(n, 32, 0, 0xffffffffull); }
static inline uint32_t sym_range(const char* n, uint32_t lo, uint32_t hi) { return (uint32_t)sym_uint(n, 32, lo, hi); }
static inline bool sym_bool(const char* n) { return sym_uint(n, 1, 0, 1) & 1; }
static inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_uint(n, 8, 0, 255); }
static inline uint64_t sym_u64(const char* n) { return sym_uint(n, 64, 0, ~0ull); }
static inline bool sym_flag(const char* n) { return sym_choice(n, 2) == 1; }    // forks
