// Harness interface. In the symbolic build the engine implements these; in the native replay build replay.cpp does.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void sx_assume(int c);
void sx_assert(int c, const char* label);
void sx_fail(const char* label);
uint8_t sx_u8(const char* name);
uint16_t sx_u16(const char* name);
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
void sx_bytes(void* p, size_t n, const char* name);     // p[0..n) become fresh symbolic bytes
uint32_t sx_choose(uint32_t n, const char* name);       // 0..n-1, forks
uint64_t sx_conc(uint64_t v);                           // fork over the feasible values of v
void sx_reach(const char* label);                       // reachability witness
void sx_end(void) __attribute__((noreturn));            // end this path
uint64_t sx_param(const char* name, uint64_t dflt);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);         // branch-free select
void sx_obs(const char* name, uint64_t v);               // observation compared between engine and native replay
uint64_t sx_heap(void);                                   // number of live heap blocks that no global variable leads to
uint64_t sx_sp(void);                                     // address of the top of the stack (the engine counts 256 bytes for each frame)
void sx_print(const char* s, uint64_t v);
}
// an integer in [lo,hi]; small ranges use an 8 bit symbol, which the solver front end handles with bit-set domains
static inline int sx_range(const char* n, int lo, int hi) { unsigned r = (unsigned)(hi - lo); uint32_t v = r < 256 ? (uint32_t)sx_u8(n) : sx_u32(n); sx_assume(v <= r); return lo + (int)v; }
