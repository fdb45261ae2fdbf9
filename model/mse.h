#pragma once
// Primitives shared by the symbolic executor and the native replay runtime.
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
void     mse_sym(void* p, uint64_t size, const char* name);   // make bytes symbolic (native: read from the vector)
uint64_t mse_choose(uint64_t n, const char* name);            // any value 0..n-1, one path each
void     mse_assume(uint64_t cond);
void     mse_assert(uint64_t cond, const char* msg);
void     mse_fail(const char* msg);
void     mse_reach(const char* label);                        // vacuity witness
void     mse_note(const char* text, ...);
int      mse_is_sym(uint64_t v);
int      mse_native(void);
uint64_t mse_live(void);                                      // live heap objects (symbolic only)
uint64_t mse_concretize(uint64_t v);
uint64_t mse_ite(uint64_t c, uint64_t a, uint64_t b);         // no fork
void     mse_end(void);                                       // end of this path
uint64_t mse_lin_same(uint64_t a, uint64_t b);                // a == b, for values that are xors of input bits
int      mse_thread(void* fn, void* arg);
int      mse_self(void);
void     mse_preempt(void);
void     mse_set_preempt(uint64_t budget);
void     mse_block(uint64_t on);
void     mse_wake(uint64_t on);
int      mse_thread_done(uint64_t id);
void     mse_pause(void);
double   mse_strtod(const char* s, char** end);
int      mse_fmt_double(char* buf, uint64_t size, uint64_t prec, double d);
#define  MSE_JOIN 0x7000000000000000ull
static inline uint64_t mse_u64(const char* n){ uint64_t v; mse_sym(&v, 8, n); return v; }
static inline int64_t  mse_i64(const char* n){ int64_t v; mse_sym(&v, 8, n); return v; }
static inline uint32_t mse_u32(const char* n){ uint32_t v; mse_sym(&v, 4, n); return v; }
static inline uint16_t mse_u16(const char* n){ uint16_t v; mse_sym(&v, 2, n); return v; }
static inline uint8_t  mse_u8(const char* n){ uint8_t v; mse_sym(&v, 1, n); return v; }
// any value in [lo, hi]; encoded with as few bits as the range needs
static inline uint64_t mse_in(uint64_t lo, uint64_t hi, const char* n)
{
	uint64_t d = hi - lo, v;
	if (d == 0) return lo;
	if (d < 0x100) v = mse_u8(n); else if (d < 0x10000) v = mse_u16(n); else if (d < 0x100000000ull) v = mse_u32(n); else v = mse_u64(n);
	if ((d & (d + 1)) == 0) v &= d; else mse_assume(v <= d);
	return lo + v;
}
