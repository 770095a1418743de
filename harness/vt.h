// Dual-mode harness support.  -DVT_CBMC: symbolic execution by CBMC (inputs are
// nondeterministic).  Otherwise: native replay; inputs come from a file that
// holds the values the solver chose, in order.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

#ifdef VT_CBMC
int nondet_int(void);
static inline int vt_in(void){
	int vt_val = nondet_int();
	__CPROVER_input("vt", vt_val);
	return vt_val;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "VT: " msg)
#define VT_END() __CPROVER_assume(0)
#ifdef VT_NO_REACH
#define REACH(name) ((void)0)
#else
#define REACH(name) __CPROVER_assert(0, "VTREACH: " name)
#endif
#else
int vt_in(void);
void vt_assume(int c);
void vt_check(int c, const char* msg);
void vt_reach(const char* name);
#define ASSUME(c) vt_assume(!!(c))
#define CHECK(c, msg) vt_check(!!(c), msg)
#define REACH(name) vt_reach(name)
#define VT_END() return
#endif

// an input in [lo,hi]
static inline int vt_range(int lo, int hi){
	int v = vt_in();
	ASSUME(v >= lo && v <= hi);
	return v;
}
static inline uint8_t vt_u8(void){ return (uint8_t)vt_range(0, 255); }
static inline uint16_t vt_u16(void){ return (uint16_t)vt_range(0, 65535); }
static inline bool vt_bool(void){ return vt_range(0, 1); }
