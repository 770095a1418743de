// Expressions: lines A=..., B=..., C=..., D=... compiled by the real tokenizer, run by the real interpreter on symbolic operands
#define STEP_HOOK
#define NO_ERRORS
#include "prog.h"
static fixp v[32];
static int64_t f_mul(int64_t a, int64_t b){ return (a * b) >> 12; }
static int64_t f_div(int64_t a, int64_t b){ ASSUME(b != 0); return (int32_t)(a * 4096) / (int32_t)b; }
static int64_t f_mod(int64_t a, int64_t b){ ASSUME(b != 0); return (int32_t)a % (int32_t)b; }
#define I(a) ((int32_t)(a) >> 12)
#define ADD(a,b) ((a)+(b))
#define SUB(a,b) ((a)-(b))
#define MUL(a,b) f_mul(a,b)
#define DIV(a,b) f_div(a,b)
#define MOD(a,b) f_mod(a,b)
#define AND(a,b) (((int64_t)(I(a)&I(b)))*4096)
#define OR(a,b) (((int64_t)(I(a)|I(b)))*4096)
#define XOR(a,b) (((int64_t)(I(a)^I(b)))*4096)
#define EQ(a,b) ((a)==(b)?4096:0)
#define NE(a,b) ((a)!=(b)?4096:0)
#define LT(a,b) ((a)<(b)?4096:0)
#define GT(a,b) ((a)>(b)?4096:0)
#define LE(a,b) ((a)<=(b)?4096:0)
#define GE(a,b) ((a)>=(b)?4096:0)
#define NEG(a) (-(a))
#define NOT(a) (((int64_t)~I(a))*4096)
#define LNOT(a) ((a)==0?4096:0)
#define ABS(a) ((a)<0?-(a):(a))
#define X (int64_t)x
#define Y (int64_t)y
#define V(i) (int64_t)v[i]
static fixp small(void){ return (fixp)((uint32_t)((vt_in() & 7) - 3) << 12); }
void h_expr(void){
	prg_init();
	fixp x = small(), y = small();
	*num("X") = x; *num("Y") = y;
	for (int i = 0; i < NLIT; ++i){ v[i] = small(); lit(i, v[i]); }
	// the divisions of the reference first: no division by zero
	fixp a = REF0, b = REF1, c = REF2, d = REF3;
	run_prg();
	CHECK(*num("A") == a, "first expression");
	CHECK(*num("B") == b, "second expression");
	CHECK(*num("C") == c, "third expression");
	CHECK(*num("D") == d, "fourth expression");
	REACH("end");
}
