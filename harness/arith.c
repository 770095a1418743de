// Fixed point arithmetic against 64-bit integer reference semantics.
#include "env.h"

#define FITS(z) ((z) >= INT32_MIN && (z) <= INT32_MAX)

#ifndef XMIN
#define XMIN INT32_MIN
#define XMAX INT32_MAX
#define YMIN INT32_MIN
#define YMAX INT32_MAX
#endif

void func_floor(struct ptc*); void func_sgn(struct ptc*); void func_abs(struct ptc*); void func_rnd(struct ptc*);

static int x, y;
static void setup(int m){
	env_init();
	x = vt_range(XMIN, XMAX);
	y = vt_range(YMIN, YMAX);
	push_num(0x5a5); // bystander value below the operands
	push_as(x, m & 1);
	push_as(y, m & 2);
}
static void setup1(int m){
	env_init();
	x = vt_range(XMIN, XMAX);
	push_num(0x5a5);
	push_as(x, m & 1);
}
static void operands_kept(void){
	CHECK(p->stack.entry[0].value.number == 0x5a5 && p->stack.entry[0].type == VAR_NUMBER,
		"values below the operands are untouched");
	if (env_numcells > 0) CHECK(env_numcell[0] == x || env_numcell[0] == y, "variables are not modified");
	if (env_numcells > 1) CHECK(env_numcell[0] == x && env_numcell[1] == y, "variables are not modified");
}
// result must be exactly `z`
static void expect_val(int64_t z){
	CHECK(p->exec.error == ERR_NONE, "no error when the result is representable");
	CHECK(p->stack.stack_i == 2, "one result is left on the stack");
	CHECK(TOP_TYPE() == VAR_NUMBER, "result is a number value");
	CHECK(pop_num() == (fixp)z, "result is the exact value");
	operands_kept();
	REACH("value");
}
static void expect(int64_t z){
	if (FITS(z)){
		expect_val(z);
	} else {
		CHECK(p->exec.error == ERR_OVERFLOW, "overflow is reported");
		operands_kept();
		REACH("overflow");
	}
}
static void b_add(int m){ setup(m); op_add(p); expect((int64_t)x + y); }
void h_add(void){ FORK4(b_add); }
static void b_sub(int m){ setup(m); op_sub(p); expect((int64_t)x - y); }
void h_sub(void){ FORK4(b_sub); }
// one operand form per job for the operators that need a word-level solver
#ifdef M
#define FORK4M(body) body(M)
#else
#define FORK4M FORK4
#endif
static void b_mult(int m){ setup(m); op_mult(p); expect(((int64_t)x * y) >> 12); }
void h_mult(void){ FORK4M(b_mult); }
static void b_div(int m){
	setup(m);
	op_div(p);
	if (y == 0){
		CHECK(p->exec.error == ERR_DIVIDE_BY_ZERO, "division by zero is reported");
		REACH("div0");
	} else {
		expect(((int64_t)x << 12) / y);
	}
}
void h_div(void){ FORK4M(b_div); }
static void b_mod(int m){
	setup(m);
	op_modulo(p);
	if (y == 0){
		CHECK(p->exec.error == ERR_DIVIDE_BY_ZERO, "modulo by zero is reported");
		REACH("div0");
	} else {
		expect_val(y == -1 ? 0 : x % y);
	}
}
void h_mod(void){ FORK4M(b_mod); }

static void b_neg(int m){ setup1(m); op_negate(p); expect_val(x == INT32_MIN ? INT32_MIN : -(int64_t)x); }
void h_neg(void){ FORK2(b_neg); }
static void b_floor(int m){
	setup1(m); func_floor(p);
	// the greatest whole number not above x
	fixp r = p->stack.entry[1].value.number;
	CHECK((r & 4095) == 0 && r <= x && (int64_t)x - r < 4096, "FLOOR is the greatest whole number not above its argument");
	expect_val(r);
}
void h_floor(void){ FORK2(b_floor); }
static void b_abs(int m){ setup1(m); func_abs(p); expect_val(x == INT32_MIN ? INT32_MIN : x < 0 ? -(int64_t)x : x); }
void h_abs(void){ FORK2(b_abs); }
static void b_sgn(int m){ setup1(m); func_sgn(p); expect_val(x < 0 ? -4096 : x > 0 ? 4096 : 0); }
void h_sgn(void){ FORK2(b_sgn); }
#ifdef OWN_RAND
int rand(void){ return vt_range(0, INT32_MAX); }
static void b_rnd(int m){
	setup1(m); func_rnd(p);
	fixp r = p->stack.entry[1].value.number;
	int n = x >> 12, i = r >> 12;
	CHECK((r & 4095) == 0, "RND is a whole number");
	if (n == 0) CHECK(r == 0, "RND(0) is 0");
	if (n > 0) CHECK(i >= 0 && i < n, "RND(n) is in 0..n-1");
	if (n < 0) CHECK(i <= 0 && i > n, "RND(-n) is in -(n-1)..0");
	expect_val(r);
}
void h_rnd(void){ FORK2(b_rnd); }
#endif

// comparison and bit operators
#define CMP(name, op, expr) static void b_##name(int m){ setup(m); op(p); expect_val((expr) ? 4096 : 0); } \
	void h_##name(void){ FORK4(b_##name); }
CMP(eq, op_equal, x == y)
CMP(ne, op_inequal, x != y)
CMP(lt, op_less, x < y)
CMP(gt, op_greater, x > y)
CMP(le, op_less_equal, x <= y)
CMP(ge, op_greater_equal, x >= y)
// floor to a whole number, then two's complement on 20 bits
static int64_t whole(int64_t v){ return (v & 0xfffff) >= 0x80000 ? ((v & 0xfffff) - 0x100000) * 4096 : (v & 0xfffff) * 4096; }
#define BIT(name, op, expr) static void b_##name(int m){ setup(m); op(p); int a = x >> 12, b = y >> 12; expect_val(whole(expr)); } \
	void h_##name(void){ FORK4(b_##name); }
BIT(and, op_and, a & b)
BIT(or, op_or, a | b)
BIT(xor, op_xor, a ^ b)
static void b_not(int m){ setup1(m); op_not(p); expect_val(whole(~(x >> 12))); }
void h_not(void){ FORK2(b_not); }
static void b_lnot(int m){ setup1(m); op_logical_not(p); expect_val(x == 0 ? 4096 : 0); }
void h_lnot(void){ FORK2(b_lnot); }
