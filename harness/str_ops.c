// String operators and functions against byte-array models.
#include "strs_env.h"
#include "libc.h"
#include "strfuncs.h"
#ifndef KA
#define KA 0
#endif
#ifndef KB
#define KB 0
#endif
#ifndef AV
#define AV 0  // bit mask: which numeric arguments are given through a variable
#endif
static struct sop a, b;
static u8 m[4*SN+4];

static void b_concat(int L){
	strs_env_init();
	sop_in(&a, SN); sop_in(&b, SN);
	a.len = L;
	sop_push(&a, KA); sop_push(&b, KB);
	if (KA == K_EMPTYVAR) a.len = 0;
	if (KB == K_EMPTYVAR) b.len = 0;
	for (int i = 0; i < 2*SN; ++i) m[i] = i < a.len ? a.c[i] : (i - a.len < SN ? b.c[i - a.len] : 0);
	op_add(p);
	CHECK(p->exec.error == ERR_NONE, "no error for short strings");
	CHECK(p->stack.stack_i == 1, "one result");
	check_result(m, a.len + b.len, 2*SN);
	check_kept(&a); check_kept(&b);
	check_refs();
	REACH("value");
}
void h_concat(void){ FORKLEN(SN, b_concat); }

// limit of 256 characters: lengths around it, any content at the probed position
#ifndef LA
#define LA 0
#define LB 0
#endif
void h_limit(void){
	env_init();
	int probe = vt_range(0, 255);
	u8 pc = vt_u8();
	struct string* s1 = get_new_str(&p->strs); s1->uses = 1; s1->len = LA;
	struct string* s2 = get_new_str(&p->strs); s2->uses = 1; s2->len = LB;
	if (probe < LA) s1->ptr.s[probe] = pc;
	else if (probe - LA < LB) s2->ptr.s[probe - LA] = pc;
	push_str(s1); push_str(s2);
	op_add(p);
	if (LA + LB > 256){
		CHECK(p->exec.error == ERR_STRING_TOO_LONG, "a result over 256 characters is refused");
	} else {
		CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1, "a result of up to 256 characters is produced");
		struct string* r = p->stack.entry[0].value.ptr;
		CHECK(r->len == LA + LB, "length is the sum");
		if (probe < LA + LB) CHECK(r->ptr.s[probe] == pc, "character is carried over");
		CHECK(r->uses == 1 && s1->uses == 0 && s2->uses == 0, "temporaries are released");
	}
	REACH("value");
}

// string * number
#ifndef MAXREP
#define MAXREP 4
#endif
static void b_repeat(int L){
	strs_env_init();
	sop_in(&a, 3);
	a.len = L;
	fixp n = RAW32();
	ASSUME(n < INT_TO_FP(MAXREP + 1));
	sop_push(&a, KA);
	push_as(n, AV & 1);
	op_mult(p);
	int cnt = n < 0 ? 0 : n >> 12;
	int k = 0, j = 0;
	for (int i = 0; i < 3*MAXREP; ++i){ m[i] = a.c[j]; if (++j >= a.len) j = 0; }
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1, "one result");
	check_result(m, a.len * cnt, 3*MAXREP);
	check_kept(&a);
	check_refs();
	(void)k;
	REACH("value");
}
void h_repeat(void){ FORKLEN(3, b_repeat); }
// too long: refused for every count and length with a product above 256
void h_repeat_limit(void){
	env_init();
	int len = vt_range(1, 256);
	fixp n = RAW32();
	ASSUME((int64_t)(n >> 12) * len > 256);
	struct string* s1 = get_new_str(&p->strs); s1->uses = 1; s1->len = len;
	push_str(s1);
	push_num(n);
	op_mult(p);
	CHECK(p->exec.error == ERR_STRING_TOO_LONG, "a result over 256 characters is refused");
	REACH("value");
}

// LEFT$ RIGHT$ MID$
static void expect_str(const u8* c, int len, int cap){
	CHECK(p->exec.error == ERR_NONE, "no error for valid arguments");
	CHECK(p->stack.stack_i == 1, "one result");
	check_result(c, len, cap);
	check_kept(&a);
	check_refs();
	REACH("value");
}
static void b_leftright(int right, int L){
	strs_env_init();
	sop_in(&a, SN);
	a.len = L;
	fixp n = RAW32();
	sop_push(&a, KA);
	push_as(n, AV & 1);
	if (right) func_right(p); else func_left(p);
	int cnt = n >> 12;
	if (cnt < 0){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a negative count is out of range");
		REACH("range");
		return;
	}
	if (cnt > a.len) cnt = a.len;
	for (int i = 0; i < SN; ++i) m[i] = right ? (i < cnt ? a.c[a.len - cnt + i] : 0) : a.c[i];
	expect_str(m, cnt, SN);
}
static void b_left(int v){ b_leftright(0, v); }
static void b_right(int v){ b_leftright(1, v); }
void h_left(void){ FORKLEN(SN, b_left); }
void h_right(void){ FORKLEN(SN, b_right); }
static void b_mid(int L){
	strs_env_init();
	sop_in(&a, SN);
	a.len = L;
	fixp st = RAW32(), n = RAW32();
	sop_push(&a, KA);
	push_as(st, AV & 1);
	push_as(n, AV & 2);
	func_mid(p);
	int s0 = st >> 12, cnt = n >> 12;
	if (cnt < 0 || s0 < 0){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a negative start or length is out of range");
		REACH("range");
		return;
	}
	if (s0 > a.len) s0 = a.len;
	if (cnt > a.len - s0) cnt = a.len - s0;
	for (int i = 0; i < SN; ++i) m[i] = i < cnt ? a.c[s0 + i] : 0;
	expect_str(m, cnt, SN);
}
void h_mid(void){ FORKLEN(SN, b_mid); }
static void b_subst(int L){
	strs_env_init();
	sop_in(&a, SN); sop_in(&b, 3);
	a.len = L;
	fixp st = RAW32(), n = RAW32();
	sop_push(&a, KA);
	push_num(st);
	push_num(n);
	sop_push(&b, KB);
	func_subst(p);
	int s0 = st >> 12, cnt = n >> 12;
	if (s0 < 0 || s0 > a.len){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a start outside the string is out of range");
		REACH("range");
		return;
	}
	if (cnt < 0 || cnt > a.len - s0) cnt = a.len - s0;
	int len = a.len - cnt + b.len;
	for (int i = 0; i < SN + 3; ++i){
		if (i >= len) m[i] = 0;
		else if (i < s0) m[i] = a.c[i];
		else if (i < s0 + b.len) m[i] = b.c[i - s0];
		else m[i] = a.c[i - b.len + cnt];
	}
	check_kept(&b);
	expect_str(m, len, SN + 3);
}
void h_subst(void){ FORKLEN(SN, b_subst); }
// SUBST$ near the 256 character limit
void h_subst_limit(void){
	env_init();
	int len = vt_range(0, 256), rl = vt_range(0, 256);
	fixp st = RAW32(), n = RAW32();
	int s0 = st >> 12, cnt = n >> 12;
	ASSUME(s0 >= 0 && s0 <= len);
	if (cnt < 0 || cnt > len - s0) cnt = len - s0;
	ASSUME(len - cnt + rl > 256);
	struct string* s1 = get_new_str(&p->strs); s1->uses = 1; s1->len = len;
	push_str(s1);
	push_num(st); push_num(n);
	struct string* s2 = get_new_str(&p->strs); s2->uses = 1; s2->len = rl;
	push_str(s2);
	func_subst(p);
	CHECK(p->exec.error == ERR_STRING_TOO_LONG, "a result over 256 characters is refused");
	REACH("value");
}

// LEN ASC CHR$ INSTR HEX$
static void b_len(int L){
	strs_env_init();
	sop_in(&a, SN);
	a.len = L;
	sop_push(&a, KA);
	func_len(p);
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1 && TOP_TYPE() == VAR_NUMBER, "one number");
	CHECK(pop_num() == a.len * 4096, "LEN is the number of characters");
	check_kept(&a); check_refs();
	REACH("value");
}
void h_len(void){ FORKLEN(SN, b_len); }
void h_asc(void){
	strs_env_init();
	sop_in(&a, SN);
	sop_push(&a, KA);
	func_asc(p);
	if (a.len == 0){
		CHECK(p->exec.error == ERR_SYNTAX, "ASC of an empty string is an error");
	} else {
		CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1 && TOP_TYPE() == VAR_NUMBER, "one number");
		CHECK(pop_num() == a.c[0] * 4096, "ASC is the first character's code");
		check_refs();
		REACH("value");
	}
	check_kept(&a);
}
static void b_chr(int v){
	strs_env_init();
	fixp n = RAW32();
	push_as(n, v);
	func_chr(p);
	int c = n >> 12;
	if (c < 0 || c > 255){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "codes outside 0-255 are out of range");
		REACH("range");
		return;
	}
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1, "one result");
	m[0] = c;
	check_result(m, 1, 1);
	func_asc(p);
	CHECK(p->exec.error == ERR_NONE && pop_num() == c * 4096, "ASC(CHR$(c)) is c");
	check_refs();
	REACH("value");
}
void h_chr(void){ FORK2(b_chr); }
static void instr(int L, int three){
	strs_env_init();
	sop_in(&a, SN); sop_in(&b, 3);
	a.len = L;
	sop_push(&a, KA); sop_push(&b, KB);
	fixp st = 0;
	p->exec.argcount = 2;
	if (three){
		st = RAW32();
		push_num(st);
		p->exec.argcount = 3;
	}
	func_instr(p);
	int s0 = st >> 12;
	if (s0 < 0){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a negative start is out of range");
		REACH("range");
		return;
	}
	int found = -1;
	for (int i = SN - 1; i >= 0; --i){
		int ok = i >= s0 && i + b.len <= a.len;
		for (int j = 0; j < 3; ++j) if (j < b.len && (i + j >= SN || a.c[i + j] != b.c[j])) ok = 0;
		if (ok) found = i;
	}
	if (b.len == 0) found = 0;
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1 && TOP_TYPE() == VAR_NUMBER, "one number");
	CHECK(pop_num() == found * 4096, "INSTR is the first match at or after the start, or -1");
	check_kept(&a); check_kept(&b); check_refs();
	REACH("value");
}
static void b_instr2(int L){ instr(L, 0); }
static void b_instr3(int L){ instr(L, 1); }
void h_instr2(void){ FORKLEN(SN, b_instr2); }
void h_instr3(void){ FORKLEN(SN, b_instr3); }
static void hex(int digits_given, int var){
	strs_env_init();
	fixp n = RAW32(), d = 0;
	p->exec.argcount = 1;
	push_as(n, var);
	if (digits_given){
		d = RAW32();
		push_as(d, var);
		p->exec.argcount = 2;
	}
	func_hex(p);
	int v = n >> 12, dg = d >> 12;
	if (digits_given && (dg < 1 || dg > 5)){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "digit count must be 1-5");
		REACH("range");
		return;
	}
	if (digits_given && (v >= 1 << (4*dg) || v < -(1 << (4*dg - 1)))){
		CHECK(p->exec.error == ERR_ILLEGAL_FUNCTION_CALL, "a number that does not fit the digits is refused");
		REACH("nofit");
		return;
	}
	unsigned u = (unsigned)v & 0xfffff;
	int len = 5;
	if (digits_given){
		u &= (1u << (4*dg)) - 1;
		len = dg;
	} else {
		while (len > 1 && !(u >> (4*(len-1)))) --len;
	}
	for (int i = 0; i < 5; ++i) if (i < len){
		unsigned x = (u >> (4*(len - 1 - i))) & 15;
		m[i] = x < 10 ? '0' + x : 'A' + x - 10;
	}
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1, "one result");
	check_result(m, len, 5);
	check_refs();
	REACH("value");
}
static void b_hex1(int v){ hex(0, v); }
static void b_hex2(int v){ hex(1, v); }
void h_hex1(void){ FORK2(b_hex1); }
void h_hex2(void){ FORK2(b_hex2); }

// equality and order: same answer as comparing the character sequences
#ifndef OP
#define OP op_equal
#define OPI 0
#endif
static void b_cmp(int L){
	strs_env_init();
	sop_in(&a, 4); sop_in(&b, 4);
	a.len = L;
	sop_push(&a, KA); sop_push(&b, KB);
	OP(p);
	int c = 0; // sign of the comparison
	for (int i = 3; i >= 0; --i){
		int ia = i < a.len ? to_wide(a.c[i]) : -1, ib = i < b.len ? to_wide(b.c[i]) : -1;
		if (ia < ib) c = -1;
		if (ia > ib) c = 1;
	}
	int want = OPI == 0 ? c == 0 : OPI == 1 ? c != 0 : OPI == 2 ? c < 0 : OPI == 3 ? c > 0 : OPI == 4 ? c <= 0 : c >= 0;
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1 && TOP_TYPE() == VAR_NUMBER, "one number");
	CHECK(pop_num() == want * 4096, "comparison result is 1 or 0 by character order");
	check_kept(&a); check_kept(&b);
	REACH("value");
}
void h_cmp(void){ FORKLEN(4, b_cmp); }

// character conversion
void h_chars(void){
	env_init();
	u8 c = vt_u8();
	CHECK(to_char(to_wide(c)) == c, "converting a character to wide and back gives the same character");
	u8 d = vt_u8();
	CHECK(c == d || to_wide(c) != to_wide(d), "different characters stay different");
	int w = vt_range(0, 65535);
	int k = to_char(w);
	CHECK(k >= -1 && k <= 255, "conversion gives a character or -1");
	REACH("value");
}
