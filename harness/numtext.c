// numbers <-> text
#ifndef SN
#define SN 6
#endif
#define OWN_SLOTS
#include "strs_env.h"
#include "strfuncs.h"
#ifndef KA
#define KA 0
#endif
#ifndef AV
#define AV 0
#endif
static struct sop a;

// out[0..len) is the decimal text of n
static void check_num_text(fixp n, const u8* out, int len){
	CHECK(len >= 1 && len <= 11, "text has 1 to 11 characters");
	int i = 0;
	CHECK((out[0] == '-') == (n < 0), "a minus sign exactly for negative numbers");
	if (n < 0) i = 1;
	uint32_t mag = n < 0 ? 0u - (uint32_t)n : (uint32_t)n;
	uint32_t thou = (((mag & 4095) + 2) * 1000) >> 12, in = mag >> 12;
	if (thou >= 1000){ thou -= 1000; in++; }
	uint32_t v = 0, f = 0;
	int nd = 0, k = i, bad = 0, fd = 0;
	int st = 0; // 0 integer digits, 1 fraction
	for (int j = 0; j < 11; ++j) if (j >= i && j < len){
		u8 c = out[j];
		if (st == 0 && c == '.'){ st = 1; continue; }
		if (c < '0' || c > '9'){ bad = 1; continue; }
		if (st == 0){ if (nd < 7) v = v * 10 + (c - '0'); nd++; }
		else { if (fd < 3) f = f * 10 + (c - '0'); fd++; }
	}
	CHECK(!bad, "only digits, one point and a sign");
	CHECK(nd >= 1 && nd <= 6 && v == in, "integer part");
	CHECK(nd == 1 || out[k] != '0', "no leading zeros");
	CHECK(fd <= 3 && (st == 1) == (thou != 0), "a point exactly for numbers with a fraction");
	if (fd == 1) f *= 100;
	if (fd == 2) f *= 10;
	CHECK(f == thou, "fraction in thousandths");
	if (st) CHECK(fd >= 1 && out[len - 1] != '0', "no trailing zeros");
}
// one magnitude class per query
#ifndef NLO
#define NLO 0
#define NHI 524288
#endif
static void in_class(fixp n){
	uint32_t mag = n < 0 ? 0u - (uint32_t)n : (uint32_t)n;
	ASSUME((mag >> 12) >= NLO && (mag >> 12) <= NHI);
#ifdef NEG
	ASSUME((n < 0) == NEG);
#endif
}
void h_fixp_to_char(void){
	u8 buf[13];
	for (int i = 0; i < 13; ++i) buf[i] = 0xaa;
	fixp n = RAW32();
	in_class(n);
	fixp_to_char(n, buf);
	int len = -1;
	for (int i = 12; i >= 0; --i) if (buf[i] == 0) len = i;
	check_num_text(n, buf, len);
	REACH("value");
}
void h_str(void){
	strs_env_init();
	fixp n = RAW32();
	in_class(n);
	push_as(n, AV);
	func_str(p);
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1 && TOP_TYPE() == VAR_STRING, "one string");
	void* r = p->stack.entry[0].value.ptr;
	CHECK(r == (void*)&env_strs[1], "result in the first free slot");
	check_num_text(n, sb1, env_strs[1].len);
	check_refs();
	REACH("value");
}

// VAL of any text
static void b_val(int L){
	strs_env_init();
	sop_in(&a, SN);
	a.len = L;
	sop_push(&a, KA);
	func_val(p);
	// digit values of each position
	int neg = 0, base = 10, i = 0;
	if (L >= 1 && a.c[0] == '&'){
		if (L >= 2 && a.c[1] == 'H') base = 16;
		else if (L >= 2 && a.c[1] == 'B') base = 2;
		else {
			CHECK(p->exec.error == ERR_SYNTAX, "& must be followed by H or B");
			REACH("syntax");
			return;
		}
		i = 2;
	}
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1 && TOP_TYPE() == VAR_NUMBER, "one number");
	if (i < L && a.c[i] == '-'){ neg = 1; i++; }
	uint32_t v = 0, f = 0, scale = 1;
	int st = 0;
	for (int j = 0; j < SN; ++j) if (j >= i && j < L && st < 2){
		u8 c = a.c[j];
		uint32_t d = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
		if (d < (uint32_t)base){
			if (st == 0) v = v * base + d;
			else { f = f * 10 + d; scale *= 10; }
		} else if (c == '.' && base == 10 && st == 0) st = 1;
		else st = 2;
		ASSUME(v < 524288); // representable
	}
	fixp r = pop_num();
	if (neg) r = -(uint32_t)r;
	CHECK((uint32_t)r >> 12 == v, "integer part of the text");
	uint32_t q = r & 4095;
	// q = floor(4096 * f / scale)
	CHECK((uint64_t)q * scale <= (uint64_t)f * 4096 && (uint64_t)f * 4096 < (uint64_t)(q + 1) * scale, "fraction of the text");
	check_kept(&a);
	check_refs();
	REACH("value");
}
void h_val(void){ FORKLEN(SN, b_val); }
// any length, any text: no access outside the string
#ifndef LONG
#define LONG 24
#endif
static u8 longlit[2 + LONG];
void h_val_long(void){
	strs_env_init();
	longlit[0] = 'S'; longlit[1] = vt_range(0, LONG);
	for (int i = 0; i < LONG; ++i) longlit[2 + i] = vt_u8();
	push_str(longlit);
	func_val(p);
	REACH("value");
}
