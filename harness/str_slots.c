// string variables, slots and reference counts
#ifndef SN
#define SN 3
#endif
#define ENV_STRS 5
#ifdef SMALL_SLOTS
#define OWN_SLOTS
#endif
#include "strs_env.h"
#include "strfuncs.h"
#include "resources.h"
#include "variables.h"
#ifndef KD
#define KD 0  // destination holds: 0 nothing yet, 1 its own string, 2 a string shared with another variable
#endif
#ifndef KA
#define KA 0
#endif
static struct sop a, d;
void syschk_mem(struct ptc* p);
static void** dest;
static struct string* other; // the string shared with cells[3], if any

static u8 slot_char(int k, int i){
#ifdef OWN_SLOTS
	return k == 0 ? sb0[i] : k == 1 ? sb1[i] : k == 2 ? sb2[i] : k == 3 ? sb3[i] : sb4[i];
#else
	return env_strs[k].ptr.s[i];
#endif
}
static void setup_dest(int kd){
	strs_env_init();
	for (int i = 1; i < NCELL; ++i) cells[i] = empty_str;
	sop_in(&d, SN);
	dest = &cells[1];
	ncell = 2;
	if (kd){
		d.s = new_dyn(d.c, d.len);
		*dest = d.s;
		if (kd == 2){ cells[3] = d.s; d.s->uses = 2; }
	} else d.len = 0;
}
static void push_dest(void){
	p->stack.entry[p->stack.stack_i].type = VAR_STRING | VAR_VARIABLE;
	p->stack.entry[p->stack.stack_i].value.ptr = dest;
	p->stack.stack_i++;
}
static void holds(void* v, const u8* c, int len){
	if (v == (void*)empty_str){
		CHECK(len == 0, "variable holds the value");
		return;
	}
	for (int k = 0; k < ENV_STRS; ++k) if (v == (void*)&env_strs[k]){
		CHECK(env_strs[k].len == (unsigned)len, "variable holds a value of the right length");
		for (int i = 0; i < SN; ++i) if (i < len) CHECK(slot_char(k, i) == c[i], "variable holds the right characters");
		return;
	}
	CHECK(0, "variable refers to a string slot");
}
// A$ = <expression value>; FILL extra slots are taken by other variables
#ifndef FULL
#define FULL 0
#endif
static void b_assign(int L){
	setup_dest(KD);
	sop_in(&a, SN);
	a.len = L;
	push_dest();
	if (KA == 5){ // assign from itself
		a = d; a.kind = KD ? K_VAR : K_EMPTYVAR;
		push_dest();
	} else if (KA == 6){ // from the variable sharing its string
		ASSUME(KD == 2);
		a = d; a.kind = K_VAR;
		p->stack.entry[1].type = VAR_STRING | VAR_VARIABLE;
		p->stack.entry[1].value.ptr = &cells[3];
		p->stack.stack_i = 2;
	} else sop_push(&a, KA);
	int free0 = 0;
#if FULL
	// every other slot is in use by something else
	unsigned held[ENV_STRS];
	for (int i = 0; i < ENV_STRS; ++i){ held[i] = 0; if (env_strs[i].uses == 0){ env_strs[i].uses = 1; held[i] = 1; } }
#endif
	op_assign(p);
	CHECK(p->stack.stack_i == 0, "nothing left on the stack");
#if FULL
	for (int i = 0; i < ENV_STRS; ++i) if (held[i]){ CHECK(env_strs[i].uses == 1, "strings in use are not touched"); env_strs[i].uses = 0; }
	if (p->exec.error != ERR_NONE){
		CHECK(p->exec.error == ERR_OUT_OF_MEMORY, "running out of strings is reported as Out of memory");
		CHECK(a.kind != K_VAR && a.kind != K_TEMP, "sharing a string needs no memory");
		holds(*dest, d.c, d.len);
		check_refs();
		REACH("full");
		return;
	}
#if KA < 1 || KA == 3
	CHECK(0, "a new string cannot be stored without memory");
#endif
#endif
	CHECK(p->exec.error == ERR_NONE, "no error");
	holds(*dest, a.c, a.len);
	check_kept(&a);
	if (KD == 2) holds(cells[3], d.c, d.len);
	check_refs();
	REACH("value");
}
void h_assign(void){ FORKLEN(SN, b_assign); }

// MEM$ = value: MEM$ takes a copy, the source keeps its own
static void b_assign_mem(int L){
	setup_dest(1);
	static u16 memw[16];
	struct string* ms = &p->res.mem_str;
	ms->type = STRING_WIDE; ms->len = 1; ms->uses = 1; ms->ptr.s = (u8*)memw;
	memw[0] = to_wide(by_c);
	p->res.mem_ptr = ms;
	sop_in(&a, SN);
	a.len = L;
	p->stack.entry[0].type = VAR_STRING | VAR_VARIABLE;
	p->stack.entry[0].value.ptr = &p->res.mem_ptr;
	p->stack.stack_i = 1;
	sop_push(&a, KA);
	op_assign(p);
	syschk_mem(p);
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 0, "no error");
	CHECK(p->res.mem_ptr == (void*)ms && ms->type == STRING_WIDE, "MEM$ stays its own string");
	CHECK(ms->len == (unsigned)a.len && p->res.mem.size == (unsigned)a.len, "MEM$ has the length of the value");
	for (int i = 0; i < SN; ++i) if (i < a.len) CHECK(memw[i] == to_wide(a.c[i]), "MEM$ has the characters of the value");
	check_kept(&a);
	holds(*dest, d.c, d.len);
	check_refs();
	REACH("value");
}
void h_assign_mem(void){ FORKLEN(SN, b_assign_mem); }

// SWAP of two string variables
static void b_swap(int L){
	setup_dest(KD);
	sop_in(&a, SN);
	a.len = L;
	push_dest();
	sop_push(&a, KA);
	void** acell = p->stack.entry[1].value.ptr;
	cmd_swap(p);
	p->stack.stack_i = 0;
	CHECK(p->exec.error == ERR_NONE, "no error");
	holds(*dest, a.c, a.len);
	holds(*acell, d.c, d.len);
	check_refs();
	REACH("value");
}
void h_swap(void){ FORKLEN(SN, b_swap); }

// allocation of a string slot: any free slot, never one in use
#ifndef OWN_SLOTS
void h_get_new_str(void){
	env_init();
	int free = 0;
	for (int i = 0; i < ENV_STRS; ++i){ env_strs[i].uses = vt_range(0, 3); free += env_strs[i].uses == 0; }
	unsigned u[ENV_STRS];
	for (int i = 0; i < ENV_STRS; ++i) u[i] = env_strs[i].uses;
	struct string* s = get_new_str(&p->strs);
	if (!s){
		CHECK(free == 0, "a free string is found when there is one");
		REACH("full");
		return;
	}
	int k = -1;
	for (int i = 0; i < ENV_STRS; ++i) if (s == &env_strs[i]) k = i;
	CHECK(k >= 0 && u[k] == 0, "the string handed out is not in use");
	CHECK(s->type == STRING_CHAR && s->uses == 0, "new string is unused and 8-bit");
	CHECK(s->ptr.s == env_str_data + k * MAX_STRLEN, "each slot has 256 characters of its own");
	for (int i = 0; i < ENV_STRS; ++i) CHECK(env_strs[i].uses == u[i], "other strings keep their counts");
	REACH("value");
}
#endif

// string functions with every slot in use
#ifndef FN
#define FN 0
#endif
void h_full(void){
	strs_env_init();
	sop_in(&a, SN); sop_in(&d, SN);
	int n = vt_range(0, SN), m = vt_range(0, SN);
	sop_push(&a, KA);
	if (FN == 0){ sop_push(&d, K_LIT); }
	else if (FN == 1 || FN == 2 || FN == 3){ push_num(INT_TO_FP(n)); }
	else if (FN == 4){ push_num(INT_TO_FP(n)); push_num(INT_TO_FP(m)); }
	else if (FN == 5){ push_num(INT_TO_FP(n)); push_num(INT_TO_FP(m)); sop_push(&d, K_LIT); }
	ASSUME(n <= a.len);
	u8 c0[ENV_STRS];
	unsigned held[ENV_STRS];
	for (int i = 0; i < ENV_STRS; ++i){
		held[i] = 0;
		if (env_strs[i].uses == 0){ env_strs[i].uses = 1; env_strs[i].len = 1; env_strs[i].type = STRING_CHAR; held[i] = 1;
			env_strs[i].ptr.s = env_str_data + i * MAX_STRLEN; env_strs[i].ptr.s[0] = 'Z'; }
	}
	if (FN == 0) op_add(p);
	if (FN == 1) op_mult(p);
	if (FN == 2) func_left(p);
	if (FN == 3) func_right(p);
	if (FN == 4) func_mid(p);
	if (FN == 5) func_subst(p);
	CHECK(p->exec.error == ERR_NONE || p->exec.error == ERR_OUT_OF_MEMORY, "Out of memory or a result");
	for (int i = 0; i < ENV_STRS; ++i) if (held[i]) CHECK(env_strs[i].uses == 1 && env_strs[i].len == 1 && env_strs[i].ptr.s[0] == 'Z', "strings in use keep their content");
	CHECK(by_s->uses == 1 && by_s->len == 1 && by_s->ptr.s[0] == by_c, "unrelated strings keep their content");
	if (p->exec.error) REACH("full");
}
