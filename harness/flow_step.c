// single flow commands on any contents of the stack of active loops and subroutines
#include "env.h"
#include "flow.h"
#include "program.h"
#include "label.h"
#include "tokens.h"
#define DEPTH 8 // 8 stands for the real CALL_STACK_SIZE: the last depth is the last possible one
#define REAL(d) ((d) == DEPTH - 1 ? CALL_STACK_SIZE - 1 : (d))
static fixp cellv[2];
static u8 code[64];
static int n0;
static int kind[DEPTH], addr[DEPTH], vr[DEPTH];
static void any_calls(int depth){
	n0 = depth;
	for (int i = 0; i < depth; ++i){
		kind[i] = vt_bool() ? CALL_GOSUB : CALL_FOR;
		addr[i] = vt_range(34, 56);
		vr[i] = vt_range(0, 1);
		p->calls.entry[i].type = kind[i];
		p->calls.entry[i].address = kind[i] == CALL_GOSUB ? addr[i] : (u32)addr[i] | 2u << 24;
		p->calls.entry[i].var = vr[i] ? &cellv[1] : &cellv[0];
	}
	p->calls.stack_i = depth;
}
static void unchanged(int upto){
	for (int i = 0; i < upto; ++i)
		CHECK(p->calls.entry[i].type == kind[i] && (p->calls.entry[i].address & 0xffffff) == addr[i] &&
			(kind[i] == CALL_GOSUB || p->calls.entry[i].var == &cellv[vr[i]]), "the other loops and subroutines stay active");
}
static void setup(void){
	env_init();
	p->exec.code.data = code; p->exec.code.size = 64;
	p->exec.index = 30;
}
// RETURN: back to the last GOSUB, dropping it and every loop opened since
static void ret_body(int depth){
	setup(); any_calls(depth);
	cmd_return(p);
	int g = depth - 1;
	while (g >= 0 && kind[g] != CALL_GOSUB) --g;
	if (g < 0){
		CHECK(p->exec.error == ERR_RETURN_WITHOUT_GOSUB, "RETURN without GOSUB is an error");
		REACH("without");
	} else {
		CHECK(p->exec.error == ERR_NONE, "RETURN is accepted");
		CHECK((int)p->exec.index == addr[g], "execution continues after the last GOSUB");
		CHECK((int)p->calls.stack_i == g, "the subroutine and its loops are left");
		unchanged(g);
		REACH("returned");
	}
}
void h_return(void){ FORKLEN(DEPTH - 1, ret_body); }
// the end and step of the loop, as NEXT evaluates them
static fixp l_end, l_step;
static int l_with_step, l_ran = -1;
void run(struct bytecode c, struct ptc* q){
	l_ran = c.data - code;
	q->stack.stack_i = 0;
	push_num(l_end);
	if (l_with_step) push_num(l_step);
	q->exec.index = c.size;
}
static void next_body(int depth){
	setup(); any_calls(depth);
	fixp v0 = RAW32(), v1 = RAW32();
	cellv[0] = v0; cellv[1] = v1;
	l_end = RAW32(); l_step = RAW32(); l_with_step = vt_bool();
	int named = vt_range(-1, 1);
	if (named == 0) push_numvar(&cellv[0]);
	if (named == 1) push_numvar(&cellv[1]);
	int f = depth - 1;
	while (f >= 0 && !(kind[f] == CALL_FOR && (named < 0 || vr[f] == named))) --f;
	cmd_next(p);
	if (f < 0){
		CHECK(p->exec.error == ERR_NEXT_WITHOUT_FOR, "NEXT without FOR is an error");
		CHECK(cellv[0] == v0 && cellv[1] == v1, "no variable changes");
		REACH("without");
		return;
	}
	fixp step = l_with_step ? l_step : FIXP_1;
	int64_t nv = (int64_t)(vr[f] ? v1 : v0) + step;
	CHECK(cellv[!vr[f]] == (vr[f] ? v0 : v1), "the other variable does not change");
	if (nv != (fixp)nv){
		CHECK(p->exec.error == ERR_OVERFLOW, "a value out of range is an error");
		REACH("overflow");
		return;
	}
	CHECK(p->exec.error == ERR_NONE, "NEXT is accepted");
	CHECK(cellv[vr[f]] == nv, "the loop variable is increased by the step");
	CHECK(p->stack.stack_i == 0, "no values are left");
	if (step < 0 ? nv < l_end : nv > l_end){
		CHECK(p->exec.index == 30, "execution continues after NEXT");
		CHECK((int)p->calls.stack_i == depth - 1, "the loop is left");
		unchanged(f);
		for (int i = f; i < depth - 1; ++i) CHECK(p->calls.entry[i].type == kind[i + 1] && (p->calls.entry[i].address & 0xffffff) == addr[i + 1], "the loops inside stay");
		REACH("left");
	} else {
		CHECK((int)p->exec.index >= addr[f] && (int)p->exec.index <= addr[f] + 4 , "execution continues at the body");
		CHECK((int)p->calls.stack_i > f, "the loop stays active");
		unchanged(f + 1);
		REACH("again");
	}
}
#ifndef D
#define D 3
#endif
void h_next(void){ next_body(D); }
// GOTO / GOSUB with the call stack at any depth
static u8 lab[2][6] = {{BC_LABEL_STRING, 1, 'A'}, {BC_LABEL_STRING, 1, 'B'}};
static idx lab_index[3];
static int lab_missing;
idx search_label(struct ptc* q, void* label){
	if (label == (void*)lab[0]) return lab_index[0];
	if (label == (void*)lab[1]) return lab_index[1];
	CHECK(0, "the label asked for is one of the labels given");
	return 0;
}
// ON n GOTO/GOSUB @A,@B[,missing]: SUB: GOSUB; GAP: which label is missing
#ifndef SUB
#define SUB 0
#endif
void h_on(void){
	setup();
	int depth0 = vt_range(0, DEPTH - 1), depth = REAL(depth0);
	any_calls(DEPTH - 1);
	p->calls.stack_i = depth;
	lab_index[0] = vt_range(0, 64); lab_index[1] = vt_range(0, 64);
	fixp n = RAW32();
#ifdef NVAR
	cellv[0] = n;
	push_numvar(&cellv[0]);
#else
	push_num(n);
#endif
	push_str(lab[0]);
	push_str(lab[1]);
	if (SUB) cmd_gosub(p); else cmd_goto(p);
	int k = n >> 12;
	if (k < 0 || k > 1){
		CHECK(p->exec.error == ERR_NONE && p->exec.index == 30, "out of range: execution continues with the next statement");
		CHECK((int)p->calls.stack_i == depth, "nothing is called");
		REACH("outside");
	} else {
		if (SUB && depth0 == DEPTH - 1){
			CHECK(p->exec.error == ERR_OUT_OF_MEMORY, "too many nested calls are an error");
			REACH("deep");
		} else {
			CHECK(p->exec.error == ERR_NONE, "accepted");
			CHECK(p->exec.index == lab_index[k], "execution continues at the nth label");
			CHECK((int)p->calls.stack_i == depth + SUB, "GOSUB is remembered");
			if (SUB) CHECK(p->calls.entry[depth].type == CALL_GOSUB && p->calls.entry[depth].address == 30, "with the place to return to");
			REACH("jumped");
		}
	}
}
// a single GOTO/GOSUB
void h_goto(void){
	setup();
	int depth0 = vt_range(0, DEPTH - 1), depth = REAL(depth0);
	any_calls(DEPTH - 1);
	p->calls.stack_i = depth;
	lab_index[0] = vt_range(0, 64); lab_index[1] = vt_range(0, 64);
	int k = vt_bool();
	push_str(k ? lab[1] : lab[0]);
	if (SUB) cmd_gosub(p); else cmd_goto(p);
	if (SUB && depth0 == DEPTH - 1){
		CHECK(p->exec.error == ERR_OUT_OF_MEMORY, "too many nested calls are an error");
		REACH("deep");
		return;
	}
	CHECK(p->exec.error == ERR_NONE && p->exec.index == lab_index[k], "execution continues at the label");
	CHECK((int)p->calls.stack_i == depth + SUB, "GOSUB is remembered");
	if (SUB) CHECK(p->calls.entry[depth].type == CALL_GOSUB && p->calls.entry[depth].address == 30, "with the place to return to");
	for (int i = 0; i < DEPTH - 1; ++i) if (i < depth0) CHECK(p->calls.entry[i].type == kind[i], "other calls are unchanged");
	REACH("jumped");
}
