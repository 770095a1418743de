// BASIC programs, compiled by the real tokenizer (gen_bc.c, when the check runs) and run by the real interpreter
#pragma once
#ifndef PRG_HEADER
#error "this harness needs a program"
#endif
#define RAW_VARS
#include PRG_HEADER
#ifdef STEP_HOOK
#ifndef BRANCH_CMD
#define BRANCH_CMD(d) 0
#endif
#endif
#ifndef ENV_VARS
#define ENV_VARS PRG_NVARS
#endif
#include "env.h"
#include "tokens.h"
#include "runner.h"
static u8 prg_bc[PRG_SIZE + 1] = PRG_BC;
static struct label_line prg_labels[PRG_NLABELS] = PRG_LABELS;
static struct bytecode bc = { .data = prg_bc, .size = PRG_SIZE, .labels = { PRG_NLABELS, prg_labels } };
static struct named_var* prg_var(const char* name, int type){
	struct named_var* v = get_var(&p->vars, (char*)name, strlen(name), type);
	CHECK(v, "variable exists");
	ASSUME(v);
	return v;
}
static fixp* num(const char* name){ return &prg_var(name, VAR_NUMBER)->value.number; }
static void** str(const char* name){ return &prg_var(name, VAR_STRING)->value.ptr; }
static void prg_init(void){
	env_init();
	CHECK(PRG_ERROR == ERR_NONE, "the program compiles");
	p->vars.clear_values = (PRG_OPTS & TOKOPT_VARIABLE_IDS) != 0;
#define V(i, t, n) { env_vars[i].type = t; for (int _k = 0; _k < (int)sizeof(n); ++_k) if (_k < 16) env_vars[i].name[_k] = n[_k]; \
	if (t == VAR_NUMBER) env_vars[i].value.number = 0; else if (t == VAR_STRING) env_vars[i].value.ptr = empty_str; else env_vars[i].value.ptr = NULL; p->vars.var_count++; }
	PRG_VARS(V)
#undef V
}

// ---- positions in the compiled program (computed on constants)
static int ins_len(int i){
	int k = prg_bc[i], n = prg_bc[i + 1];
	if (k == BC_STRING || k == BC_LABEL || k == BC_LABEL_STRING || k == BC_DATA) return 2 + n + (n & 1);
	if (k == BC_WIDE_STRING) return 2 + 2 * n;
	if (k == BC_DIM || k == BC_VARIABLE_NAME || k == BC_ARRAY_NAME) return n < 'A' ? 2 + n + (n & 1) : 2;
	if (k == BC_NUMBER) return BC_NUMBER_SIZE;
	if (k == BC_VARIABLE_ID) return 4;
	return 2;
}
#define ANY (-1)
// start of the nth (from 0) instruction of this kind
static int at(int kind, int data, int nth){
	for (int i = 0; i < PRG_SIZE; i += ins_len(i)){
		int k = prg_bc[i] == BC_COMMAND_FIRST ? BC_COMMAND : prg_bc[i];
		if (k == kind && (data == ANY || prg_bc[i + 1] == data) && nth-- == 0) return i;
	}
	CHECK(0, "the compiled program has the instruction");
	return 0;
}
static int cmd_at(int cmd, int nth){ return at(BC_COMMAND, cmd, nth); }
static int past(int cmd, int nth){ return cmd_at(cmd, nth) + 2; }
// gives the nth literal number (written with a fraction in the program) a value chosen by the solver
static void lit(int nth, fixp v){
	int i = at(BC_NUMBER, ANY, nth);
	for (int k = 0; k < 4; ++k) prg_bc[i + 2 + k] = (uint32_t)v >> (24 - 8 * k);
}
// ---- the decisions the solver has to confirm: after each branching instruction, where execution continues
#ifdef STEP_HOOK
static struct { int index, calls; } want[24];
static struct call_stack step_calls;
static int want_n, want_k, step_prev = -1;
static void expect(int index, int calls){ want[want_n].index = index; want[want_n++].calls = calls; }
void vt_step(void){
#ifdef VT_CBMC
	if (p->exec.code.data != prg_bc) return; // condition of a loop
	if (step_prev >= 0){
		int k = prg_bc[step_prev], d = prg_bc[step_prev + 1];
		if (k == BC_BEGIN_LOOP || ((k == BC_COMMAND || k == BC_COMMAND_FIRST) && (d == CMD_IF || d == CMD_NEXT || BRANCH_CMD(d)))){
			CHECK(want_k < want_n, "no further decision is taken");
			ASSUME(want_k < want_n);
			CHECK((int)p->exec.index == want[want_k].index, "execution continues at the right statement");
			CHECK((int)p->calls.stack_i == want[want_k].calls, "the right loops and subroutines are active");
			p->exec.index = want[want_k].index;
			p->calls.stack_i = want[want_k].calls;
			if (d == CMD_NEXT && k != BC_BEGIN_LOOP && want[want_k].calls == (int)step_calls.stack_i){
				// a loop that continues leaves the active loops and subroutines alone
				for (int i = 0; i < want[want_k].calls; ++i)
					CHECK(p->calls.entry[i].type == step_calls.entry[i].type && p->calls.entry[i].address == step_calls.entry[i].address &&
						(p->calls.entry[i].type == CALL_GOSUB || p->calls.entry[i].var == step_calls.entry[i].var), "the active loops and subroutines stay as they are");
				p->calls = step_calls;
			}
			++want_k;
		}
	}
	step_prev = p->exec.index;
	step_calls = p->calls;
#endif
}
static void run_prg(void){
	run(bc, p);
#ifdef VT_CBMC
	CHECK(want_k == want_n, "every expected decision is taken");
#endif
	CHECK(p->exec.error == ERR_NONE, "no error");
}
#endif
