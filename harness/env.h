// Shared machine state for the harnesses: one interpreter (`P`) whose tables
// are small typed arrays instead of one big malloc'd block.
#pragma once
#include "vt.h"
#include <stdlib.h>
#include <string.h>
#include "system.h"
#include "error.h"
#include "stack.h"
#include "strs.h"
#include "vars.h"
#include "arrays.h"
#include "ptc.h"
#include "operators.h"

#ifndef ENV_STRS
#define ENV_STRS 4
#endif
#ifndef ENV_VARS
#define ENV_VARS 4
#endif
#ifndef ENV_ARR
#define ENV_ARR 16
#endif
#ifndef ENV_STRTYPE
#define ENV_STRTYPE STRING_CHAR
#endif

// called by the encoded copy of the sources wherever the ERROR macro reports an error.
// With NO_ERRORS an error is a violation and ends the path (the real code stops the program there).
#ifdef NO_ERRORS
void vt_error(int code){ CHECK(0, "no statement of this program reports an error"); VT_END(); }
#else
void vt_error(int code){ (void)code; }
#endif

static struct ptc P;
static struct ptc* const p = &P;
// called by the encoded copy before every instruction
#ifndef STEP_HOOK
void vt_step(void){}
#endif
static struct string env_strs[ENV_STRS];
static u8 env_str_data[ENV_STRS * MAX_STRLEN * 2];
#ifdef RAW_VARS
// raw memory: CBMC 6.11 mistranslates a char pointer into a member of an array of structs with a symbolic index
static _Alignas(16) u8 env_vars_raw[ENV_VARS * sizeof(struct named_var)];
#define env_vars ((struct named_var*)env_vars_raw)
#else
static struct named_var env_vars[ENV_VARS];
#endif
static union value env_arr[ENV_ARR];
static char env_chars[] = {
#include "single_chars.inc"
};

static inline void env_init(void){
	single_char_strs = env_chars;
	empty_str = env_chars + 768;
	p->strs.strs_max = ENV_STRS;
	p->strs.strs = env_strs;
	p->strs.str_data = env_str_data;
	p->strs.type = ENV_STRTYPE;
	p->vars.vars_max = ENV_VARS;
	p->vars.vars = env_vars;
	p->vars.strs = &p->strs;
	p->vars.arrs = &p->arrs;
	p->arrs.arr_data = env_arr;
	p->arrs.arr_data_size = ENV_ARR;
	p->arrs.arr_data_next = 0;
	p->exec.error = ERR_NONE;
}

// block allocator stand-in: separate objects, so that an access outside one
// allocation is seen
#ifndef ENV_OWN_ALLOC
void* sbc_malloc(int size){ return malloc(size); }
void* sbc_calloc(int count, int size){ return calloc(count, size); }
void sbc_free(void* ptr){ (void)ptr; }
#endif

static inline void push_num(fixp n){
	p->stack.entry[p->stack.stack_i].type = VAR_NUMBER;
	p->stack.entry[p->stack.stack_i].value.number = n;
	p->stack.stack_i++;
}
static inline void push_numvar(fixp* n){
	p->stack.entry[p->stack.stack_i].type = VAR_NUMBER | VAR_VARIABLE;
	p->stack.entry[p->stack.stack_i].value.ptr = n;
	p->stack.stack_i++;
}
static inline void push_str(void* s){
	p->stack.entry[p->stack.stack_i].type = VAR_STRING;
	p->stack.entry[p->stack.stack_i].value.ptr = s;
	p->stack.stack_i++;
}
// value given either as a literal or through a variable.  Which of the two is
// the solver's choice; FORKn runs the body once per combination so that the
// entry types stay concrete on each path.
static fixp env_numcell[8];
static int env_numcells;
static inline void push_as(fixp n, int as_var){
	if (as_var){
		env_numcell[env_numcells] = n;
		push_numvar(&env_numcell[env_numcells++]);
	} else {
		push_num(n);
	}
}
#define FORK2(body) do { int _m = vt_range(0, 1); if (_m == 0){ body(0); VT_END(); } body(1); } while (0)
#define FORK4(body) do { int _m = vt_range(0, 3); \
	if (_m == 0){ body(0); VT_END(); } if (_m == 1){ body(1); VT_END(); } \
	if (_m == 2){ body(2); VT_END(); } body(3); } while (0)
static inline fixp pop_num(void){
	struct stack_entry* e = &p->stack.entry[--p->stack.stack_i];
	return e->type & VAR_VARIABLE ? *(fixp*)e->value.ptr : e->value.number;
}
#define TOP_TYPE() (p->stack.entry[p->stack.stack_i - 1].type)
#define RAW32() ((fixp)vt_in())
// run body(L) with the length concrete on each path
#define FORKLEN(max, body) do { int _l = vt_range(0, max); \
	for (int _i = 0; _i < (max); ++_i) if (_l == _i){ body(_i); VT_END(); } body(max); } while (0)
