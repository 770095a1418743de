// variable table, arrays, CLEAR, SORT
#define ENV_VARS 4
#define RAW_VARS
#ifndef ENV_ARR
#define ENV_ARR 40
#endif
#include "env.h"
#include "variables.h"
#include "strfuncs.h"

static char src[3][17]; // variable names as they stand in the program
static char name0[17], name1[17], name2[17];
#ifndef L0
#define L0 1
#define L1 1
#endif
static bool same_name(const char* a, int la, const char* b, int lb){
	if (la != lb) return false;
	for (int i = 0; i < la; ++i) if (a[i] != b[i]) return false;
	return true;
}
static char name_char(void){
	int c = vt_range('0', '_');
	ASSUME((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || c == '_');
	return c;
}
static void in_name(char* n, int len){
	for (int i = 0; i < len; ++i) n[i] = name_char();
	n[len] = '$'; // what follows in the program is not part of the name
}
// a variable table holding any set of variables: two are created first, then a third is looked up
#define NTYPE 4
static const int types[NTYPE] = {VAR_NUMBER, VAR_STRING, VAR_NUMBER | VAR_ARRAY, VAR_STRING | VAR_ARRAY};
#ifndef T0
#define T0 VAR_NUMBER
#define T1 VAR_NUMBER
#endif
static void* tok(int k){ return &env_arr[k]; } // distinct recognisable values
static void set_val(struct named_var* v, int type, int k){
	if (type == VAR_NUMBER) v->value.number = 1000 + k; else v->value.ptr = tok(k);
}
static bool has_val(struct named_var* v, int type, int k){
	return type == VAR_NUMBER ? v->value.number == 1000 + k : v->value.ptr == tok(k);
}
static bool has_default(struct named_var* v, int type){
	return type == VAR_NUMBER ? v->value.number == 0 : type == VAR_STRING ? v->value.ptr == (void*)empty_str : v->value.ptr == NULL;
}
void h_two(void){
	env_init();
	in_name(name0, L0);
	in_name(name1, L1);
	bool same = T0 == T1 && same_name(name0, L0, name1, L1);
	// the table is as a program left it: contents of unused entries are arbitrary
	for (int i = 0; i < ENV_VARS; ++i){
		env_vars[i].value.number = vt_in();
		for (int j = 0; j < 16; ++j) env_vars[i].name[j] = 'A';
	}
	// an unrelated variable occupies any slot
	struct named_var* z = get_var(&p->vars, (char*)"ZZ", 2, VAR_STRING);
	CHECK(z, "unrelated variable");
	ASSUME(!(T0 == VAR_STRING && same_name(name0, L0, "ZZ", 2)) && !(T1 == VAR_STRING && same_name(name1, L1, "ZZ", 2)));
	set_val(z, VAR_STRING, 7);
	struct named_var* a = get_var(&p->vars, name0, L0, T0);
	CHECK(a && a->type == T0 && has_default(a, T0), "a new variable has its type and default value");
	set_val(a, T0, 0);
	struct named_var* b = get_var(&p->vars, name1, L1, T1);
	CHECK(b && b->type == T1, "variable exists and has its type");
	CHECK((a == b) == same, "one variable per name and type");
	if (same) CHECK(has_val(b, T1, 0), "variable keeps its value");
	else { CHECK(has_default(b, T1), "a new variable has its default value"); set_val(b, T1, 1); }
	struct named_var* a2 = get_var(&p->vars, name0, L0, T0);
	struct named_var* b2 = get_var(&p->vars, name1, L1, T1);
	struct named_var* z2 = get_var(&p->vars, (char*)"ZZ", 2, VAR_STRING);
	CHECK(a2 == a && b2 == b && z2 == z, "each lookup finds the same variable");
	CHECK(has_val(a2, T0, 0) && has_val(z2, VAR_STRING, 7), "other variables keep their value");
	if (!same) CHECK(has_val(b2, T1, 1), "variables keep their value");
	CHECK(p->vars.var_count == (same ? 2 : 3), "number of variables used");
	CHECK(p->exec.error == ERR_NONE && p->vars.error == ERR_NONE, "no error");
	for (int i = 0; i < L0; ++i) ASSUME(name0[i] >= '0');
	if (same) REACH("same"); else REACH("different");
}
// a full table: existing variables are found, a new one is Out of memory; DIM likewise
void h_full(void){
	env_init();
	static const int t[4] = {VAR_NUMBER, VAR_STRING, VAR_NUMBER | VAR_ARRAY, VAR_STRING | VAR_ARRAY};
	char c = name_char(), x = name_char();
	name0[0] = c; name0[1] = x;
	struct named_var* v[4];
	for (int i = 0; i < 4; ++i){
		v[i] = get_var(&p->vars, name0, 2, t[i]);
		CHECK(v[i], "as many variables as the table has room for");
	}
	for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) CHECK(v[i] != v[j], "variables of different types are different");
	CHECK(p->vars.var_count == 4, "number of variables used");
	for (int i = 0; i < 4; ++i) CHECK(get_var(&p->vars, name0, 2, t[i]) == v[i], "variables of a full table are found");
	name1[0] = name_char(); name1[1] = name_char();
	bool same = name1[0] == c && name1[1] == x;
	struct named_var* w = get_var(&p->vars, name1, 2, VAR_NUMBER);
	if (same) CHECK(w == v[0], "the variable is found");
	else { CHECK(!w && p->vars.error == ERR_OUT_OF_MEMORY, "a new variable does not fit"); REACH("full"); }
	struct named_var* y = get_new_arr_var(&p->vars, name1, 2, VAR_NUMBER | VAR_ARRAY, 2, ARR_DIM2_UNUSED);
	if (!same) CHECK(!y && p->vars.error == ERR_OUT_OF_MEMORY, "a new array does not fit");
	else CHECK(!y && p->vars.error == ERR_DUPLICATE_DIM, "an array cannot be dimensioned twice");
	union value* z = get_arr_entry(&p->vars, name1, 2, VAR_STRING | VAR_ARRAY, 1, ARR_DIM2_UNUSED);
	if (!same) CHECK(!z && p->vars.error == ERR_OUT_OF_MEMORY, "a new array does not fit");
	else { CHECK(z, "array is created by its first use"); REACH("array"); }
	CHECK(p->vars.var_count == 4, "number of variables used");
}
// programs given as bytecode, run by the real interpreter loop
#include "runner.h"
#include "bc.h"

#ifndef ND
#define ND 2 // number of dimensions in DIM
#endif
#ifndef NI
#define NI ND // number of subscripts in an access
#endif
#ifndef DT
#define DT VAR_NUMBER
#endif
static void bc_arr(int op){
	if (DT == VAR_NUMBER) bc_op(op, 'A');
	else { bc_op(op, 2); bc_op('A', '$'); }
}
// DIM with any sizes, any amount of array memory already in use
#ifndef NEXT
#define NEXT 0
#endif
static void* strtok_(int k){ return env_chars + 3 * k; }
static int d0, d1, next0;
static bool dim_fits(void){
	int64_t s = (int64_t)d0 * (ND == 2 ? d1 : 1);
	return d0 >= 0 && (ND == 1 || d1 >= 0) && s + 2 < ENV_ARR - next0;
}
static int size(void){ return ND == 2 ? d0 * d1 : d0; }
static void push_dims(fixp a, fixp b, int n){
	bc_num(a);
	if (n == 2) bc_num(b);
	bc_op(BC_ARGCOUNT, n);
}
static void fill(void){
	for (int k = 0; k < ENV_ARR; ++k){ env_arr[k].ptr = 0; env_arr[k].number = 77 + k; }
}
void h_dim(void){
	env_init();
	fixp f0 = RAW32(), f1 = RAW32();
	d0 = f0 >> 12; d1 = f1 >> 12;
	p->arrs.arr_data_next = next0 = vt_range(0, ENV_ARR);
	// a past error must not matter
	if (vt_bool()) p->vars.error = ERR_SUBSCRIPT_OUT_OF_RANGE_X;
	fill();
	push_dims(f0, f1, ND);
	bc_arr(BC_DIM);
	run(bc, p);
	if (p->exec.error != ERR_NONE){
		CHECK(p->exec.error == ERR_OUT_OF_MEMORY, "sizes that do not fit report Out of memory");
		CHECK(!dim_fits(), "DIM works when the array fits");
		CHECK(p->arrs.arr_data_next == (unsigned)next0, "no memory is used by a DIM that failed");
		CHECK(p->vars.var_count == 0, "no variable is created by a DIM that failed");
		REACH("full");
	} else {
		// sizes with a zero-sized dimension hold no element
		if (d0 != 0 && !(ND == 2 && d1 == 0)) CHECK(dim_fits(), "sizes that do not fit are refused");
		CHECK(p->arrs.arr_data_next <= ENV_ARR, "array memory in use stays within the array memory");
		CHECK(p->arrs.arr_data_next == (unsigned)(next0 + 2 + size()), "memory for the header and every element is used");
		struct named_var* v = get_var(&p->vars, (char*)"A", 1, DT | VAR_ARRAY);
		CHECK(v && v->value.ptr == (void*)&env_arr[next0] && p->vars.var_count == 1, "the array is the new memory");
		CHECK(arr_size(v->value.ptr, 0) == (u32)d0, "first size");
		if (ND == 2) CHECK(arr_size(v->value.ptr, 1) == (u32)d1 || size() == 0, "second size");
		for (int k = 0; k < ENV_ARR; ++k){
			if (k >= next0 + 2 && k < next0 + 2 + size())
				CHECK(DT == VAR_NUMBER ? env_arr[k].number == 0 : env_arr[k].ptr == (void*)empty_str, "elements start as 0 or empty");
			else if (k < next0 || k >= next0 + 2 + size()) CHECK(env_arr[k].number == 77 + k, "other arrays are untouched");
		}
		REACH("done");
	}
	CHECK(p->stack.stack_i == 0, "nothing is left on the stack");
}
// an access with any subscripts to an array of any small sizes (undimensioned: ten by ten)
#ifndef DMAX
#define DMAX 3
#endif
#ifndef UNDIM
#define UNDIM 0
#endif
static void b_access(int dd0, int dd1){
	env_init();
	fixp f0 = RAW32(), f1 = RAW32();
	int i = f0 >> 12, j = f1 >> 12;
	if (UNDIM){ d0 = 10; d1 = NI == 2 ? 10 : 1; }
	else {
		d0 = dd0; d1 = dd1;
		struct named_var* v = get_new_arr_var(&p->vars, (char*)"A", 1, DT | VAR_ARRAY, d0, ND == 2 ? d1 : ARR_DIM2_UNUSED);
		CHECK(v, "array exists");
	}
	push_dims(f0, f1, NI);
	bc_arr(BC_VARIABLE_NAME);
	run(bc, p);
	if (NI == 1) j = 0;
	if (i >= 0 && i < d0 && j >= 0 && j < d1){
		CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1, "subscripts inside the sizes are accepted");
		CHECK(p->stack.entry[0].type == (DT | VAR_VARIABLE), "the element has the type of the array");
		CHECK(p->stack.entry[0].value.ptr == (void*)&env_arr[2 + i + j * d0], "every element has its own place");
		if (DT == VAR_NUMBER) CHECK(env_arr[2 + i + j * d0].number == 0, "elements start as 0");
		else CHECK(env_arr[2 + i + j * d0].ptr == (void*)empty_str, "elements start empty");
		REACH("element");
	} else {
		CHECK(p->exec.error == ERR_SUBSCRIPT_OUT_OF_RANGE_X || p->exec.error == ERR_SUBSCRIPT_OUT_OF_RANGE_Y, "subscripts outside the sizes are an error");
		if (i >= 0 && i < d0) CHECK(p->exec.error == ERR_SUBSCRIPT_OUT_OF_RANGE_Y, "the second subscript is at fault");
		CHECK(p->stack.stack_i == 0, "no value is left");
		REACH("outside");
	}
}
static void b_acc(int k){ b_access(k % (DMAX + 1), ND == 2 ? k / (DMAX + 1) : 1); }
void h_access(void){
	if (UNDIM) b_access(10, 10);
	else FORKLEN((ND == 2 ? (DMAX + 1) * (DMAX + 1) : DMAX + 1) - 1, b_acc);
}
