// SORT, RSORT, SWAP of numbers, CLEAR
#define ENV_VARS 4
#define RAW_VARS
#define ENV_ARR 32
#include "env.h"
#include "variables.h"
#ifndef N
#define N 4   // size of the sorted array
#endif
#ifndef RS
#define RS 0  // RSORT
#endif
#ifndef DT
#define DT VAR_NUMBER
#endif
#ifndef NX
#define NX 1  // additional arrays
#endif
static void* arr[3];
static void push_arr(int k, int t){
	p->stack.entry[p->stack.stack_i].type = VAR_VARIABLE | VAR_ARRAY | t;
	p->stack.entry[p->stack.stack_i].value.ptr = &arr[k];
	p->stack.stack_i++;
}
static union value* mk(union value* a, int n, u32 n2){
	((u32*)a)[0] = n; ((u32*)a)[1] = n2;
	return a;
}
// each array is an object of its own: size words, elements, one cell that follows
static union value A[N + 3], B[N + 4], C[N + 3];
#ifndef LA
#define LA 1
#define LB 1
#define LC 1
#endif
static const int slen[3] = {LA, LB, LC};
static u16 s0[4], s1[4], s2[4]; // wide constants: type, length, characters
static u16* const sv[3] = {s0, s1, s2};
static int key[N][3]; // key of each element before: number, or length and two characters
static bool before(int a, int b){ // a may stand before b
	if (DT == VAR_NUMBER) return RS ? key[a][0] >= key[b][0] : key[a][0] <= key[b][0];
	int la = key[a][0], lb = key[b][0], c = 0;
	for (int i = 0; i < 2; ++i) if (c == 0){
		if (i < la && i < lb) c = key[a][1 + i] < key[b][1 + i] ? -1 : key[a][1 + i] > key[b][1 + i];
	}
	if (c == 0) c = la < lb ? -1 : la > lb;
	return RS ? c >= 0 : c <= 0;
}
static void b_sort(int start, int size){
	env_init();
	for (int k = 0; k < N; ++k){
		A[2 + k].ptr = B[2 + k].ptr = C[2 + k].ptr = 0;
		if (DT == VAR_NUMBER){ key[k][0] = RAW32(); A[2 + k].number = key[k][0]; }
		else {
			key[k][0] = slen[k]; key[k][1] = vt_u16(); key[k][2] = vt_u16();
			((u8*)sv[k])[0] = STRING_INLINE_WIDE; ((u8*)sv[k])[1] = slen[k];
			sv[k][1] = key[k][1]; sv[k][2] = key[k][2];
			A[2 + k].ptr = sv[k];
		}
		B[2 + k].number = k; // follows the keys
		C[2 + k].number = 100 + k;
	}
	A[N + 2].number = 7000; B[N + 2].number = 7001; B[N + 3].number = 7002; C[N + 2].number = 7003;
	arr[0] = mk(A, N, ARR_DIM2_UNUSED);
	arr[1] = mk(B, N + 1, ARR_DIM2_UNUSED);
	arr[2] = mk(C, N, ARR_DIM2_UNUSED);
	push_num((start << 12) | vt_range(0, 4095));
	push_num((size << 12) | vt_range(0, 4095));
	push_arr(0, DT);
	if (NX >= 1) push_arr(1, VAR_NUMBER);
	if (NX >= 2) push_arr(2, VAR_NUMBER);
	if (RS) cmd_rsort(p); else cmd_sort(p);
	CHECK(p->exec.error == ERR_NONE, "no error");
	int ord[N];
	for (int k = 0; k < N; ++k){
		ord[k] = -1;
		if (NX >= 1){
			ord[k] = B[2 + k].number;
			CHECK(ord[k] >= 0 && ord[k] < N, "the second array still holds its elements");
			ASSUME(ord[k] >= 0 && ord[k] < N);
			for (int l = 0; l < k; ++l) CHECK(ord[l] != ord[k], "no element is lost or duplicated");
			if (DT == VAR_NUMBER) CHECK(A[2 + k].number == key[ord[k]][0], "elements of all arrays move together");
			else CHECK(A[2 + k].ptr == (void*)sv[ord[k]], "elements of all arrays move together");
			if (NX >= 2) CHECK(C[2 + k].number == 100 + ord[k], "elements of a third array move together");
			if (k < start || k >= start + size) CHECK(ord[k] == k, "elements outside the range stay");
			if (k > start && k < start + size) CHECK(before(ord[k - 1], ord[k]), "elements in the range are in order");
		}
	}
	if (NX == 0 && DT == VAR_NUMBER) for (int k = 0; k < N; ++k){
		if (k > start && k < start + size) CHECK(RS ? A[1 + k].number >= A[2 + k].number : A[1 + k].number <= A[2 + k].number, "elements in the range are in order");
		if (k < start || k >= start + size) CHECK(A[2 + k].number == key[k][0], "elements outside the range stay");
	}
	if (NX == 0 && DT == VAR_STRING){
		for (int k = 0; k < N; ++k){
			for (int l = 0; l < N; ++l) if (A[2 + k].ptr == (void*)sv[l]) ord[k] = l;
			CHECK(ord[k] >= 0, "the array still holds its strings");
			ASSUME(ord[k] >= 0);
			for (int l = 0; l < k; ++l) CHECK(ord[l] != ord[k], "no element is lost or duplicated");
			if (k < start || k >= start + size) CHECK(ord[k] == k, "elements outside the range stay");
			if (k > start && k < start + size) CHECK(before(ord[k - 1], ord[k]), "elements in the range are in order");
		}
	}
	CHECK(A[N + 2].number == 7000 && B[N + 2].number == 7001 && B[N + 3].number == 7002 && C[N + 2].number == 7003, "memory after the range is untouched");
	CHECK(((u32*)A)[0] == N && ((u32*)B)[0] == N + 1 && ((u32*)C)[0] == N, "sizes are untouched");
	REACH("sorted");
}
#ifndef START
#define START 0
#define SIZE N
#endif
void h_sort(void){ b_sort(START, SIZE); }
// any start and size arguments: no invalid access, Out of range outside the smallest array
#ifndef M0
#define M0 2
#define M1 2
#endif
static union value E[5], F[5];
#ifdef M2
static union value G[4];
#endif
void h_sort_args(void){
	env_init();
	bool twod = M0 < 0 || M1 < 0; // negative: two-dimensional
	int min = M0 < M1 ? M0 : M1;
	arr[0] = mk(E, M0 < 0 ? 1 : M0, M0 < 0 ? 1 : ARR_DIM2_UNUSED);
	arr[1] = mk(F, M1 < 0 ? 1 : M1, M1 < 0 ? 1 : ARR_DIM2_UNUSED);
#ifdef M2
	arr[2] = mk(G, M2 < 0 ? 1 : M2, M2 < 0 ? 1 : ARR_DIM2_UNUSED);
	twod |= M2 < 0;
	if (M2 < min) min = M2;
	for (int k = 0; k < 2; ++k) G[2 + k].number = k;
#endif
	for (int k = 0; k < 2; ++k){ E[2 + k].number = RAW32(); F[2 + k].number = k; }
	fixp s = RAW32(), z = RAW32();
	push_num(s); push_num(z);
	push_arr(0, VAR_NUMBER); push_arr(1, VAR_NUMBER);
#ifdef M2
	push_arr(2, VAR_NUMBER);
#endif
	if (RS) cmd_rsort(p); else cmd_sort(p);
	if (twod) CHECK(p->exec.error == ERR_SORT_2D, "two-dimensional arrays are refused");
	else if ((s >> 12) < 0 || (s >> 12) >= min || (z >> 12) < 0 || (z >> 12) > min - (s >> 12)){
		CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a range outside the smallest array is refused");
		if (s >> 12 == 0) REACH("size");
	} else {
		CHECK(p->exec.error == ERR_NONE, "a range inside the arrays is accepted");
	}
	REACH("end");
}
// arrays not dimensioned yet count as ten elements; no array is an error
#ifndef NEXT0
#define NEXT0 0
#endif
#ifndef NARG
#define NARG 3
#endif
#ifndef S0
#define S0 0
#endif
void h_sort_undim(void){
	env_init();
	int next = p->arrs.arr_data_next = NEXT0;
	arr[0] = NULL; arr[1] = NULL;
	fixp s = S0 << 12;
	if (NARG > 0) push_num(s);
	if (NARG > 1) push_num(0);
	if (NARG > 2) push_arr(0, VAR_NUMBER);
	if (NARG > 3) push_arr(1, VAR_STRING);
	if (RS) cmd_rsort(p); else cmd_sort(p);
	int need = NARG < 3 ? 0 : 12 * (NARG - 2);
	if (NARG < 3) CHECK(p->exec.error == ERR_WRONG_ARG_COUNT, "SORT needs an array");
	else if (p->exec.error == ERR_OUT_OF_MEMORY) CHECK(next + need >= ENV_ARR, "memory suffices");
	else {
		CHECK(next + need <= ENV_ARR && arr[0] == (void*)&env_arr[next] && p->arrs.arr_data_next == (unsigned)(next + need), "arrays have their default size");
		CHECK(arr_size(arr[0], 0) == 10 && arr_size(arr[0], 1) == ARR_DIM2_UNUSED, "default size");
		CHECK(p->exec.error == ((s >> 12) >= 0 && (s >> 12) < 10 ? ERR_NONE : ERR_OUT_OF_RANGE), "range is checked");
	}
	REACH("end");
}
// SWAP of numbers: variables, or a system variable that has room for the number only
static fixp sys1, sys2;
static union value nv[3];
void h_swap_num(void){
	env_init();
	int m = vt_range(0, 4);
	sys1 = RAW32(); sys2 = RAW32();
	fixp x = RAW32(), y = RAW32();
	nv[0].ptr = 0; nv[1].ptr = 0;
	nv[0].number = x; nv[1].number = y; nv[2].number = 99;
	fixp* a = m == 0 ? &nv[0].number : m == 1 ? &sys1 : m == 2 ? &nv[0].number : m == 3 ? &sys1 : &nv[0].number;
	fixp* b = m == 0 ? &nv[1].number : m == 1 ? &nv[1].number : m == 2 ? &sys2 : m == 3 ? &sys2 : &nv[0].number;
	fixp va = *a, vb = *b;
	push_numvar(a); push_numvar(b);
	cmd_swap(p);
	CHECK(p->exec.error == ERR_NONE && *a == vb && *b == va, "the two values are exchanged");
	CHECK(nv[2].number == 99, "other variables keep their value");
	if (a != &nv[0].number && b != &nv[0].number) CHECK(nv[0].number == x, "other variables keep their value");
	if (a != &nv[1].number && b != &nv[1].number) CHECK(nv[1].number == y, "other variables keep their value");
	REACH("swapped");
}
// CLEAR from any state of the tables
void h_clear(void){
	env_init();
	static const int types[4] = {VAR_NUMBER, VAR_STRING, VAR_NUMBER | VAR_ARRAY, VAR_STRING | VAR_ARRAY};
	bool ids = vt_bool();
	p->vars.clear_values = ids;
	for (int i = 0; i < ENV_STRS; ++i){ env_strs[i].uses = vt_range(0, 3); env_strs[i].len = 1; env_strs[i].type = STRING_CHAR; }
	for (int k = 0; k < ENV_ARR; ++k) env_arr[k].number = RAW32();
	p->arrs.arr_data_next = vt_range(0, ENV_ARR);
	int t[4];
	for (int i = 0; i < 4; ++i){
		int k = vt_range(-1, 3);
		t[i] = k < 0 ? VAR_EMPTY : types[k];
		env_vars[i].type = t[i];
		env_vars[i].name[0] = 'A' + i; env_vars[i].name[1] = 0;
		if (t[i] == VAR_NUMBER) env_vars[i].value.number = RAW32();
		else if (t[i] == VAR_STRING) env_vars[i].value.ptr = &env_strs[i];
		else env_vars[i].value.ptr = &env_arr[i];
		if (t[i] != VAR_EMPTY) p->vars.var_count++;
	}
	int n = p->vars.var_count;
	cmd_clear(p);
	CHECK(p->exec.error == ERR_NONE, "no error");
	CHECK(p->arrs.arr_data_next == 0, "all array memory is free");
	for (int i = 0; i < ENV_STRS; ++i) CHECK(env_strs[i].uses == 0, "all strings are free");
	if (ids) for (int i = 0; i < 4; ++i){
		CHECK(env_vars[i].type == t[i], "variables keep their place");
		if (t[i] == VAR_NUMBER) CHECK(env_vars[i].value.number == 0, "numbers are 0");
		else if (t[i] == VAR_STRING) CHECK(env_vars[i].value.ptr == (void*)empty_str, "strings are empty");
		else CHECK(env_vars[i].value.ptr == NULL, "arrays are gone");
	} else {
		for (int i = 0; i < 4; ++i) CHECK(env_vars[i].type == VAR_EMPTY, "all variables are gone");
		n = 0;
	}
	CHECK(p->vars.var_count == n, "number of variables used");
	struct named_var* v = get_var(&p->vars, (char*)"B", 1, VAR_NUMBER);
	if (v) CHECK(v->value.number == 0, "a variable used after CLEAR is 0");
	for (int k = 0; k < ENV_ARR; ++k) CHECK(env_arr[k].ptr == NULL, "array memory is empty");
	if (ids) REACH("ids"); else REACH("names");
}
