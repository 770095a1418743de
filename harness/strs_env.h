// String operands in every representation a program can hold them in.
#pragma once
#ifndef SN
#define SN 5 // longest operand string
#endif
#ifndef ENV_STRS
#define ENV_STRS 6
#endif
#include "env.h"

enum { K_LIT, K_TEMP, K_VAR, K_WIDE, K_EMPTYVAR };
struct sop { int kind; int len; u8 c[SN]; struct string* s; };
#define NCELL 4
static void* cells[NCELL];   // string variables
static int ncell;
static u8 lit0[2 + SN + 1], lit1[2 + SN + 1];
static int nlit;
static u16 wide0[SN + 1], wide1[SN + 1];
static struct string wide_1;
static int nwide;
static u8 by_c; // content of an unrelated string variable
static struct string* by_s;

// string slots with separate small buffers, so that a write past one string is seen
// (the real get_new_str is decided by its own property)
#ifdef OWN_SLOTS
#define SBUF 16
static u8 sb0[SBUF], sb1[SBUF], sb2[SBUF], sb3[SBUF], sb4[SBUF], sb5[SBUF];
struct string* get_new_str(struct strings* s){
	for (int i = 0; i < ENV_STRS; ++i) if (s->strs[i].uses == 0){
		s->strs[i].type = STRING_CHAR;
		s->strs[i].ptr.s = i == 0 ? sb0 : i == 1 ? sb1 : i == 2 ? sb2 : i == 3 ? sb3 : i == 4 ? sb4 : sb5;
		return &s->strs[i];
	}
	return NULL;
}
#endif

static struct string* new_dyn(const u8* c, int len){
	struct string* s = get_new_str(&p->strs);
	s->uses = 1;
	s->len = len;
	for (int i = 0; i < SN; ++i) s->ptr.s[i] = c[i];
	return s;
}
static void strs_env_init(void){
	env_init();
	u8 c[SN] = {0};
	by_c = vt_u8();
	c[0] = by_c;
	by_s = new_dyn(c, 1);
	cells[ncell++] = by_s;
}
// choose content: length 0..SN, any characters
static void sop_in(struct sop* o, int maxlen){
	o->len = vt_range(0, maxlen);
	for (int i = 0; i < SN; ++i) o->c[i] = vt_u8();
}
static void sop_push(struct sop* o, int kind){
	o->kind = kind;
	if (kind == K_LIT){
		u8* l = nlit++ ? lit1 : lit0;
		l[0] = 'S'; l[1] = o->len;
		for (int i = 0; i < SN; ++i) l[2+i] = o->c[i];
		push_str(l);
		return;
	}
	if (kind == K_TEMP){
		o->s = new_dyn(o->c, o->len);
		push_str(o->s);
		return;
	}
	void** cell;
	if (kind == K_VAR){
		o->s = new_dyn(o->c, o->len);
		cell = &cells[ncell++];
		*cell = o->s;
	} else if (kind == K_EMPTYVAR){
		o->len = 0;
		cell = &cells[ncell++];
		*cell = empty_str;
	} else {
		o->s = nwide ? &wide_1 : &p->res.mem_str;
		o->s->type = STRING_WIDE;
		o->s->len = o->len;
		o->s->uses = 1;
		u16* w = nwide ? wide1 : wide0;
		o->s->ptr.w = w;
		for (int i = 0; i < SN; ++i) w[i] = to_wide(o->c[i]);
		nwide++;
		p->res.mem_ptr = o->s;
		cell = (void**)&p->res.mem_ptr;
	}
	p->stack.entry[p->stack.stack_i].type = VAR_STRING | VAR_VARIABLE;
	p->stack.entry[p->stack.stack_i].value.ptr = cell;
	p->stack.stack_i++;
}
// every string slot's reference count equals the number of variables and
// stack temporaries that refer to it
static void check_refs(void){
	for (int i = 0; i < ENV_STRS; ++i){
		int refs = 0;
		for (int k = 0; k < NCELL; ++k) refs += cells[k] == (void*)&env_strs[i];
		for (int k = 0; k < p->stack.stack_i && k < 6; ++k)
			refs += p->stack.entry[k].type == VAR_STRING && p->stack.entry[k].value.ptr == (void*)&env_strs[i];
		CHECK(env_strs[i].uses == (unsigned)refs, "each string slot is counted once per reference");
	}
	CHECK(by_s->type == STRING_CHAR && by_s->len == 1 && by_s->ptr.s[0] == by_c && cells[0] == by_s,
		"unrelated strings keep their content");
}
static void check_kept(struct sop* o){
	if (o->kind == K_VAR){
		CHECK(o->s->len == (unsigned)o->len, "string variable operand keeps its length");
		for (int i = 0; i < SN; ++i) if (i < o->len) CHECK(o->s->ptr.s[i] == o->c[i], "string variable operand keeps its content");
	} else if (o->kind == K_WIDE){
		CHECK(o->s->len == (unsigned)o->len, "MEM$ operand keeps its length");
		for (int i = 0; i < SN; ++i) if (i < o->len) CHECK(((u16*)o->s->ptr.s)[i] == to_wide(o->c[i]), "MEM$ operand keeps its content");
	}
}
// top of the stack: the result string, compared with a model
static void check_result(const u8* c, int len, int cap){
	CHECK(TOP_TYPE() == VAR_STRING, "result is a string value");
	void* r = p->stack.entry[p->stack.stack_i - 1].value.ptr;
#ifdef OWN_SLOTS
	for (int k = 0; k < ENV_STRS; ++k) if (r == (void*)&env_strs[k]){
		CHECK(env_strs[k].type == STRING_CHAR && env_strs[k].len == (unsigned)len, "result has the expected length");
		u8* d = k == 0 ? sb0 : k == 1 ? sb1 : k == 2 ? sb2 : k == 3 ? sb3 : k == 4 ? sb4 : sb5;
		for (int i = 0; i < cap; ++i) if (i < len) CHECK(d[i] == c[i], "result has the expected characters");
		return;
	}
#endif
	CHECK(str_len(r) == (unsigned)len, "result has the expected length");
	for (int i = 0; i < cap; ++i)
		if (i < len) CHECK(str_at_wide(r, i) == to_wide(c[i]), "result has the expected characters");
}
#define FORK3(body) do { int _m = vt_range(0, 2); \
	if (_m == 0){ body(0); VT_END(); } if (_m == 1){ body(1); VT_END(); } body(2); } while (0)
