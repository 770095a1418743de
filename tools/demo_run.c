// runs a BASIC program text natively: bas PROGRAM [KEYS [VARS STRS ARRS [OPTS]]]; '\n' ends a line
#define _POSIX_C_SOURCE 200809L
#include "system.h"
#include "program.h"
#include "error.h"
#include "runner.h"
#include "tokens.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
void* sbc_membase; void init_memory(int n){} void* sbc_malloc(int n){ return malloc(n); } void* sbc_calloc(int c, int n){ return calloc(c, n); } void sbc_free(void* q){}
int main(int c, char** v){
	FILE* out = fdopen(3, "w"); // the interpreter itself logs on the other streams
	struct ptc* p = init_system(c > 3 ? atoi(v[3]) : 64, c > 4 ? atoi(v[4]) : 64, c > 5 ? atoi(v[5]) : 256, true);
	p->console.test_mode = true;
	if (getenv("SEARCH")) p->res.search_path = getenv("SEARCH");
	init_mem_prg(&p->exec.prg, MAX_SOURCE_SIZE);
	char* d = p->exec.prg.data;
	size_t n = 0;
	for (const char* s = v[1]; *s; ++s) d[n++] = *s == '\n' ? '\r' : *s;
	d[n++] = '\r';
	p->exec.prg.size = n;
	struct bytecode o = init_bytecode();
	p->exec.error = tokenize_full(&p->exec.prg, &o, p, c > 6 ? atoi(v[6]) : 0);
	if (p->exec.error) fprintf(out, "tokenize error\n");
	if (c > 2) for (char* k = v[2]; *k; ++k) set_inkey(&p->input, to_wide(*k == '\n' ? '\r' : *k));
	run(o, p);
	fprintf(out, "%s\n", p->exec.error ? error_messages[p->exec.error] : "OK");
	for (int y = 0; y < 24; ++y){
		char row[33] = {0};
		int any = 0;
		for (int x = 0; x < 32; ++x){
			int k = to_char(p->console.text[y][x]);
			row[x] = k >= 32 && k < 127 ? k : (k ? '#' : ' ');
			if (k) any = 1;
		}
		if (any) fprintf(out, "%2d|%s|\n", y, row);
		for (int x = 0; x < 32; ++x) if (p->console.color[y][x]){ fprintf(out, "%2d:", y); for (x = 0; x < 32; ++x) fprintf(out, "%02x", p->console.color[y][x]); fputs("\n", out); }
	}
	fclose(out);
	return 0;
}
