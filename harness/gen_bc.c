// Compiles a BASIC text with the real tokenizer and prints the result as C definitions.
// gen_bc OPTS NVARS NLABELS OUTPUT < text      ('\n' ends a line)
#include "system.h"
#include "program.h"
#include "error.h"
#include "tokens.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
void* sbc_malloc(int n){ return malloc(n); } void* sbc_calloc(int c, int n){ return calloc(c, n); } void sbc_free(void* q){}
int main(int c, char** v){
	int opts = atoi(v[1]), nv = atoi(v[2]), nl = atoi(v[3]);
	struct ptc* p = calloc(1, sizeof(struct ptc));
	p->vars.vars_max = nv;
	p->vars.vars = calloc(nv, sizeof(struct named_var));
	p->vars.strs = &p->strs; p->vars.arrs = &p->arrs;
	single_char_strs = calloc(1, 1024); empty_str = single_char_strs + 768;
	static char text[100000];
	int n = fread(text, 1, sizeof(text), stdin);
	for (int i = 0; i < n; ++i) if (text[i] == '\n') text[i] = '\r';
	struct program prg = {n, text};
	struct bytecode bc = init_bytecode_size(100000, 10000, nl);
	int err = tokenize_full(&prg, &bc, p, opts);
	FILE* o = fopen(v[4], "w");
	if (!o) return 3;
	fprintf(o, "#define PRG_ERROR %d\n#define PRG_SIZE %d\n#define PRG_OPTS %d\n#define PRG_BC {", err, (int)bc.size, opts);
	for (int i = 0; i < (int)bc.size; ++i) fprintf(o, "%d,", bc.data[i]);
	fprintf(o, "0}\n#define PRG_NLABELS %d\n#define PRG_LABELS {", nl);
	for (int i = 0; i < nl; ++i){
		fprintf(o, "{{");
		for (int j = 0; j < MAX_LABEL_SIZE; ++j) fprintf(o, "%d,", bc.labels.entry[i].name[j]);
		fprintf(o, "},%d},", (int)bc.labels.entry[i].index);
	}
	fprintf(o, "}\n#define PRG_NVARS %d\n#define PRG_VARS(V) ", nv);
	for (int i = 0; i < nv; ++i) if (p->vars.vars[i].type != VAR_EMPTY){
		fprintf(o, "V(%d,%d,\"%.16s\") ", i, (int)p->vars.vars[i].type, p->vars.vars[i].name);
	}
	fprintf(o, "\n");
	fclose(o);
	return 0;
}
