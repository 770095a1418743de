// Native side of vt.h: replays one list of input values against the real code.
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "vt.h"

static FILE* vt_file;
static FILE* vt_log;
void VT_ENTRY(void);

int vt_in(void){
	int v;
	if (!vt_file || fscanf(vt_file, "%d", &v) != 1){
		return 0; // inputs past the end of the trace are unconstrained
	}
	return v;
}
void vt_assume(int c){
	if (!c){
		fprintf(vt_log, "VTASSUME\n");
		fflush(vt_log);
		_exit(77);
	}
}
void vt_check(int c, const char* msg){
	if (!c){
		fprintf(vt_log, "VTVIOLATED: %s\n", msg);
		fflush(vt_log);
	}
}
void vt_reach(const char* name){
	fprintf(vt_log, "VTREACH: %s\n", name);
	fflush(vt_log);
}
int main(int argc, char** argv){
	if (argc < 3) return 3;
	vt_file = fopen(argv[1], "r");
	vt_log = fopen(argv[2], "w");
	if (!vt_file || !vt_log) return 3;
	VT_ENTRY();
	fprintf(vt_log, "VTDONE\n");
	fflush(vt_log);
	_exit(0);
}
