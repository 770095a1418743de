#define NO_ERRORS
#include "prog.h"
void h_run(void){
	prg_init();
	fixp a = RAW32(), b = RAW32(), c = RAW32();
	ASSUME(a > -40960 && a < 40960 && b > -40960 && b < 40960 && c > -40960 && c < 40960);
	*num("A") = a; *num("B") = b; *num("C") = c;
	run(bc, p);
	CHECK(p->exec.error == ERR_NONE, "no error");
	CHECK(*num("X") == a + (int)(((int64_t)b * c) >> 12), "value");
	REACH("end");
}
void h_nop(void){
	prg_init();
	*num("A") = RAW32();
	run(bc, p);
	REACH("end");
}
