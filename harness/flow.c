// FOR/NEXT, GOSUB/RETURN, ON, IF: whole programs run by the real interpreter.
// Each job fixes which branch every decision takes (as an assumption on the symbolic values) and lets the solver
// confirm that the interpreter takes exactly that one; the jobs together cover all values up to the stated loop count.
#define STEP_HOOK
#define NO_ERRORS
#include "prog.h"
#ifndef N
#define N 2
#endif
static fixp in_range(int bits){ fixp v = RAW32(); ASSUME(v > -(1 << bits) && v < (1 << bits)); return v; }
// nth FOR and its NEXT (nn), in the order of the text; depth: active loops and subroutines
static void enter_loop(int n, int depth){ expect(at(BC_BEGIN_LOOP, ANY, n) + 2, depth); }
static void skip_loop(int n, int nn, int depth){ expect(past(CMD_NEXT, nn), depth); }
static void again(int n, int nn, int depth){ enter_loop(n, depth); }
static void leave_loop(int nn, int depth){ expect(past(CMD_NEXT, nn), depth); }

// FOR I=a TO b STEP c : S=S+I*1 : T=T+1 : NEXT [I]     (N rounds)
void h_for(void){
	prg_init();
	fixp a = in_range(28), b = in_range(28), c = in_range(24);
#ifdef NOSTEP
	c = FIXP_1;
#endif
	if (N == 0) ASSUME(c >= 0 ? a > b : a < b);
	else {
		ASSUME(c != 0 || N == 0);
		int64_t last = (int64_t)a + (int64_t)(N - 1) * c, next = (int64_t)a + (int64_t)N * c;
		if (c >= 0) ASSUME(last <= b && next > b); else ASSUME(last >= b && next < b);
	}
	lit(0, a);
#ifdef VARS
	*num("B") = b; *num("C") = c;
#else
	lit(1, b);
#ifndef NOSTEP
	lit(2, c);
#endif
#endif
	if (N == 0) skip_loop(0, 0, 0);
	else {
		enter_loop(0, 1);
		for (int i = 0; i < N - 1; ++i) again(0, 0, 1);
		leave_loop(0, 0);
	}
	run_prg();
	fixp sum = 0;
	for (int i = 0; i < N; ++i) sum += a + i * c;
	CHECK(*num("I") == a + N * c, "the variable ends at the first value past the end");
	CHECK(*num("S") == sum, "the body sees start, start+step, ...");
	REACH("end");
}

// two loops, one in the other: N1 rounds of N2 rounds each; MODE 0: NEXT:NEXT, 1: NEXT J:NEXT I
#ifndef N1
#define N1 2
#endif
#ifndef N2
#define N2 1
#endif
static void rounds(int n, fixp a, fixp b, fixp c){
	if (n == 0) ASSUME(c >= 0 ? a > b : a < b);
	else {
		ASSUME(c != 0);
		int64_t last = (int64_t)a + (int64_t)(n - 1) * c, next = (int64_t)a + (int64_t)n * c;
		if (c >= 0) ASSUME(last <= b && next > b); else ASSUME(last >= b && next < b);
	}
}
void h_nest(void){
	prg_init();
	fixp a = in_range(28), b = in_range(28), c = in_range(24), d = in_range(28), e = in_range(28), f = in_range(24);
	rounds(N1, a, b, c); rounds(N2, d, e, f);
	lit(0, a); lit(1, b); lit(2, c); lit(3, d); lit(4, e); lit(5, f);
	enter_loop(0, 1);
	for (int i = 0; i < N1; ++i){
		if (N2 == 0) skip_loop(1, 0, 1);
		else {
			enter_loop(1, 2);
			for (int j = 0; j < N2; ++j) if (j < N2 - 1) again(1, 0, 2); else leave_loop(0, 1);
		}
		if (i < N1 - 1) again(0, 1, 1); else leave_loop(1, 0);
	}
	run_prg();
	CHECK(*num("S") == (N1 * N2) << 12, "the inner body is executed the right number of times");
	CHECK(*num("I") == a + N1 * c && *num("J") == d + N2 * f, "the variables end past the end");
	REACH("end");
}
// NEXT I while a loop over J inside is still active: FOR I..:FOR J..:S=S+1:NEXT I
void h_next_outer(void){
	prg_init();
	fixp a = in_range(28), b = in_range(28), c = in_range(24), d = in_range(28), e = in_range(28), f = in_range(24);
	rounds(N1, a, b, c); ASSUME(f >= 0 ? d <= e : d >= e);
	lit(0, a); lit(1, b); lit(2, c); lit(3, d); lit(4, e); lit(5, f);
	enter_loop(0, 1);
	for (int i = 0; i < N1; ++i){
		enter_loop(1, i + 2);
		if (i < N1 - 1) again(0, 0, i + 2); else leave_loop(0, i + 1);
	}
	run_prg();
	CHECK(*num("S") == N1 << 12, "the body is executed once per round of the outer loop");
	CHECK(*num("I") == a + N1 * c, "the outer variable ends past the end");
	CHECK(*num("J") == d, "the inner loop always starts anew");
	REACH("end");
}
// a subroutine called in a loop, that leaves a loop of its own with RETURN
void h_sub(void){
	prg_init();
	fixp a = in_range(28), b = in_range(28), c = in_range(24);
	rounds(N1, a, b, c);
	lit(0, a); lit(1, b); lit(2, c);
	enter_loop(0, 1);
	for (int i = 0; i < N1; ++i){
		enter_loop(1, 3);
		if (i < N1 - 1) again(0, 0, 1); else leave_loop(0, 0);
	}
	run_prg();
	fixp s = 0;
	for (int i = 0; i < N1; ++i) s = s * 8 + 0x1000, s = s * 8 + 0x2000;
	CHECK(*num("S") == s, "the subroutine and the statement after GOSUB are executed once per round");
	CHECK(*num("I") == a + N1 * c, "the loop variable ends past the end");
	CHECK(p->calls.stack_i == 0, "no loop or subroutine is left");
	REACH("end");
}
// straight programs of labels, GOTO, GOSUB, RETURN: the value collected in S shows the order of execution
#ifndef ORDER
#define ORDER 0
#endif
void h_order(void){
	prg_init();
	fixp s = in_range(12);
	*num("S") = s;
	run_prg();
	fixp want_s = s; // each visited place multiplies by 8 and adds its number
	for (int o = ORDER, n = 1; n; ){
		int d = o;
		int pw = 1;
		while (d >= 10){ d /= 10; pw *= 10; }
		want_s = want_s * 8 + (d << 12);
		if (pw == 1) break;
		o %= pw;
	}
	CHECK(*num("S") == want_s, "the statements are executed in the right order");
	CHECK(p->calls.stack_i == 0, "no subroutine is left");
	REACH("end");
}
// IF programs.  TAKEN: for every IF in order of execution 1 if its condition holds (a digit each, first digit first);
// COND: the conditions (on a, b) that the digits stand for, in C
#ifdef TAKEN
#ifndef COND
#define COND {a != 0, b != 0}
#endif
#ifndef FALSE_TO
#define FALSE_TO {0}
#endif
#ifndef TRUE_TO
#define TRUE_TO {0}
#endif
#define L(n) at(BC_LABEL, ANY, n)
#define ELSE_(n) past(CMD_ELSE, n)
#define ENDIF_(n) past(CMD_ENDIF, n)
#define NEXT_ (-2)
void h_if(void){
	prg_init();
	fixp a = RAW32(), b = RAW32();
	*num("A") = a; *num("B") = b; *num("S") = 0;
	int conds[] = COND;
	char taken[] = TAKEN;
	int tt[] = TRUE_TO, ft[] = FALSE_TO;
	for (int i = 0; taken[i]; ++i){
		ASSUME((conds[i] != 0) == (taken[i] == '1'));
		int to = taken[i] == '1' ? tt[i] : ft[i];
		expect(to == NEXT_ ? past(CMD_IF, i) : to, 0);
	}
	run_prg();
	CHECK(*num("S") == RESULT << 12, "the right statements are executed");
	CHECK(*num("A") == a && *num("B") == b, "the conditions change nothing");
	REACH("end");
}
#endif
