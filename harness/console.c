// PRINT, LOCATE, COLOR, CLS, CHKCHR, TABSTEP on a console of any contents
#define ENV_VARS 1
#define ENV_STRS 1
#include "env.h"
#include "console.h"
#include "sysvars.h"
#define W CONSOLE_WIDTH
#define H CONSOLE_HEIGHT
#define C (&p->console)
// reference console
static struct { int x, y; u16 text[H][W]; u8 color[H][W]; u8 col; } R;
static int right; // distance of the cursor from the end of its line
// the contents of the rightmost WS columns of the lowest HS rows are the solver's choice
#ifndef WS
#define WS 4
#endif
#ifndef HS
#define HS 3
#endif
static void fill(void){
	for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j){
		R.text[i][j] = C->text[i][j] = H - i <= HS && W - j <= WS ? vt_u16() : 7;
		R.color[i][j] = C->color[i][j] = H - i <= HS && W - j <= WS ? vt_u8() : 7;
	}
	R.col = C->col = vt_u8();
#ifdef RIGHT
	right = RIGHT;
#else
	right = vt_range(1, WS);
#endif
	R.x = C->x = W - right;
	R.y = C->y = H - vt_range(0, HS);
	if (R.y == H){ ASSUME(right == WS); R.x = C->x = 0; } // past the last line: only at its start
}
static void r_scroll(void){
	while (R.y >= H){
		--R.y;
		for (int i = 1; i < H; ++i) for (int j = 0; j < W; ++j){ R.text[i-1][j] = R.text[i][j]; R.color[i-1][j] = R.color[i][j]; }
		for (int j = 0; j < W; ++j){ R.text[H-1][j] = 0; R.color[H-1][j] = R.col; }
	}
}
static void r_put(u16 w){
	r_scroll();
	R.text[R.y][R.x] = w; R.color[R.y][R.x] = R.col;
	if (++R.x == W){ R.x = 0; ++R.y; }
}
static void r_newline(void){ R.x = 0; ++R.y; r_scroll(); }
static void same(void){
	CHECK(C->x == R.x && C->y == R.y, "the cursor is where the text ends");
	CHECK(C->x < W && C->y <= H, "the cursor is on the screen or at the start of the next line");
	for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j){
		CHECK(C->text[i][j] == R.text[i][j], "every character is where it belongs and older text is kept");
		CHECK(C->color[i][j] == R.color[i][j], "printed characters have the current colour and older ones keep theirs");
	}
	CHECK(C->col == R.col, "the current colour is kept");
}
// PRINT of ITEMS: a string of letters: s string of L characters, n number, c comma, e semicolon
#ifndef ITEMS
#define ITEMS "s"
#endif
#ifndef L
#define L 2
#endif
static u8 lits[2][2 + L + 1];
static void push_op(int op){ p->stack.entry[p->stack.stack_i].type = STACK_OP; p->stack.entry[p->stack.stack_i++].value.number = op; }
void h_print(void){
	env_init();
	fill();
	int tab = vt_range(1, 16);
#ifdef TAB
	ASSUME(tab == TAB);
	tab = TAB;
#endif
	C->tabstep = tab;
	const char* it = ITEMS;
	int last = 0, ns = 0;
	for (int i = 0; it[i]; ++i){
		last = it[i];
		if (it[i] == 's'){
			u8* s = lits[ns++];
			s[0] = BC_STRING; s[1] = L;
			for (int k = 0; k < L; ++k) s[2 + k] = vt_u8();
			push_str(s);
		} else if (it[i] == 'n') push_num(INT_TO_FP(vt_range(-9, -1)));
		else push_op(it[i] == 'c' ? OP_COMMA : OP_SEMICOLON);
	}
	ns = 0;
	fixp n = 0;
	for (int i = 0; it[i]; ++i){
		if (it[i] == 's'){ for (int k = 0; k < L; ++k) r_put(to_wide(lits[ns][2 + k])); ++ns; }
		else if (it[i] == 'n'){ n = p->stack.entry[i].value.number; r_put(to_wide('-')); r_put(to_wide('0' + (-n >> 12))); }
		else if (it[i] == 'c'){ do r_put(to_wide(' ')); while (R.x % tab != 0); }
	}
	if (last != 'c' && last != 'e') r_newline();
	cmd_print(p);
	CHECK(p->exec.error == ERR_NONE, "PRINT reports no error");
	CHECK(p->stack.stack_i == 0, "nothing is left on the stack");
	same();
	REACH("printed");
}
// screen of the real size with one character the solver chooses
static void one_char(void){
	R.x = C->x = vt_range(0, W - 1); R.y = C->y = vt_range(0, H);
	R.col = C->col = vt_u8();
	C->text[vt_range(0, H - 1)][vt_range(0, W - 1)] = vt_u16();
}
void h_locate(void){
	env_init();
	one_char();
	int cx = vt_range(0, W - 1), cy = vt_range(0, H - 1), cc = C->text[cy][cx];
	fixp a = RAW32(), b = RAW32();
	int x = a >> 12, y = b >> 12;
	push_as(a, vt_bool()); push_as(b, 0);
	cmd_locate(p);
	if (x >= 0 && x < W && y >= 0 && y < H){ R.x = x; R.y = y; REACH("moved"); }
	else REACH("outside");
	CHECK(p->exec.error == ERR_NONE, "LOCATE reports no error");
	CHECK(C->x == R.x && C->y == R.y, "LOCATE moves the cursor to a place on the screen, others are ignored");
	CHECK(C->text[cy][cx] == cc && C->col == R.col, "LOCATE changes nothing else");
	sys_csrx(p); CHECK(pop_num() == INT_TO_FP(R.x), "CSRX is the column");
	sys_csry(p); CHECK(pop_num() == INT_TO_FP(R.y), "CSRY is the line");
}
void h_color(void){
	env_init();
	fill();
	fixp a = RAW32(), b = RAW32();
	int f = a >> 12, g = b >> 12;
	bool two = vt_bool();
	push_num(a);
	if (two) push_num(b);
	cmd_color(p);
	if (f < 0 || f > 15 || (two && (g < 0 || g > 15))){ CHECK(p->exec.error == ERR_OUT_OF_RANGE, "colours outside 0-15 are an error"); REACH("range"); }
	else {
		CHECK(p->exec.error == ERR_NONE, "colours 0-15 are accepted");
		R.col = two ? f | g << 4 : (R.col & 0xf0) | f;
		REACH("set");
	}
	same();
}
static struct console panel_text;
void h_cls(void){
	env_init();
	fill();
	p->panel.text = &panel_text;
	cmd_cls(p);
	R.x = R.y = 0;
	for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j){ R.text[i][j] = 0; R.color[i][j] = R.col; }
	same();
	REACH("cleared");
}
void h_chkchr(void){
	env_init();
	one_char();
	fixp a = RAW32(), b = RAW32();
	int x = a >> 12, y = b >> 12;
	push_as(a, vt_bool()); push_as(b, 0);
	func_chkchr(p);
	CHECK(p->stack.stack_i == 1, "one value");
	fixp v = pop_num();
	if (x >= 0 && x < W && y >= 0 && y < H){
		CHECK(v == INT_TO_FP(to_char(C->text[y][x])), "the character at the place");
		REACH("inside");
	} else { CHECK(v == INT_TO_FP(-1), "-1 outside the screen"); REACH("outside"); }
	CHECK(C->x == R.x && C->y == R.y && C->col == R.col, "CHKCHR changes nothing");
}
void h_tabstep(void){
	env_init();
	init_console(C);
	CHECK(C->tabstep == 4, "tabs are 4 wide at first");
	sys_tabstep(p);
	CHECK(p->stack.entry[0].type == (VAR_NUMBER | VAR_VARIABLE), "TABSTEP can be assigned");
	fixp n = RAW32();
	*(fixp*)p->stack.entry[0].value.ptr = n;
	syschk_tabstep(p);
	int t = n >> 12;
	CHECK(C->tabstep == (t < 1 ? 1 : t > 16 ? 16 : t), "TABSTEP is limited to 1-16");
	REACH("set");
}
