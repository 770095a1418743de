// graphics pages: single pixels, settings, GCLS, GFILL, GBOX, GLINE, GCOPY, GPAINT, GPUTCHR.
// One probe pixel anywhere on any page (the solver's choice) is compared with the definition of the command.
#define ENV_VARS 1
#define ENV_STRS 1
#include "env.h"
#include "graphics.h"
#include "resources.h"
#define W GRP_WIDTH
#define H GRP_HEIGHT
// (a reduced screen keeps the layout of its 64 by 64 blocks)
#define BYTES (W <= 8 && H <= 8 ? 64 : H > 64 ? 16384 * ((H + 63) / 64) : W > 64 ? 64 * W : H * 64)
static u8 *page0, *page1, *page2, *page3;
#ifdef VT_CBMC
#define new_page() malloc(BYTES) // any contents
#else
#define new_page() calloc(BYTES, 1)
#endif
static void new_pages(void){
	page1 = new_page();
#ifndef ONE_PAGE // otherwise drawing uses page 1 only and the others are not there
	page0 = new_page(); page2 = new_page(); page3 = new_page();
#endif
	p->res.grp[0] = page0; p->res.grp[1] = page1; p->res.grp[2] = page2; p->res.grp[3] = page3;
}
static u8* page_of(int pg){ return pg == 0 ? page0 : pg == 1 ? page1 : pg == 2 ? page2 : page3; }
static u8* at(int pg, int x, int y){ return &page_of(pg)[((y / 64) * 4 + x / 64) * 4096 + (y / 8 % 8) * 512 + (x / 8 % 8) * 64 + (y % 8) * 8 + x % 8]; }
static int px, py, pp, old; // probe pixel, its page and colour before the command
static int screen, dp;      // current screen and its draw page
static int col;             // colour set by GCOLOR
static int mode;            // GDRAWMD
static int bx, by;
static int place(int b){ int v = vt_in(); ASSUME(v >= -524288 && v < 524288); return b + v; }
static void init(void){
	env_init();
	new_pages();
#ifdef ONE_PAGE
	p->graphics.screen = screen = 1;
	dp = 1;
	p->graphics.info[0].drawpage = 1; p->graphics.info[1].drawpage = 1;
#else
	p->graphics.screen = screen = vt_range(0, 1);
	p->graphics.info[screen].drawpage = dp = vt_range(0, 3);
	p->graphics.info[1 - screen].drawpage = vt_range(0, 3);
#endif
	p->graphics.color = col = vt_u8();
#ifdef MODE
	mode = MODE;
#else
	mode = vt_range(0, 1);
#endif
	p->graphics.drawmode = mode;
	// places are given from the left or right and the top or bottom edge
	bx = vt_bool() ? W : 0; by = vt_bool() ? H : 0;
	px = place(bx); py = place(by);
	ASSUME(px >= 0 && px < W && py >= 0 && py < H);
#ifdef ONE_PAGE
	pp = 1;
#else
	pp = vt_range(0, 3);
#endif
	*at(pp, px, py) = old = vt_u8();
}
static int now(void){ return *at(pp, px, py); }
#define SAME() CHECK(now() == old, "pixels outside the drawn figure and on other pages keep their colour")
#define DRAWN(c) CHECK(now() == (mode ? old ^ (c) : (c)), "every pixel of the figure gets the colour (or is inverted by it) exactly once")
// optional colour argument: returns the colour used, or -1 if it is an error
static int colour_arg(void){
	if (!vt_bool()) return col;
	fixp c = RAW32();
	push_num(c);
	c >>= 12;
	return c < 0 || c > 255 ? -1 : c;
}
static bool refused(int c){
	if (c >= 0){ CHECK(p->exec.error == ERR_NONE, "no error"); return 0; }
	CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a colour outside 0-255 is an error");
	SAME();
	return 1;
}
void h_gpset(void){
	init();
	fixp a = RAW32(), b = RAW32();
	int x = a >> 12, y = b >> 12;
	push_as(a, vt_bool()); push_as(b, 0);
	int c = colour_arg();
	cmd_gpset(p);
	if (x < 0 || x >= W || y < 0 || y >= H){ SAME(); CHECK(p->exec.error == ERR_NONE, "a place outside the screen is ignored"); REACH("outside"); }
	else if (refused(c)) REACH("bad colour");
	else if (pp == dp && x == px && y == py){ DRAWN(c); REACH("drawn"); }
	else { SAME(); REACH("other"); }
}
void h_gspoit(void){
	init();
	int n = vt_range(2, 3), page = dp;
	fixp a = RAW32(), b = RAW32(), c = RAW32();
	int x = a >> 12, y = b >> 12;
	if (n == 3){ push_num(c); page = c >> 12; }
	push_as(a, vt_bool()); push_as(b, 0);
	p->exec.argcount = n;
	func_gspoit(p);
	if (page < 0 || page > 3){ CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a page outside 0-3 is an error"); REACH("bad page"); return; }
	CHECK(p->exec.error == ERR_NONE && p->stack.stack_i == 1, "one value");
	fixp v = pop_num();
	if (x < 0 || x >= W || y < 0 || y >= H){ CHECK(v == -4096, "-1 outside the screen"); REACH("outside"); }
	else if (page == pp && x == px && y == py){ CHECK(v == INT_TO_FP(old), "the colour of the pixel"); REACH("probe"); }
	SAME();
}
void h_settings(void){
	init();
	int which = vt_range(0, 4);
	fixp v[3];
	int r[3], n = which == 0 ? 3 : 1, max[3] = {1, 3, 3}, bad = 0;
	int dpage[2], vpage[2], prio[2];
	for (int i = 0; i < 2; ++i){
		p->graphics.info[i].displaypage = vt_range(0, 3);
		p->graphics.info[i].prio = vt_range(0, 3);
		dpage[i] = p->graphics.info[i].drawpage; vpage[i] = p->graphics.info[i].displaypage; prio[i] = p->graphics.info[i].prio;
	}
	if (which == 1) max[0] = 1; else if (which == 2) max[0] = 255; else if (which == 3) max[0] = 1; else if (which == 4) max[0] = 3;
	for (int i = 0; i < 3; ++i) if (i < n){ v[i] = RAW32(); push_num(v[i]); r[i] = v[i] >> 12; bad |= r[i] < 0 || r[i] > max[i]; }
	if (which <= 1) cmd_gpage(p); else if (which == 2) cmd_gcolor(p); else if (which == 3) cmd_gdrawmd(p); else cmd_gprio(p);
	struct graphics* g = &p->graphics;
	for (int i = 0; i < 2; ++i) CHECK(g->info[i].drawpage <= 3 && g->info[i].displaypage <= 3 && g->info[i].prio <= 3, "page and priority settings stay in range");
	CHECK(g->screen <= 1 && g->color <= 255, "screen and colour stay in range");
	SAME();
	if (bad){ CHECK(p->exec.error == ERR_OUT_OF_RANGE, "values outside the range are an error"); REACH("bad"); return; }
	CHECK(p->exec.error == ERR_NONE, "values in range are accepted");
	if (which <= 1) screen = r[0];
	if (which == 0){ dpage[screen] = r[1]; vpage[screen] = r[2]; }
	if (which == 2) col = r[0];
	if (which == 3) mode = r[0];
	if (which == 4) prio[screen] = r[0];
	CHECK(g->screen == screen && g->color == col && g->drawmode == mode, "the setting is changed and no other");
	for (int i = 0; i < 2; ++i) CHECK(g->info[i].drawpage == dpage[i] && g->info[i].displaypage == vpage[i] && g->info[i].prio == prio[i], "page and priority settings of the selected screen");
	REACH("set");
}
// page of reduced size: the probe is given by its distance from the end of the page
#ifdef GCLS
void h_gcls(void){
	env_init();
	new_pages();
	p->graphics.screen = screen = vt_range(0, 1);
	p->graphics.info[screen].drawpage = dp = vt_range(0, 3);
	p->graphics.color = col = vt_u8();
	p->graphics.drawmode = vt_range(0, 1);
	int ix = GRP_SIZE - vt_range(1, 8); pp = vt_range(0, 3);
	page_of(pp)[ix] = old = vt_u8();
	int c = colour_arg();
	cmd_gcls(p);
	if (c < 0){ CHECK(p->exec.error == ERR_OUT_OF_RANGE && page_of(pp)[ix] == old, "a colour outside 0-255 is an error"); REACH("bad"); }
	else { CHECK(page_of(pp)[ix] == (pp == dp ? c : old), "every pixel of the draw page has the colour, other pages are kept"); REACH("cleared"); }
}
#endif
// a place is in the half of the screen its edge belongs to, or outside it on that side
static int coord(int b, int size){ fixp a = RAW32(); ASSUME(b ? a >= -(size << 11) && a < 2097152000 : a < size << 11); a += b << 12; push_num(a); return a >> 12; }
static int clampi(int v, int lo, int hi){ return v < lo ? lo : v > hi ? hi : v; }
#define SWAP_IF(a, b) if (a > b){ int t = a; a = b; b = t; }
#ifndef SX
#define SX 3
#endif
#ifndef SY
#define SY 3
#endif
void h_gfill(void){
	init();
	int x1 = coord(bx, W), y1 = coord(by, H), x2 = coord(bx, W), y2 = coord(by, H);
	int c = colour_arg();
	SWAP_IF(x1, x2) SWAP_IF(y1, y2)
	// size of the part on the screen
	ASSUME(clampi(x2, 0, W) - clampi(x1, 0, W) < SX && clampi(y2, 0, H) - clampi(y1, 0, H) < SY);
	cmd_gfill(p);
	if (refused(c)) REACH("bad colour");
	else if (pp == dp && px >= x1 && px <= x2 && py >= y1 && py <= y2){ DRAWN(c); REACH("inside"); }
	else { SAME(); REACH("outside"); }
}
// corners on the screen; every outline pixel in overwrite mode, every pixel off the outline in both modes
void h_gbox(void){
	init();
	int x1 = coord(bx, W), y1 = coord(by, H), x2 = coord(bx, W), y2 = coord(by, H);
	int c = colour_arg();
	SWAP_IF(x1, x2) SWAP_IF(y1, y2)
	ASSUME(clampi(x2, 0, W) - clampi(x1, 0, W) < SX && clampi(y2, 0, H) - clampi(y1, 0, H) < SY);
	bool on = x1 >= 0 && y1 >= 0 && x2 < W && y2 < H;
	cmd_gbox(p);
	bool in = px >= clampi(x1, 0, W) && px <= x2 && py >= clampi(y1, 0, H) && py <= y2;
	if (refused(c)) REACH("bad colour");
	else if (pp != dp || !in || (on && px > x1 && px < x2 && py > y1 && py < y2)){ SAME(); REACH("off"); }
	else if (on && !mode){ CHECK(now() == c, "every pixel of the outline gets the colour"); REACH("outline"); }
	else if (on && x1 < x2 && y1 < y2 && (px > x1 && px < x2 || py > y1 && py < y2)){ CHECK(now() == (old ^ c), "inverting: the sides without the corners are inverted once"); REACH("inverted"); }
}
// lines of up to SX pixels, anywhere: one pixel for every place in the longer direction, the one nearest to the straight line
static int iabs(int v){ return v < 0 ? -v : v; }
void h_gline(void){
	init();
	int x1 = coord(bx, W), y1 = coord(by, H), x2 = coord(bx, W), y2 = coord(by, H);
	int c = colour_arg();
	int dx = x2 - x1, dy = y2 - y1, n = iabs(dx) > iabs(dy) ? iabs(dx) : iabs(dy);
	ASSUME(n < SX);
	cmd_gline(p);
	if (refused(c)){ REACH("bad colour"); return; }
	if (pp != dp){ SAME(); return; }
	// u: along the longer direction, v: across; distances from the first end
	bool steep = iabs(dx) < iabs(dy);
	int du = steep ? dy : dx, dv = steep ? dx : dy;
	int u = steep ? py - y1 : px - x1, v = steep ? px - x1 : py - y1;
	if (du < 0){ du = -du; u = -u; }
	if (u < 0 || u > du){ SAME(); REACH("beyond"); return; }
	if (!du){ if (!v) { DRAWN(c); } else { SAME(); } REACH("dot"); return; }
	int off = 2 * (v * du - dv * u); // twice the distance from the line, times du
	if (off > -du && off < du){ DRAWN(c); REACH("drawn"); }
	else if (off < -du || off > du){ SAME(); REACH("beside"); }
	else { CHECK(now() == old || now() == (mode ? old ^ c : c), "exactly between two pixels either may be drawn"); }
}
// copies of up to SX by SY pixels, anywhere, also overlapping
void h_gcopy(void){
	init();
	int n = vt_range(7, 8), sp = dp;
#ifdef ONE_PAGE
	ASSUME(n == 7);
	n = 7;
#endif
	if (n == 8){ fixp a = RAW32(); push_num(a); sp = a >> 12; }
	int x1 = coord(bx, W), y1 = coord(by, H), x2 = coord(bx, W), y2 = coord(by, H), x3 = coord(bx, W), y3 = coord(by, H);
	fixp m = RAW32();
	push_num(m);
	SWAP_IF(x1, x2) SWAP_IF(y1, y2)
	ASSUME(x2 - x1 < SX && y2 - y1 < SY);
	// the pixel copied to the probe
	int sx = px - x3 + x1, sy = py - y3 + y1, c = 0;
	bool in = sx >= x1 && sx <= x2 && sy >= y1 && sy <= y2, on = sx >= 0 && sx < W && sy >= 0 && sy < H;
	if (in && on && sp >= 0 && sp <= 3 && !(sp == pp && sx == px && sy == py)) *at(sp, sx, sy) = c = vt_u8();
	else if (in && on && sp == pp) c = old;
	cmd_gcopy(p);
	if (sp < 0 || sp > 3){ CHECK(p->exec.error == ERR_OUT_OF_RANGE, "a page outside 0-3 is an error"); SAME(); REACH("bad page"); return; }
	CHECK(p->exec.error == ERR_NONE, "no error");
	if (pp == dp && in && (c || m >> 12)){ CHECK(now() == c, "a pixel of the copy has the colour its source had before, 0 outside the screen"); REACH("copied"); }
	else { SAME(); REACH("kept"); }
}
// character CHR of a resource in palette PAL, SIZE times as large
#ifdef GPUTCHR
#define UNIT (CHR_WIDTH * CHR_HEIGHT / 2)
static u8 chr_bank[8192];
static u16 cols[6][256];
static u8 resname[] = "S\5" RES;
void h_gputchr(void){
	init();
	p->res.col[0] = cols[0]; p->res.col[1] = cols[1]; p->res.col[2] = cols[2]; p->res.col[3] = cols[3]; p->res.col[4] = cols[4]; p->res.col[5] = cols[5];
	int bank = RES[3] - '0' + (RES[0] == 'B' ? (RES[2] == 'F' ? 0 : RES[2] == 'D' ? 4 : 8) : RES[2] == 'S' ? 20 : RES[2] == 'K' ? 16 : 12);
	if (RES[2] == 'U' && RES[0] == 'S') ; // the same for both screens
	else if (RES[4] == 'L' || RES[0] == 'S' && RES[2] != 'S') bank += CHR_BANKS;
	p->res.chr[bank] = chr_bank;
	int x = coord(bx, W), y = coord(by, H);
	push_str(resname);
	fixp a = RAW32(), b = RAW32();
	int chr = a >> 12, pal = b >> 12;
	push_num(a); push_num(b); push_num(INT_TO_FP(SIZE));
	// pixel of the character that covers the probe
	int kx = (px - x) / SIZE, ky = (py - y) / SIZE, v = 0;
	bool in = px >= x && py >= y && kx < CHR_WIDTH && ky < CHR_HEIGHT && chr >= 0 && chr <= 255;
	if (in){
		u8 two = vt_u8();
		chr_bank[chr * UNIT + ky * 4 + kx / 2] = two;
		v = kx % 2 ? two >> 4 : two & 15;
	}
	cmd_gputchr(p);
	if (chr < 0 || chr > 255 || pal < 0 || pal > 15){ CHECK(p->exec.error == ERR_OUT_OF_RANGE, "character and palette numbers out of range are an error"); SAME(); REACH("range"); return; }
	CHECK(p->exec.error == ERR_NONE, "no error");
	if (pp == dp && in && v){ DRAWN(pal * 16 + v); REACH("drawn"); }
	else { SAME(); REACH("kept"); }
}
#endif
// GPAINT of a region of RW by RH pixels in a corner of the page, closed by pixels that stop the filling
#ifdef GPAINT
static u8 cell[RH][RW];
static bool fill[RH][RW];
void h_gpaint(void){
	init();
	int ox = RIGHT ? W - RW : 0, oy = RIGHT ? H - RH : 0, dx = RIGHT ? -1 : RW, dy = RIGHT ? -1 : RH;
	ASSUME(bx == (RIGHT ? W : 0) && by == (RIGHT ? H : 0));
	int sx = vt_range(0, RW - 1), sy = vt_range(0, RH - 1);
	bool border = vt_bool();
	for (int y = 0; y < RH; ++y) for (int x = 0; x < RW; ++x) *at(1, ox + x, oy + y) = cell[y][x] = vt_u8();
	ASSUME(px >= ox && px < ox + RW && py >= oy && py < oy + RH);
	old = cell[py - oy][px - ox];
	u8 stop = vt_u8(), from = cell[sy][sx];
	for (int x = 0; x < RW; ++x) *at(1, ox + x, oy + dy) = stop;
	for (int y = 0; y < RH; ++y) *at(1, ox + dx, oy + y) = stop;
	fixp fx = INT_TO_FP(ox + sx) + vt_range(0, 4095), fy = INT_TO_FP(oy + sy) + vt_range(0, 4095);
	push_num(fx); push_num(fy);
	int c;
	if (border || vt_bool()){ fixp v = RAW32(); push_num(v); c = v >> 12; if (c < 0 || c > 255) c = -1; } else c = col;
	if (border) push_num(INT_TO_FP(stop) + vt_range(0, 4095)); else ASSUME(stop != from);
	// reachable from the start through pixels that may be filled
	for (int y = 0; y < RH; ++y) for (int x = 0; x < RW; ++x) fill[y][x] = x == sx && y == sy && cell[y][x] != c && (!border || cell[y][x] != stop);
	for (int n = 0; n < RW * RH; ++n)
		for (int y = 0; y < RH; ++y) for (int x = 0; x < RW; ++x) if (cell[y][x] != c && (border ? cell[y][x] != stop : cell[y][x] == from))
			fill[y][x] |= x && fill[y][x - 1] || x < RW - 1 && fill[y][x + 1] || y && fill[y - 1][x] || y < RH - 1 && fill[y + 1][x];
	cmd_gpaint(p);
	if (refused(c)) REACH("bad colour");
	else {
		CHECK(now() == (fill[py - oy][px - ox] ? c : old), "the pixels connected to the start get the colour, all others are kept");
		CHECK(p->exec.error == ERR_NONE, "no error");
		REACH("painted");
	}
}
#endif
