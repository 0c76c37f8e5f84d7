// C14: the listing shows the bytes actually emitted, at their address
#include "h.h"
typedef struct { int no; u32 addr; int ts, tn, is, in; const B *f; } L;   // source line: number, address, text, bytes in the image
static L l[80]; static int nl; static B src, inc, post; static u32 pc; static B img; static int ez, line, on;
static B *cur;
static void w(u32 v, int n) { while (n--) { b_c(&img, v & 255); v >>= 8; pc++; } }
static int lstart; static int istart; static u32 astart;
static void beg(void) { lstart = cur->n; istart = img.n; astart = pc; }
static void cut(void) {   // the listing of this line is interrupted here and taken up again
	L *p = l + nl++; p->no = line; p->addr = astart; p->tn = -1; p->is = istart; p->in = img.n - istart; p->f = cur; istart = img.n; astart = pc;
}
static void end0(int list, const char *eol) {    // the current line of cur ends here
	for (int i = 0; i < nl; i++) if (l[i].tn < 0 && l[i].f == cur) { l[i].ts = lstart; l[i].tn = cur->n - lstart; }
	if (list) { L *p = l + nl++; p->no = line; p->addr = astart; p->ts = lstart; p->tn = cur->n - lstart; p->is = istart; p->in = img.n - istart; p->f = cur; }
	b_s(cur, eol); line++; beg();
}
static void end(void) { end0(on, "\n"); }
static const char *fw(int i) { return vp_name("F", i); }
static u32 fdef(int i, int dig) { b_s(&post, fw(i)); b_s(&post, " = "); u32 v = b_h(&post, vp_name("f", i), dig); b_c(&post, '\n'); return v; }
enum { KNOP, KDB, KFWD, KINS, KFILL, KMAC, KIF, KNONE, KSTR, KINC, KORG, KDEF, KJR, KNOLIST, KIMP, KRUN, KMDEF, KCOMM, KBUF, KMANY, KRUN2, KINC2, KNOL2, KLIST2, KRMAC, K };
static void stmt(int k, int i, int par) {
	const char *nm = vp_name("s", i); u32 v; int W = ez ? 3 : 2;
	switch (k) {
	case KNOP: b_s(cur, vp_name("lab", i)); b_s(cur, par & 1 ? ": nop" : "\tld a,b ; text "); w(par & 1 ? 0 : 0x78, 1); end(); break;
	case KDB: b_s(cur, " .db "); for (int j = 0; j < 1 + par % 9; j++) { if (j) b_c(cur, ','); w(b_h(cur, vp_name(nm, j), 2), 1); } end(); break;
	case KFWD: b_s(cur, " .db "); for (int j = 0; j < par % 5; j++) { b_s(cur, "9,"); w(9, 1); } b_s(cur, fw(i)); b_c(cur, ','); b_s(cur, fw(i)); b_s(cur, "-1\\ .dw "); b_s(cur, fw(i)); b_s(cur, "\\ .dl 5,"); b_s(cur, fw(i)); b_s(cur, ",7"); v = fdef(i, 2); w(v, 1); w(v - 1, 1); w(v, 2); w(5, 3); w(v, 3); w(7, 3); end(); break;
	case KINS: b_s(cur, " ld hl,"); b_s(cur, fw(i)); b_s(cur, par & 1 ? "\\ ld (ix+5)," : " \\  ld (ix+5),"); b_s(cur, fw(i)); b_s(cur, "\\ ret"); v = fdef(i, 2); w(0x21, 1); w(v, W); w(0x0536DD, 3); w(v, 1); w(0xC9, 1); end(); break;
	case KFILL: { int n = par % 10; b_s(cur, " .fill "); b_u(cur, n); b_c(cur, ','); v = b_h(cur, nm, 2); while (n--) w(v, 1); end(); break; }
	case KMAC: b_s(cur, " m("); if (par & 1) { b_s(cur, fw(i)); v = fdef(i, 2); } else v = b_h(cur, nm, 2); b_s(cur, ")"); w(v, 1); w(v, 2); w(0xC9, 1); w(v + 1, 2); end(); break;
	case KIF: b_s(cur, "#if "); v = b_h(cur, nm, 1); int t = vp_concrete(v != 0); end(); b_s(cur, " .db 1"); if (t) w(1, 1); end(); b_s(cur, "#else ;"); end(); b_s(cur, " .dw 2"); if (!t) w(2, 2); end(); end(); b_s(cur, "#endif"); end(); break;
	case KNONE: if (par & 1) b_s(cur, "; \"it's\\ a comment"); end(); b_s(cur, "   "); end0(on, "\r\n"); break;
	case KSTR: b_s(cur, " .db \"a;"); b_c(cur, v = vp_pick(nm, "0123 xyz")); b_s(cur, "c\",0"); w('a', 1); w(';', 1); w(v, 1); w('c', 1); w(0, 1); end0(on, "\r\n"); break;
	case KINC: { b_s(cur, "#include \"b.inc\""); end(); B *o = cur; int ol = line; cur = &inc; line = 1; beg();
		b_s(cur, "in1 .db "); w(b_h(cur, nm, 2), 1); end(); b_s(cur, " .dw "); b_s(cur, fw(i)); w(fdef(i, 2), 2); end0(on, par & 1 ? "\n" : ""); cur = o; line = ol; beg(); break; }
	case KORG: b_s(cur, " .org "); v = b_h(cur, nm, ez ? 6 : 4); vp_assume(v < 0xFF00); pc = v; end(); b_s(cur, " .db 1"); w(1, 1); end(); break;
	case KDEF: b_s(cur, "#define d"); b_u(cur, i); b_s(cur, " 3"); end(); b_s(cur, vp_name("e", i)); b_s(cur, " = "); b_h(cur, nm, 2); end(); break;
	case KJR: b_s(cur, " jr z,j"); b_u(cur, i); w(0x28, 1); w(1, 1); end(); b_s(cur, " djnz $"); w(0x10, 1); w(254, 1); l[nl - 1].in = 2; img.b[img.n - 3] = 2; end(); b_s(cur, "j"); b_u(cur, i); b_s(cur, ":"); end(); break;
	case KNOLIST: { b_s(cur, " .nolist"); int o = on; on = 0; end(); b_s(cur, " .dw "); b_s(cur, fw(i)); v = fdef(i, 2); w(v, 2); end(); if (par & 1) { b_s(cur, " .nolist"); end(); } b_s(cur, " .list"); end(); on = o; break; }
	case KIMP: b_s(cur, "#import \"b.dat\""); for (int j = 0; j < 6; j++) w(0x50 + j, 1); end(); break;
	case KRUN: b_s(cur, " clr()\\ wr(\" .db 7\")\\ wr(\" ret\")\\ run()"); end(); { B *o = cur; int ol = line; static B t; t = mk(); cur = &t; line = 1; beg(); b_s(cur, " .db 7"); w(7, 1); end(); b_s(cur, " ret"); w(0xC9, 1); end(); cur = o; line = ol; beg(); } break;
	case KMDEF: b_s(cur, "#macro mm"); b_u(cur, i); b_s(cur, "(q)"); end(); b_s(cur, " .db q"); end(); b_s(cur, "#endmacro"); end(); b_s(cur, " mm"); b_u(cur, i); b_s(cur, "("); w(b_h(cur, nm, 2), 1); b_s(cur, ")"); end(); break;
	case KMANY: b_s(cur, "l"); b_u(cur, i); b_s(cur, ": m("); if (par & 1) { b_s(cur, fw(i)); v = fdef(i, 2); } else v = b_h(cur, nm, 2); b_s(cur, ")\\ m(3)\\ .dw "); b_s(cur, vp_name("l", i)); { u32 a = pc; w(v, 1); w(v, 2); w(0xC9, 1); w(v + 1, 2); w(3, 1); w(3, 2); w(0xC9, 1); w(4, 2); w(a, 2); } end(); break;
	case KRUN2: case KRMAC: b_s(cur, " clr()\\ wr(\" .db 7\")\\ .db "); w(b_h(cur, nm, 2), 1); b_s(cur, k == KRUN2 ? "\\ run()\\ .dw " : "\\ rm()\\ .dw "); b_s(cur, fw(i)); cut(); { static B t; B *o = cur; int ol = line, ls = lstart; t = mk(); cur = &t; line = 1; beg(); b_s(cur, " .db 7"); w(7, 1); end(); cur = o; line = ol; beg(); lstart = ls; } if (k == KRMAC) w(0xC9, 1); w(fdef(i, 3), 2); end(); break;
	case KINC2: { b_s(cur, "#include \"c.inc\"\\ .db 5,"); b_s(cur, fw(i)); cut(); B *o = cur; int ol = line, ls = lstart; static B t; t = mk(); b_s(&t, " .db 1,2,3,4,5,6"); cur = &t; line = 1; beg(); for (int j = 0; j < 6; j++) w(j + 1, 1); t.n = 0; b_s(&t, " .db 1,2,3,4,5,6"); lstart = 0; end(); cur = o; line = ol; beg(); lstart = ls; w(5, 1); w(fdef(i, 2), 1); end(); break; }
	case KNOL2: b_s(cur, " .dw "); b_s(cur, fw(i)); b_s(cur, "\\ .nolist\\ .db 4"); v = fdef(i, 3); w(v, 2); if (on) { cut(); l[nl - 1].tn = -1; } w(4, 1); end0(0, "\n"); b_s(cur, " .db 1"); w(1, 1); end0(0, "\n"); b_s(cur, " .list"); end0(0, "\n"); break;
	case KLIST2: b_s(cur, " .nolist"); end0(0, "\n"); b_s(cur, " .db 1\\ .list\\ .db 2,3,4,5,"); w(1, 1); istart = img.n; astart = pc; for (int j = 2; j < 6; j++) w(j, 1); b_s(cur, fw(i)); w(fdef(i, 2), 1); end(); break;
	case KCOMM: b_s(cur, "#comment"); end(); b_s(cur, " .db 1"); end(); b_s(cur, "#endcomment"); end(); break;
	case KBUF: b_s(cur, " .db \""); for (int j = 0; j < 16; j++) { b_c(cur, 'a' + j); w('a' + j, 1); } b_s(cur, "\" ; "); for (int j = 0; j < 200; j++) b_c(cur, '.'); end(); break;
	}
}
static int eqs(const u8 *p, const char *s, int n) { for (int i = 0; i < n; i++) if (p[i] != (u8) s[i]) return 0; return 1; }
static void hexeq(const u8 *p, u32 v, int d, const char *msg) { u8 t[8]; for (int i = 0; i < d; i++) t[i] = vp_HEX[(v >> 4 * (d - 1 - i)) & 15]; vp_assert_eq(p, t, d, msg); }
static void check(const u8 *o, int n) {
	int e = -1, got = 0, text = 0; const u8 *p = o, *end = o + n;
	while (p < end) {
		const u8 *q = p; while (q < end && *q != '\n') q++;
		int k = q - p; const u8 *nx = q + 1; if (k && p[k - 1] == '\r') k--;
		if (k >= 11 && eqs(p, "Listing for", 11)) { p = nx; continue; }
		vp_assert(k >= 26, "a listing line has its columns"); if (k < 26) return;
		int cont = p[4] == ' ';
		if (!cont && e >= 0 && got < l[e].in && text) {   // a line taken up again
			u32 x = l[e].addr + got; vp_assert(p[4] == '0' + l[e].no % 10 && p[5] == ' ', "a line is taken up again under its number");
			hexeq(p + 6, x >> 16, 2, "the address of a line"); hexeq(p + 9, x, 4, "the address of a line"); text = 0;
		} else		if (!cont) {
			if (e >= 0) vp_assert(got == l[e].in && text, "every byte of a line is listed before the next line");
			e++; got = 0; text = 0;
			vp_assert(e < nl, "no line is listed twice"); if (e >= nl) return;
			u8 t[5] = { ' ', ' ', ' ', ' ', ' ' }; int x = l[e].no; for (int i = 4; x; i--) { t[i] = '0' + x % 10; x /= 10; }
			vp_assert(eqs(p, (char *) t, 5) && p[5] == ' ' && p[8] == ':' && p[13] == ' ', "every line is listed with its number, in order");
			hexeq(p + 6, l[e].addr >> 16, 2, "the address of a line"); hexeq(p + 9, l[e].addr, 4, "the address of a line");
		} else vp_assert(e >= 0 && eqs(p, "              ", 14), "continuation line");
		for (int i = 0; i < 4; i++) {
			if (got < l[e].in && p[14 + 3 * i] != '-') { hexeq(p + 14 + 3 * i, img.b[l[e].is + got], 2, "the listing shows the bytes emitted"); got++; }
			else vp_assert(p[14 + 3 * i] == '-' || p[14 + 3 * i] == ' ', "no byte is listed that was not emitted");
		}
		if (k > 26 || got == l[e].in) {
			vp_assert(!text, "the text of a line is listed once");
			text = 1; vp_assert(k - 26 == l[e].tn, "the text of a line"); if (k - 26 == l[e].tn) vp_assert_eq(p + 26, l[e].f->b + l[e].ts, l[e].tn, "the text of a line");
		}
		p = nx;
	}
	vp_assert(e == nl - 1 && got == l[e].in, "every line is listed");
	vp_reach("listing");
}
void harness(void) {
	src = mk(); inc = mk(); post = mk(); img = mk(); nl = 0; pc = 0; line = 1; on = 1; cur = &src;
	int T = vp_tier(), k[3], n = 2, par; ez = vp_choose(2);
	for (int i = 0; i < n; i++) k[i] = vp_choose(K);
	if (T) par = vp_choose(10); else par = (k[0] * 5 + k[1] * 3 + 7 * ez + vp_choose(2) * 5) % 10;
	for (int i = 0; i < n; i++) vp_assume(k[i] != KINC || i == 0 || k[0] != KINC);
	vp_go(); vp_label("listing");
	beg(); b_s(cur, "#macro m(p)"); end(); b_s(cur, " .db p\\ .dw p"); end(); b_s(cur, " ret"); end(); b_s(cur, " .dw p+1"); end(); b_s(cur, "#endmacro"); end(); b_s(cur, "#macro rm()"); end(); b_s(cur, " run()"); end(); b_s(cur, " ret"); end(); b_s(cur, "#endmacro"); end();
	for (int i = 0; i < n; i++) stmt(k[i], i, par + i);
	b_s(cur, " .db $EE"); w(0xEE, 1); end();
	// definitions of the forward symbols
	B p0 = post; int at = 0; while (at < p0.n) { int q = at; while (p0.b[q] != '\n') q++; b_mem(cur, p0.b + at, q - at); end(); at = q + 1; }
	int tail = par % 3; if (tail == 1) { b_s(cur, "last:\tret"); w(0xC9, 1); end0(1, ""); } else if (tail == 2) { b_s(cur, " .dw 1,2,3"); w(1, 2); w(2, 2); w(3, 2); end0(1, ""); }
	vp_file("b.inc", inc.b, inc.n); vp_file("b.dat", "PQRSTU", 6); vp_file("c.inc", " .db 1,2,3,4,5,6", 16);
	int r0 = asm3(&src, ez ? "-E" : "-N", 0, 0); u8 *o; int n0 = vp_out("a.bin", &o);
	vp_assert(r0 == 0, "a valid program assembles with exit status 0"); same(&img, "output");
	int r = asm3(&src, ez ? "-E" : "-N", "-T", 0);
	vp_assert(r == 0, "asking for a listing does not change the exit status");
	same(&img, "asking for a listing does not change the output");
	int nn = vp_out("a.lst", &o);
	vp_assert(nn >= 0, "the listing is written"); if (nn >= 0) check(o, nn);
}
