// C31: length and number never change what a program means
#include "h.h"
static const int lens[] = {16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 235, 245, 250, 251, 252, 253, 254, 255, 256, 257, 260, 511, 512, 513, 1023, 1025, 2049};
static const int nums[] = {1, 2, 3, 7, 15, 16, 17, 31, 33, 64, 65, 100, 128, 129, 255, 256, 257, 400};
enum { NL = sizeof lens / sizeof *lens, NN = sizeof nums / sizeof *nums };
static int says(const char *s) { u8 *q; int m = vp_stdout(&q); return vp_count(q, m, s) > 0; }
// what is printed between the passes and the time, with -N (no colours)
static int prints(B *e) { B w = mk(); b_s(&w, "Pass one... \nPass two... \n"); b_mem(&w, e->b, e->n); b_s(&w, "Assembly time"); u8 *p; int n = vp_stdout(&p); vp_assert(n > w.n, "everything is printed"); if (n > w.n) vp_assert_eq(p, w.b, w.n, "everything is printed"); vp_reach("everything is printed"); return 1; }
// every line no longer than the limit on text that is taken as one expression
static int fits(B *b) { int k = 0; for (int i = 0; i < b->n; i++) if (b->b[i] == '\n') k = 0; else if (++k > 255) return 0; return 1; }
// the exact image, or (only where a line exceeds the limit) the error for it
static void exact(B *b, B *e, const char *opt, int always, const char *msg) {
	int f = always == 1 || (always && fits(b)), r = asm3(b, opt, 0, 0);
	if (!f && r >= 2) { vp_assert(says("too long") || says("Too many arguments"), "text beyond the limit is diagnosed as such"); vp_reach("text beyond the limit"); return; }
	vp_assert(r == 0, "a valid program assembles with exit status 0"); same(e, msg); vp_reach(msg);
}
static void name(B *b, int n, int pos, u8 c) { for (int i = 0; i < n; i++) b_c(b, i == pos ? c : "abcdefghijklmnopqrstuvwxyz_0123456789"[i % (i ? 37 : 26)]); }
enum { LAB, FWD, SET, EQU, DEF, FUN, MAC, PAR, MPAR, IFD, UND, INS, LOCAL, NKN };
static void names(B *b, B *e, int k, int n, int pos, u8 c, u8 d) {
	u32 v, w; B x = mk(), y = mk(); name(&x, n, pos, c); name(&y, n, pos, d);
#define X b_mem(b, x.b, x.n)
#define Y b_mem(b, y.b, y.n)
	switch (k) {
	case LAB: b_s(b, " .org "); v = b_h(b, "v", 4); b_c(b, '\n'); X; b_s(b, ":\n .org "); w = b_h(b, "w", 4); b_c(b, '\n'); Y; b_s(b, ": .dw "); X; b_s(b, "\n .dw "); Y; b_c(b, '\n'); e_w(e, v); e_w(e, w); break;
	case FWD: b_s(b, " .dw "); X; b_s(b, "\n ld hl,"); Y; b_c(b, '\n'); Y; b_s(b, " = "); w = b_h(b, "w", 4); b_c(b, '\n'); X; b_s(b, " = "); v = b_h(b, "v", 4); b_c(b, '\n'); e_w(e, v); b_c(e, 0x21); e_w(e, w); break;
	case SET: X; b_s(b, " = "); v = b_h(b, "v", 4); b_c(b, '\n'); Y; b_s(b, " = "); w = b_h(b, "w", 4); b_s(b, "\n .dw "); X; b_s(b, "\n .dw "); Y; b_c(b, '\n'); e_w(e, v); e_w(e, w); break;
	case EQU: X; b_s(b, " .equ "); v = b_h(b, "v", 4); b_c(b, '\n'); Y; b_s(b, ": .equ "); w = b_h(b, "w", 4); b_s(b, "\n ld bc,"); X; b_s(b, "\n .dw "); Y; b_c(b, '\n'); b_c(e, 1); e_w(e, v); e_w(e, w); break;
	case DEF: b_s(b, "#define "); X; b_c(b, ' '); v = b_h(b, "v", 4); b_s(b, "\n#define "); Y; b_c(b, ' '); w = b_h(b, "w", 4); b_s(b, "\n .dw "); X; b_s(b, "\n .dw "); Y; b_c(b, '\n'); e_w(e, v); e_w(e, w); break;
	case FUN: b_s(b, "#define "); X; b_s(b, "(p) p+"); v = b_h(b, "v", 4); b_s(b, "\n#define "); Y; b_s(b, "(p) p-"); w = b_h(b, "w", 4); b_s(b, "\n .dw "); X; b_s(b, "(3)\n .dw "); Y; b_s(b, "(4)\n"); e_w(e, v + 3); e_w(e, 4 - w); break;
	case MAC: b_s(b, "#macro "); X; b_s(b, "()\n .dw "); v = b_h(b, "v", 4); b_s(b, "\n#endmacro\n#macro "); Y; b_s(b, "(p)\n .dw p,"); w = b_h(b, "w", 4); b_s(b, "\n#endmacro\n "); X; b_s(b, "()\n "); Y; b_s(b, "(9)\n"); e_w(e, v); e_w(e, 9); e_w(e, w); break;
	case PAR: b_s(b, "#define F("); X; b_c(b, ','); Y; b_s(b, ") "); X; b_c(b, '-'); Y; b_s(b, "\n .dw F("); v = b_h(b, "v", 4); b_c(b, ','); w = b_h(b, "w", 4); b_s(b, ")\n"); e_w(e, v - w); break;
	case MPAR: b_s(b, "#macro M("); X; b_c(b, ','); Y; b_s(b, ")\n .dw "); X; b_s(b, "\n .dw "); Y; b_s(b, "\n#endmacro\n M("); v = b_h(b, "v", 4); b_c(b, ','); w = b_h(b, "w", 4); b_s(b, ")\n"); e_w(e, v); e_w(e, w); break;
	case IFD: b_s(b, "#define "); X; b_s(b, "\n#ifdef "); Y; b_s(b, "\n .db 1\n#else\n .db 2\n#endif\n#ifndef "); X; b_s(b, "\n .db 3\n#else\n .dw "); v = b_h(b, "v", 4); b_s(b, "\n#endif\n"); b_c(e, 2); e_w(e, v); break;
	case UND: b_s(b, "#define "); X; b_c(b, ' '); v = b_h(b, "v", 4); b_s(b, "\n#define "); Y; b_s(b, " 5\n#undef "); Y; b_s(b, "\n#ifdef "); Y; b_s(b, "\n .db 1\n#else\n .dw "); X; b_s(b, "\n#endif\n"); e_w(e, v); break;
	case INS: b_s(b, ".addinstr "); X; b_s(b, " * 77 2 NOP 1\n.addinstr "); Y; b_s(b, " \"\" 66 1 NOP 1\n "); X; b_c(b, ' '); v = b_h(b, "v", 2); b_s(b, "\n "); Y; b_c(b, '\n'); b_c(e, 0x77); b_c(e, v); b_c(e, 0x66); break;
	case LOCAL: b_s(b, "#define F("); X; b_s(b, ") G("); X; b_s(b, ")+"); X; b_s(b, "\n#define G("); Y; b_s(b, ") 2*"); Y; b_s(b, "\n .dw F("); v = b_h(b, "v", 4); b_s(b, ")\n"); e_w(e, 3 * v); break;
	}
}
static const char quotable[] = "a;,(";
static u8 letter(int i) { return "The quick (brown) fox; jumps, over $12 the \\\\ lazy 'dog' #1."[i % 61]; }
// a text of n characters with symbolic ones near its ends and middle; in t its characters
static void text(B *b, B *t, int n) { for (int i = 0; i < n; i++) { u8 c = i == 0 || i == n / 2 || i == n - 1 ? vp_pick(vp_name("c", (i > 0) + (i > n / 2) + (i == n - 1)), quotable) : "Thequick,brown(fox)jumps;over#the'lazy$dog."[i % 43]; b_c(b, c); b_c(t, c); } }
enum { SDB, SMAC, SDEF, SWR, SECHO, SECHOF, SFILE, SERR, SLIST, NKS };
enum { EDW, EDWF, ELD, ELDF, EFILL, EORG, EEQ, EEQU, EIF, EELIF, EDEF, EARG, EMARG, EEVAL, EJR, EBIT, EECHO, ECONT, EIX, NKE };
static void sum(B *b, int n) { for (int i = 0; i < n; i += 2) b_s(b, i / 2 % 2 ? "+1" : "+0"); }
static u32 sumv(int n) { u32 v = 0; for (int i = 0; i < n; i += 2) v += i / 2 % 2; return v; }
enum { COMM, COMC, MANYDB, MANYF, SPACE, STMTS, BLANK, IFDN, LONGCONT, MANYDW, LISTD, NKL };
enum { CLAB, CFWD, CDEF, CFUN, CMAC, CEQU, CANON, CINC, CCOND, CECHO, CINS, CFILL, CIMP, CPARF, CPARM, CWARN, CERR, CUND, CREDEF, CDEPF, CJR, CARGS, NKC };
static u32 sel(B *b, int i, int n) { u32 v; if (i == n / 2) v = b_h(b, "m", 2); else if (i == n - 1) v = b_h(b, "l", 2); else if (!i) v = b_h(b, "f", 2); else { b_u(b, i % 251); v = i % 251; } return v; }
#define N(s, i) (b_s(&b, s), b_u(&b, i))
void harness(void) {
	B b = mk(), e = mk(); int g = vp_choose(5), T = vp_tier();
	if (g == 0) {
		int k = vp_choose(NKN), l = vp_choose(NL), p = vp_choose(3), n = lens[l]; if (!T && (k + l + p) % 3) return; vp_go(); vp_label("long names"); int pos = p == 0 ? n - 1 : p == 1 ? n / 2 : 0;
		u8 c = vp_pick("c", "xyz"), d = vp_pick("d", "xyz"); vp_assume(c != d); names(&b, &e, k, n, pos, c, d); exact(&b, &e, "-N", 2, "names differ wherever they differ");
	} else if (g == 1) {
		int k = vp_choose(NKS), l = vp_choose(NL), n = lens[l]; vp_go(); vp_label("long texts"); B t = mk(), s = mk(); text(&t, &s, n); u32 v; u8 *o; int m;
		switch (k) {
		case SDB: b_s(&b, " .db \""); b_mem(&b, t.b, t.n); b_s(&b, "\","); v = b_h(&b, "v", 2); b_c(&b, '\n'); b_mem(&e, s.b, n); b_c(&e, v); break;
		case SMAC: b_s(&b, "#macro M(p,q)\n .db q,p\n#endmacro\n M(\""); b_mem(&b, t.b, t.n); b_s(&b, "\","); v = b_h(&b, "v", 2); b_s(&b, ")\n"); b_c(&e, v); b_mem(&e, s.b, n); break;
		case SDEF: b_s(&b, "#define D \""); b_mem(&b, t.b, t.n); b_s(&b, "\"\n .db D,"); v = b_h(&b, "v", 2); b_s(&b, ",D\n"); b_mem(&e, s.b, n); b_c(&e, v); b_mem(&e, s.b, n); break;
		case SWR: b_s(&b, " clr()\n wr(\" .db \\\""); b_mem(&b, t.b, t.n); b_s(&b, "\\\"\")\n wr(\" .db "); v = b_h(&b, "v", 2); b_s(&b, "\")\n run()\n"); b_mem(&e, s.b, n); b_c(&e, v); break;
		case SLIST: b_s(&b, "#define D 7,\""); b_mem(&b, t.b, t.n); b_s(&b, "\"\n .db D,"); v = b_h(&b, "v", 2); b_s(&b, "\n"); b_c(&e, 7); b_mem(&e, s.b, n); b_c(&e, v); break;
		case SFILE: { B f = mk(); b_mem(&f, t.b, t.n); vp_file("i.bin", f.b, f.n); b_s(&b, "#import \"i.bin\"\n .db "); v = b_h(&b, "v", 2); b_c(&b, '\n'); b_mem(&e, s.b, n); b_c(&e, v); break; }
		default: {
			if (k == SERR) b_s(&b, " .error \""); else b_s(&b, " .echo \""); b_mem(&b, t.b, t.n); b_c(&b, '"'); b_mem(&e, s.b, n);
			if (k == SECHO) { b_s(&b, ",5"); b_s(&e, "5\n"); } if (k == SECHOF) { b_s(&b, ",X\nX = 7"); b_s(&e, "7\n"); } b_c(&b, '\n');
			int f = fits(&b), r = asm3(&b, "-N", 0, 0); if (!f && r >= 2 && says("too long")) { vp_reach("text beyond the limit"); return; }
			if (k != SERR) { vp_assert(r == 0, "a valid program assembles with exit status 0"); prints(&e); return; }
			vp_assert(r >= 2, "an .error is an error"); m = vp_stdout(&o); B w = mk(); b_s(&w, "Pass one... \na.asm:1: error SE600: "); b_mem(&w, e.b, e.n);
			vp_assert(m > w.n, "the whole text is printed"); if (m > w.n) vp_assert_eq(o, w.b, w.n, "the whole text is printed"); vp_reach("the whole text is printed"); return; }
		}
		exact(&b, &e, "-N", 2, "every character of a text is emitted");
	} else if (g == 2) {
		int k = vp_choose(NKE), l = vp_choose(NL), n = lens[l]; vp_go(); vp_label("long expressions"); B s = mk(); sum(&s, n); u32 q = sumv(n), v;
#define V (v = b_h(&b, "v", 3))
#define S b_mem(&b, s.b, s.n)
		switch (k) {
		case EDW: b_s(&b, " .dw "); V; S; b_s(&b, "*2\n"); e_w(&e, (v + q) * 2); break;
		case EDWF: b_s(&b, " .dw X"); S; b_s(&b, "*2\nX = "); V; b_c(&b, '\n'); e_w(&e, (v + q) * 2); break;
		case ELD: b_s(&b, " ld hl,"); V; S; b_s(&b, "*3\n"); b_c(&e, 0x21); e_w(&e, (v + q) * 3); break;
		case ELDF: b_s(&b, " ld de,"); S; b_s(&b, "+X\nX = "); V; b_c(&b, '\n'); b_c(&e, 0x11); e_w(&e, v + q); break;
		case EFILL: b_s(&b, " .fill 3"); S; b_s(&b, "-"); b_u(&b, q); b_s(&b, ",5\n .dw "); V; b_c(&b, '\n'); for (int i = 0; i < 3; i++) b_c(&e, 5); e_w(&e, v); break;
		case EORG: b_s(&b, " .org "); V; S; b_s(&b, "*2\nX: .dw X\n"); e_w(&e, (v + q) * 2); break;
		case EEQ: b_s(&b, "X = "); V; S; b_s(&b, "*2\n .dw X\n"); e_w(&e, (v + q) * 2); break;
		case EEQU: b_s(&b, "X .equ "); V; S; b_s(&b, "*2\n .dw X\n"); e_w(&e, (v + q) * 2); break;
		case EIF: b_s(&b, "#if "); V; S; b_s(&b, "= "); b_u(&b, q + 0x123); b_s(&b, "\n .db 1\n#else\n .db 2\n#endif\n"); b_c(&e, 2 - (v == 0x123)); break;
		case EELIF: b_s(&b, "#if 0\n .db 3\n#elif "); V; S; b_s(&b, "> "); b_u(&b, q + 0x723); b_s(&b, "\n .db 1\n#else\n .db 2\n#endif\n"); b_c(&e, 2 - (v > 0x723)); break;
		case EDEF: b_s(&b, "#define D "); V; S; b_s(&b, "*2\n .dw D+1\n"); e_w(&e, (v + q) * 2 + 1); break;
		case EARG: b_s(&b, "#define F(p) 2*p\n .dw F("); V; S; b_s(&b, ")\n"); e_w(&e, (v + q) * 2); break;
		case EMARG: b_s(&b, "#macro F(p,r)\n .dw 2*p,r\n#endmacro\n F("); V; S; b_s(&b, ",9)\n"); e_w(&e, (v + q) * 2); e_w(&e, 9); break;
		case EEVAL: b_s(&b, "#define D eval(7"); S; b_s(&b, ")\n .dw D\n .dw "); V; b_c(&b, '\n'); e_w(&e, 7 + q); e_w(&e, v); break;
		case EJR: b_s(&b, "X: jr X"); S; b_s(&b, "-"); b_u(&b, q); b_s(&b, "\n .dw "); V; b_c(&b, '\n'); b_c(&e, 0x18); b_c(&e, 0xFE); e_w(&e, v); break;
		case EBIT: b_s(&b, " bit 2"); S; b_s(&b, "-"); b_u(&b, q); b_s(&b, ",a\n .dw "); V; b_c(&b, '\n'); b_c(&e, 0xCB); b_c(&e, 0x57); e_w(&e, v); break;
		case EIX: b_s(&b, " ld (ix"); S; b_s(&b, "-"); b_u(&b, q); b_s(&b, "),"); v = b_h(&b, "v", 2); b_c(&b, '\n'); b_c(&e, 0xDD); b_c(&e, 0x36); b_c(&e, 0); b_c(&e, v); break;
		case ECONT: b_s(&b, "#define D 1\n#defcont "); S; b_s(&b, "\n#defcont +"); V; b_s(&b, "\n .dw D\n"); e_w(&e, 1 + q + v); break;
		case EECHO: { b_s(&b, " .echo 7"); S; b_c(&b, '\n'); b_u(&e, 7 + q); b_c(&e, '\n'); int f = fits(&b), r = asm3(&b, "-N", 0, 0); if (!f && r >= 2 && says("too long")) { vp_reach("text beyond the limit"); return; } vp_assert(r == 0, "the value of a long expression"); prints(&e); return; }
		}
		exact(&b, &e, "-N", 2, "the value of a long expression");
	} else if (g == 3) {
		int k = vp_choose(NKL), l = vp_choose(NL), n = lens[l]; if (n > 1100 && (k == MANYDB || k == MANYDW || k == MANYF || k == LISTD || k == STMTS)) return; vp_go(); vp_label("long lines"); u32 v; B t = mk(), s = mk();
		switch (k) {
		case COMM: b_s(&b, " .db "); v = b_h(&b, "v", 2); b_c(&b, ';'); text(&b, &t, n); b_s(&b, "\n nop\n"); b_c(&e, v); b_c(&e, 0); break;
		case COMC: b_s(&b, ";"); text(&b, &t, n); b_s(&b, "\n#comment\n"); b_mem(&b, t.b, t.n); b_s(&b, "\n#endcomment\n .db "); v = b_h(&b, "v", 2); b_s(&b, "\n"); b_c(&e, v); break;
		case MANYDB: b_s(&b, " .db "); for (int i = 0; i < n; i++) { if (i) b_c(&b, ','); b_c(&e, sel(&b, i, n)); } b_c(&b, '\n'); break;
		case MANYDW: b_s(&b, " .dw "); for (int i = 0; i < n; i++) { if (i) b_s(&b, " , "); e_w(&e, sel(&b, i, n)); } b_c(&b, '\n'); break;
		case MANYF: b_s(&b, " .db "); for (int i = 0; i < n; i++) b_s(&b, i ? ",X" : "X"); b_s(&b, "\nX = "); v = b_h(&b, "v", 2); b_c(&b, '\n'); for (int i = 0; i < n; i++) b_c(&e, v); break;
		case SPACE: for (int i = 0; i < n; i++) b_c(&s, i % 3 ? ' ' : '\t'); b_mem(&b, s.b, s.n); b_s(&b, "ld"); b_mem(&b, s.b, s.n); b_s(&b, "a,"); v = b_h(&b, "v", 2); b_mem(&b, s.b, s.n); b_s(&b, "\n nop\n"); b_c(&e, 0x3E); b_c(&e, v); b_c(&e, 0); break;
		case STMTS: for (int i = 0; i < n; i++) { b_s(&b, " .db "); b_c(&e, sel(&b, i, n)); b_c(&b, '\\'); } b_s(&b, " inc a\n"); b_c(&e, 0x3C); break;
		case BLANK: for (int i = 0; i < n; i++) b_s(&b, i % 2 ? "\n" : ";\n"); b_s(&b, " .dw __LINE,"); v = b_h(&b, "v", 4); b_c(&b, '\n'); e_w(&e, n + 1); e_w(&e, v); break;
		case IFDN: b_s(&b, "#if 0\n"); text(&b, &t, n); b_s(&b, "\n#endif\n .db "); v = b_h(&b, "v", 2); b_c(&b, '\n'); b_c(&e, v); for (int i = 0; i < n; i++) vp_assume(t.b[i] != '#' || i); vp_assume(t.b[0] != '#'); break;
		case LONGCONT: b_s(&b, "#define L 0\n"); for (int i = 0; i < n; i += 8) b_s(&b, "#defcont ,1,2,3,4\n"); b_s(&b, " .db L,"); v = b_h(&b, "v", 2); b_c(&b, '\n'); b_c(&e, 0); for (int i = 0; i < n; i += 8) for (int j = 1; j < 5; j++) b_c(&e, j); b_c(&e, v); break;
		case LISTD: b_s(&b, "#define L "); for (int i = 0; i < n; i++) { if (i) b_c(&b, ','); b_c(&e, sel(&b, i, n)); } b_s(&b, "\n .db L\n"); break;
		}
		exact(&b, &e, "-N", k != LISTD && k != SPACE ? 1 : 2, "a line of any length is taken whole");
	} else {
		int k = vp_choose(NKC), l = vp_choose(NN), n = nums[l]; vp_go(); vp_label("many of a kind"); u32 v; int i; const char *opt = "-N"; int len = 0, always = 1;
		switch (k) {
		case CLAB: for (i = 0; i < n; i++) { N("L", i); b_s(&b, ": .db "); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } for (i = 0; i < n; i++) { N(" .dw L", i); b_c(&b, '\n'); e_w(&e, i); } break;
		case CFWD: for (i = 0; i < n; i++) { N(" .dw L", i); b_c(&b, '\n'); e_w(&e, 2 * n + i); } for (i = 0; i < n; i++) { N("L", i); b_s(&b, ": .db "); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } break;
		case CDEF: for (i = 0; i < n; i++) { N("#define D", i); b_c(&b, ' '); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } for (i = 0; i < n; i++) { N(" .db D", i); b_c(&b, '\n'); } break;
		case CFUN: for (i = 0; i < n; i++) { N("#define F", i); b_s(&b, "(p) p+"); b_c(&e, 1 + sel(&b, i, n) & 255); b_c(&b, '\n'); } for (i = 0; i < n; i++) { N(" .dw F", i); b_s(&b, "(1)&255\n"); } { B f = mk(); for (i = 0; i < n; i++) { b_c(&f, e.b[i]); b_c(&f, 0); } e = f; } break;
		case CMAC: for (i = 0; i < n; i++) { N("#macro M", i); N("(p)\n .db p,", i % 200); b_s(&b, "\n#endmacro\n"); } for (i = 0; i < n; i++) { N(" M", i); b_c(&b, '('); b_c(&e, sel(&b, i, n)); b_c(&e, i % 200); b_s(&b, ")\n"); } break;
		case CEQU: for (i = 0; i < n; i++) { N("E", i); b_s(&b, " = "); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } for (i = 0; i < n; i++) { N(" .db E", i); b_c(&b, '\n'); } break;
		case CANON: for (i = 0; i < n; i++) { b_s(&b, "_ .db "); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } b_s(&b, " .dw -_\n"); e_w(&e, n - 1); b_s(&b, " .dw +_\n"); e_w(&e, n + 4); for (i = 0; i < n; i++) { b_s(&b, "_ .db "); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } break;
		case CINC: if (n > 58) return; for (i = 0; i < n; i++) { B f = mk(), m = mk(), o = b; b = f; b_s(&b, " .db "); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); f = b; b = o; b_s(&m, "i"); b_u(&m, i); b_s(&m, ".inc"); b_c(&m, 0); vp_file((char *) m.b, f.b, f.n); N("#include \"i", i); b_s(&b, ".inc\"\n"); } break;
		case CCOND: for (i = 0; i < n; i++) { N("#if ", i % 2); b_s(&b, "\n .db "); v = sel(&b, i, n); if (i % 2) b_c(&e, v); N("\n#elif ", i % 3); b_s(&b, "\n .db 1\n#else\n .db 2\n#endif\n"); if (!(i % 2)) b_c(&e, i % 3 ? 1 : 2); } break;
		case CECHO: for (i = 0; i < n; i++) { N(" .echo \"e", i); b_s(&b, i % 2 ? "\",X\n" : "\",7\n"); b_c(&e, 'e'); b_u(&e, i); b_s(&e, "7\n"); } b_s(&b, "X = 7\n"); i = asm3(&b, "-N", 0, 0); vp_assert(i == 0, "a valid program assembles with exit status 0"); prints(&e); return;
		case CINS: if (n > 129) return; for (i = 0; i < n; i++) { N(".addinstr Q", i); b_s(&b, "Z * "); b_x(&b, i, 2); b_s(&b, " 2 NOP 1\n"); } for (i = 0; i < n; i++) { N(" Q", i); b_s(&b, "Z "); b_c(&e, i); b_c(&e, sel(&b, i, n)); b_c(&b, '\n'); } break;
		case CFILL: b_s(&b, " .fill "); b_u(&b, n * 160); b_c(&b, ','); v = b_h(&b, "v", 2); b_s(&b, "\nX: .dw X\n"); for (i = 0; i < n * 160; i++) b_c(&e, v); e_w(&e, n * 160); break;
		case CIMP: { B f = mk(); for (i = 0; i < n * 100; i++) { u8 c = i == 0 || i == n * 50 || i == n * 100 - 1 ? vp_any(vp_name("c", (i > 0) + (i > n * 50))) : i * 7; b_c(&f, c); b_c(&e, c); } vp_file("i.bin", f.b, f.n); b_s(&b, "#import \"i.bin\"\nX: .dw X\n"); e_w(&e, n * 100); break; }
		case CPARF: always = n <= 16 ? 2 : 0; b_s(&b, "#define F("); for (i = 0; i < n; i++) { if (i) b_c(&b, ','); N("p", i); } N(") p", n - 1); N("-p", n / 2); b_s(&b, "+p0\n .dw F("); { u32 a = 0, m = 0, z = 0; for (i = 0; i < n; i++) { if (i) b_c(&b, ','); v = sel(&b, i, n); if (!i) a = v; if (i == n / 2) m = v; z = v; } e_w(&e, z - m + a); } b_s(&b, ")\n"); break;
		case CPARM: always = n <= 16 ? 2 : 0; b_s(&b, "#macro F("); for (i = 0; i < n; i++) { if (i) b_c(&b, ','); N("p", i); } N(")\n .dw p", n - 1); N("\n .dw p", n / 2); b_s(&b, "\n .dw p0\n#endmacro\n F("); { u32 a = 0, m = 0, z = 0; for (i = 0; i < n; i++) { if (i) b_c(&b, ','); v = sel(&b, i, n); if (!i) a = v; if (i == n / 2) m = v; z = v; } e_w(&e, z); e_w(&e, m); e_w(&e, a); } b_s(&b, ")\n"); break;
		case CWARN: for (i = 0; i < n; i++) b_s(&b, " .db 300\n"); i = asm3(&b, 0, 0, 0); { u8 *o; int m = vp_stdout(&o); vp_assert(i == 1 && vp_count(o, m, "SW800") == n, "every warning is printed"); vp_reach("any number of a kind"); } return;
		case CERR: for (i = 0; i < n; i++) N(" .db none", i), b_c(&b, '\n'); i = asm3(&b, 0, 0, 0); { u8 *o; int m = vp_stdout(&o); vp_assert(i >= 2 && vp_count(o, m, "SE106") == n, "every error is printed"); vp_reach("any number of a kind"); } return;
		case CUND: for (i = 0; i < n; i++) { b_s(&b, "#define D "); v = sel(&b, i, n); b_s(&b, "\n .db D\n#undef D\n"); b_c(&e, v); } break;
		case CREDEF: for (i = 0; i < n; i++) { b_s(&b, "#define D "); v = sel(&b, i, n); b_s(&b, "\n .db D\n"); b_c(&e, v); } break;
		case CDEPF: for (i = 0; i < n; i++) { N(" ld hl,X+", i); N("\n ld a,(X+", i); b_s(&b, ")\n"); } b_s(&b, "X = "); v = b_h(&b, "v", 4); b_c(&b, '\n'); for (i = 0; i < n; i++) { b_c(&e, 0x21); e_w(&e, v + i); b_c(&e, 0x3A); e_w(&e, v + i); } break;
		case CJR: for (i = 0; i < n; i++) { N("A", i); N(": jr B", i); N("\n jr A", i); N("\nB", i); b_s(&b, ":\n"); b_c(&e, 0x18); b_c(&e, 2); b_c(&e, 0x18); b_c(&e, 0xFC); } break;
		case CARGS: always = 1; b_s(&b, "#define F(p,q) p+q\n .dw "); for (i = 0; i < n; i++) { if (i) b_c(&b, ','); b_s(&b, "F("); v = sel(&b, i, n); N(",", i); b_c(&b, ')'); e_w(&e, v + i); } b_c(&b, '\n'); break;
		}
		exact(&b, &e, opt, always, "any number of a kind");
	}
}
