// C30: nesting and recursion give exact results up to the limits and are diagnosed beyond them
#include "h.h"
static const int depths[] = {1, 2, 3, 4, 6, 9, 13}, over[] = {17, 18, 19, 20, 21, 22, 23, 25, 40, 63, 64, 65, 66, 90};
enum { ND = 7, NO = sizeof over / sizeof *over };
enum { PAREN, DEFS, DEFS_REV, FUNS, FUNS_REV, FARG, MACS, MACS_REV, INCS, IFS, LISTS, NEGS, EQUS, SEQP, SEQF, SEQM, SEQI, SEQC, BUFS, NK };
static void nm(B *b, const char *s, int i) { b_s(b, s); b_u(b, i); }
// a program of kind k nested d levels deep; the image it stands for in e
static void prog(B *b, B *e, int k, int d) {
	u32 v; int W = d < 3 ? 4 : d < 7 ? 2 : 1;   // digits of a value that is written out as a number at every level
	switch (k) {
	case PAREN: b_s(b, " .dw 1+"); for (int i = 0; i < d; i++) b_c(b, '('); v = b_h(b, "v", 4); for (int i = 0; i < d; i++) b_s(b, i % 3 ? ")" : "+1)"); b_s(b, "*2\n"); v += (d + 2) / 3; e_w(e, (v + 1) * 2); break;
	case DEFS: b_s(b, "#define D0 "); v = b_h(b, "v", 4); b_c(b, '\n'); for (int i = 1; i <= d; i++) { nm(b, "#define D", i); nm(b, " D", i - 1); b_s(b, "+3\n"); } nm(b, " .dw D", d); b_c(b, '\n'); e_w(e, v + 3 * d); break;
	case DEFS_REV: for (int i = d; i; i--) { nm(b, "#define D", i); nm(b, " D", i - 1); b_s(b, "+3\n"); } b_s(b, "#define D0 "); v = b_h(b, "v", 4); nm(b, "\n .dw D", d); b_c(b, '\n'); e_w(e, v + 3 * d); break;
	case FUNS: b_s(b, "#define F0(p) p+5\n"); for (int i = 1; i <= d; i++) { nm(b, "#define F", i); nm(b, "(p) F", i - 1); b_s(b, "(p)+1\n"); } nm(b, " .dw F", d); b_c(b, '('); v = b_h(b, "v", W); b_s(b, ")\n"); e_w(e, v + 5 + d); break;
	case FUNS_REV: for (int i = d; i; i--) { nm(b, "#define F", i); nm(b, "(p) 2*F", i - 1); b_s(b, "(p+1)\n"); } b_s(b, "#define F0(q) q+5\n"); nm(b, " .dl F", d); b_c(b, '('); v = b_h(b, "v", W < 2 ? 1 : 2); b_s(b, ")\n"); { u32 x = v + d + 5; for (int i = 0; i < d; i++) x *= 2; e_w(e, x); b_c(e, x >> 16); } break;
	case FARG: b_s(b, "#define G(p) p+1\n .dw "); for (int i = 0; i < d; i++) b_s(b, "G("); v = b_h(b, "v", W); for (int i = 0; i < d; i++) b_c(b, ')'); b_c(b, '\n'); e_w(e, v + d); break;
	case MACS: b_s(b, "#macro M0(p)\n .dw p\n#endmacro\n"); for (int i = 1; i <= d; i++) { nm(b, "#macro M", i); nm(b, "(p)\n .db ", i); nm(b, "\n M", i - 1); nm(b, "(p+1)\n .db ", 100 + i); b_s(b, "\n#endmacro\n"); } nm(b, " M", d); b_c(b, '('); v = b_h(b, "v", W); b_s(b, ")\n");
		for (int i = d; i; i--) b_c(e, i); e_w(e, v + d); for (int i = 1; i <= d; i++) b_c(e, 100 + i); break;
	case MACS_REV: for (int i = d; i; i--) { nm(b, "#macro M", i); nm(b, "(p,q)\n .db q\n M", i - 1); b_s(b, "(q,p)\n#endmacro\n"); } b_s(b, "#macro M0(a,b)\n .db a,b\n#endmacro\n"); nm(b, " M", d); b_c(b, '('); { u32 p = b_h(b, "v", W < 2 ? 1 : 2), q, t; b_c(b, ','); q = b_h(b, "w", W < 2 ? 1 : 2); b_s(b, ")\n"); for (int i = 0; i < d; i++) { b_c(e, q); t = p; p = q; q = t; } b_c(e, p); b_c(e, q); } break;
	case INCS: { u32 v0; b_s(b, "#include \"f1.inc\"\n .dw eX\n"); for (int i = 1; i <= d; i++) { B f = mk(), n = mk(); nm(&f, " .db ", i); b_c(&f, '\n'); if (i < d) { nm(&f, "#include \"f", i + 1); b_s(&f, ".inc\"\n"); } else { b_s(&f, "eX = "); v = b_h(&f, "v", 4); b_c(&f, '\n'); } nm(&f, " .db ", 100 + i); b_c(&f, '\n'); nm(&n, "f", i); b_s(&n, ".inc"); b_c(&n, 0); vp_file((char *) n.b, f.b, f.n); }
		for (int i = 1; i <= d; i++) b_c(e, i); for (int i = d; i; i--) b_c(e, 100 + i); e_w(e, v); break; }
	case IFS: { u32 x[2]; b_s(b, "c0 = "); x[0] = b_h(b, "v", 1); b_s(b, "\nc1 = "); x[1] = b_h(b, "w", 1); b_c(b, '\n'); int on = 1;
		for (int i = 0; i < d; i++) { nm(b, "#if c", i & 1); nm(b, " >= ", i % 4); nm(b, "\n .db ", i); b_c(b, '\n'); on = on && vp_concrete(x[i & 1] >= i % 4); if (on) b_c(e, i); }
		for (int i = d - 1; i >= 0; i--) { nm(b, "#else\n .db ", 100 + i); b_s(b, "\n#endif\n"); } 
		{ int lvl = 0; while (lvl < d && vp_concrete(x[lvl & 1] >= lvl % 4)) lvl++; if (lvl < d) b_c(e, 100 + lvl); } break; }
	case LISTS: b_s(b, "#define L0 "); v = b_h(b, "v", 2); b_s(b, ",7\n"); for (int i = 1; i <= d; i++) { nm(b, "#define L", i); nm(b, " ", i); nm(b, ",L", i - 1); b_c(b, '\n'); } nm(b, " .db L", d); b_s(b, ",\"z\"\n"); for (int i = d; i; i--) b_c(e, i); b_c(e, v); b_c(e, 7); b_c(e, 'z'); break;
	case NEGS: b_s(b, " .dw "); for (int i = 0; i < d; i++) b_s(b, i % 2 ? "~(" : "-("); v = b_h(b, "v", 4); for (int i = 0; i < d; i++) b_c(b, ')'); b_c(b, '\n'); for (int i = d - 1; i >= 0; i--) v = i % 2 ? ~v : -v; e_w(e, v); break;
	case EQUS: b_s(b, "E0 = "); v = b_h(b, "v", 4); b_c(b, '\n'); for (int i = 1; i <= d; i++) { nm(b, "E", i); nm(b, " = E", i - 1); b_s(b, "*2-1\n"); } nm(b, " .dl E", d); b_c(b, '\n'); for (int i = 0; i < d; i++) v = v * 2 - 1; e_w(e, v); b_c(e, v >> 16); break;
	// many side by side
	case SEQP: b_s(b, " .dw "); v = b_h(b, "v", 4); for (int i = 0; i < d && i < 60; i++) { b_s(b, "+(1)"); v++; } b_c(b, '\n'); e_w(e, v); break;
	case SEQF: b_s(b, "#define F(p) p+1\n .dw "); v = b_h(b, "v", 4); for (int i = 0; i < d && i < 40; i++) { b_s(b, "+F(2)"); v += 3; } b_c(b, '\n'); e_w(e, v); break;
	case SEQM: b_s(b, "#macro M(p)\n .db p\n#endmacro\n"); for (int i = 0; i < d * 10; i++) { b_s(b, " M("); if (i % 200 == 7) v = b_h(b, vp_name("v", i / 200), 2); else b_s(b, "5"), v = 5; b_s(b, ")\n"); b_c(e, v); } break;
	case SEQI: { B f = mk(); b_s(&f, " .db X\n"); vp_file("s.inc", f.b, f.n); b_s(b, "X = "); v = b_h(b, "v", 2); b_c(b, '\n'); for (int i = 0; i < d; i++) { b_s(b, "#include \"s.inc\"\n"); b_c(e, v); } break; }
	case SEQC: b_s(b, "X = "); v = b_h(b, "v", 1); for (int i = 0; i < d; i++) { nm(b, "\n#if X=", i % 16); nm(b, "\n .db ", i); b_s(b, "\n#else\n .db X\n#endif"); if (vp_concrete(v == i % 16)) b_c(e, i); else b_c(e, v); } b_c(b, '\n'); break;
	case BUFS: for (int i = 0; i < d; i++) { nm(b, " buf(", i); b_s(b, ")\n clr()\n"); nm(b, " wr(\" .db ", i + 1); b_s(b, "\")\n"); if (i) { nm(b, " wr(\" buf(", i - 1); b_s(b, ")\")\n wr(\" run()\")\n"); } nm(b, " wr(\" .db ", 101 + i); b_s(b, ","); { u32 t = b_h(b, vp_name("v", i), 2); b_s(b, "\")\n"); b_c(e, t); } } b_s(b, " run()\n");
		{ u8 t[16]; for (int i = 0; i < d; i++) t[i] = e->b[i]; e->n = 0; for (int i = d - 1; i >= 0; i--) b_c(e, i + 1); for (int i = 0; i < d; i++) { b_c(e, 101 + i); b_c(e, t[i]); } } break;
	}
}
// recursion that ends: n levels, n symbolic
static const char *fin[] = {
	"#macro M(n)\n#if n>0\n .db n\n M(n-1)\n .db n+$10\n#endif\n#endmacro\n",
	"#macro M(n)\n#if n\n .db n\n#define m2 eval(n-1)\n M(m2)\n#endif\n#endmacro\n",
	"#macro M(n)\n#if n>0\n M(n-1)\n .db n\n M(n-1)\n#endif\n#endmacro\n",
	"#macro M(n)\n#if n>0\n .db n\n P(n-1)\n#else\n .db $77\n#endif\n#endmacro\n#macro P(k)\n#if k=0\n .db $66\n#else\n .db k+$20\n M(k-1)\n#endif\n#endmacro\n",
	"#macro M(n)\n#define cnt n\n#include \"r.inc\"\n#endmacro\n",
	"#macro M(n)\n#ifdef stop\n .db n\n#else\n#define stop\n .db n+1\n M(n)\n .db n+2\n#undef stop\n#endif\n#endmacro\n",
};
static const char *run[] = {
	"#macro M(p)\n M(p)\n#endmacro\n M(\1)\n", "#macro M(p)\n .db p\n M(p+1)\n#endmacro\n .db \1\n M(5)\n", "#macro M(p)\n .db \1\n nop\n M(1)\n#endmacro\n M(2)\n", "#macro M(p)\n N(p,2)\n#endmacro\n#macro N(a,b)\n M(a)\n#endmacro\n N(\1,3)\n", "#define A A\n .db A+\1\n", "#define A B+\1\n#define B A\n .db A\n", "#define F(x) F(x)\n .db F(\1)\n", "#define F(x) F(F(x))\n .dw \1+F(1)\n",
	"#define F(x) x+G(x)\n#define G(y) F(y)\n .db G(\1)\n", " nop\n .db \1\n#include \"a.asm\"\n", "#include \"r2.inc\"\n .db \1\n", "#define A B,\1\n#define B A,2\n .db A\n", "#define A eval(A)\n .db A+\1\n", " buf(1)\\ wr(\" buf(1)\\\\ run()\")\n .db \1\n run()\n", "#define A B\n#define B A\n ld a,A+\1\n", "#define A B\n#define B A\n#if A+\1\n nop\n#endif\n", "#define A B\n#define B A\nX = A+\1\n", "#define A B\n#define B A\n .echo A+\1\n", "#define A B\n#define B A\n .org A+\1\n",
	"#macro M()\n#include \"r3.inc\"\n#endmacro\n .db \1\n M()\n",
};
enum { NF = sizeof fin / sizeof *fin, NR = sizeof run / sizeof *run };
static void rec(B *e, int k, int n) {
	if (k < 3 && n <= 0) return;
	switch (k) {
	case 0: b_c(e, n); rec(e, k, n - 1); b_c(e, n + 16); break;
	case 1: b_c(e, n); rec(e, k, n - 1); break;
	case 2: rec(e, k, n - 1); b_c(e, n); rec(e, k, n - 1); break;
	case 3: if (n <= 0) { b_c(e, 0x77); break; } b_c(e, n); if (n == 1) { b_c(e, 0x66); break; } b_c(e, n - 1 + 32); rec(e, k, n - 2); break;
	case 4: if (n <= 0) { b_c(e, 0xAA); break; } b_c(e, n); rec(e, k, n - 1); b_c(e, 0xBB); break;
	case 5: b_c(e, n + 1); b_c(e, n); b_c(e, n + 2); break;
	}
}
static int says(const char *s) { u8 *q; int m = vp_stdout(&q); return vp_count(q, m, s) > 0; }
void harness(void) {
	B b = mk(), e = mk(); int g = vp_choose(4), T = vp_tier();
	if (g == 0) { int k = vp_choose(NK), d = depths[vp_choose(ND)]; if (k == BUFS && d > 9) return; vp_go(); vp_label("nesting"); prog(&b, &e, k, d); good(&b, "-N", &e, "nesting gives the exact result"); }
	else if (g == 1) { int k = vp_choose(NK), d = over[vp_choose(NO)]; if (k == BUFS) return; if (!T && (k + d) % 3) return; vp_go(); vp_label("deep nesting"); prog(&b, &e, k, d); if (k == FUNS_REV || k == EQUS || (k >= MACS && k <= INCS)) if (d > 24 && k != INCS) return;
		int r = asm3(&b, "-N", 0, 0);
		if (r >= 2) { vp_assert(says("error"), "nesting beyond a limit is diagnosed"); vp_assert(k == PAREN || k == NEGS || k >= DEFS && k <= FARG || k == LISTS || k == INCS, "this nesting has no limit"); vp_reach("beyond a limit"); }
		else { vp_assert(r == 0, "a valid program assembles with exit status 0"); same(&e, "nesting gives the exact result"); vp_reach("deep"); }
	} else if (g == 2) { int k = vp_choose(NF), two = vp_choose(3); vp_go(); vp_label("recursive macros"); b_s(&b, fin[k]); u8 c = vp_pick("n", k == 2 ? "0123" : "0123456789"); int n = 0; while (vp_concrete(n < c - '0')) n++;
		B ri = mk(); b_s(&ri, "#if cnt>0\n .db cnt\n#define cnt eval(cnt-1)\n#include \"r.inc\"\n .db $BB\n#else\n .db $AA\n#endif\n"); vp_file("r.inc", ri.b, ri.n);
		u32 v; b_s(&b, " .db "); v = b_h(&b, "v", 2); b_c(&e, v); b_s(&b, "\n M("); b_c(&b, c); b_s(&b, ")\n"); rec(&e, k, n); if (two) { b_s(&b, two == 2 ? " M(2)\\ nop\n" : "#if 1\n M(2)\n#endif\n nop\n"); rec(&e, k, 2); b_c(&e, 0); } b_s(&b, " .db 99\n"); b_c(&e, 99);
		int r = asm3(&b, "-N", 0, 0); vp_assert(r <= 1, "a valid program assembles with exit status 0"); same(&e, "recursion that ends gives the exact result"); vp_reach("recursion that ends gives the exact result");
	} else { int k = vp_choose(NR), w = vp_choose(3); vp_go(); vp_label("runaway recursion"); if (w) b_s(&b, w == 1 ? "#define Q 1\n" : "#if 1\n"); for (const char *t = run[k]; *t; t++) if (*t == 1) b_h(&b, "v", 2); else b_c(&b, *t); if (w == 2) b_s(&b, "#endif\n");
		vp_file("r2.inc", " nop\n#include \"r2.inc\"\n", 23); vp_file("r3.inc", " M()\n", 5);
		int r = asm3(&b, "-N", 0, 0); vp_assert(r == 2 || r == 3, "runaway recursion gives exit status 2 or 3"); vp_assert(says("error"), "runaway recursion is diagnosed"); vp_reach("runaway recursion is diagnosed"); }
}
