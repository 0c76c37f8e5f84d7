// C20: command-line options
#include "h.h"
enum { F_T = 1, F_L = 2, F_S = 4, F_N = 8, F_A = 16, F_O = 32, NF = 6 };
static const char *flag[NF] = {"-T", "-L", "-S", "-N", "-A", "-O"};
// the messages of the last run, without colours, statistics and time
static void said(B *d) {
	u8 *p; int n = vp_stdout(&p), i = 0; B t = mk();
	static const char *skip[] = {"Number of ", "Code size: ", "Data size: ", "Total size: ", "Size: ", "Min. ", "Max. ", "Assembly time"};
	for (; i < n; i++) if (!vp_issym(p[i]) && p[i] == 27) { while (i < n && p[i] != 'm') i++; } else b_c(&t, p[i]);
	for (p = t.b, n = t.n, i = 0; i < n;) {
		int out = 0, st = d->n;
		for (int k = 0; k < 8; k++) { int j = 0; while (skip[k][j] && i + j < n && !vp_issym(p[i + j]) && p[i + j] == skip[k][j]) j++; if (!skip[k][j]) out = 1; }
		while (i < n) { b_c(d, p[i]); if (!vp_issym(p[i]) && p[i] == '\n') { i++; break; } i++; }
		if (out) d->n = st;
	}
}
static void text(B *a, B *b, const char *msg) { vp_assert(a->n == b->n, msg); if (a->n == b->n) vp_assert_eq(a->b, b->b, a->n, msg); }
static int exists(const char *f) { u8 *p; return vp_out(f, &p) >= 0; }
static int keep(B *d, const char *f) { u8 *p; int n = vp_out(f, &p); if (n > 0) b_mem(d, p, n); return n; }
static int nv;
static void h(B *b, int k) { b_h(b, vp_name("v", nv++), k); }
// programs of every kind; none depends on the case of its symbols
enum { NP = 14 };
static void program(B *b, int k) {
	switch (k) {
	case 0: b_s(b, " .org "); h(b, 4); b_s(b, "\nLa: .db \"ab;c\","); h(b, 2); b_s(b, ",Fwd-La\n ld a,"); h(b, 2); b_s(b, "\nFwd: jr La\n .dw Fwd,"); h(b, 4); b_s(b, "\n"); break;
	case 1: b_s(b, "#define Def(Q) Q+"); h(b, 2); b_s(b, "\n#macro Mac(P)\n .dw P,Fwd\n#endmacro\n Mac("); h(b, 2); b_s(b, ")\n .dw Def(3)\nFwd = "); h(b, 4); b_s(b, "\n"); break;
	case 2: b_s(b, " .fill 3,"); h(b, 2); b_s(b, "\n .seek 1\n .db "); h(b, 2); b_s(b, "\n .nolist\n .dw "); h(b, 4); b_s(b, "\n .list\n .block 2\n"); break;
	case 3: b_s(b, "X = "); h(b, 1); b_s(b, "\n#if X==5\n .db \"five\"\n#elif X<3\n .dw X,Y\n#else\n ret\n#endif\nY = 7\n"); break;
	case 4: b_s(b, "#include \"b.inc\"\n#import \"b.dat\"\n .dw Inc,"); h(b, 4); b_s(b, "\n"); break;
	case 5: b_s(b, " .echo \"val \",5,\" end\\n\"\n wr(\" .db 1,2\")\\ run()\n_: djnz -_\n .db "); h(b, 2); b_s(b, "\n"); break;
	case 6: b_s(b, " .addinstr foo * cb 3 nop 1\n foo La\n ld (ix+"); h(b, 1); b_s(b, "),9\nLa: bit 3,(hl)\n"); break;
	// diagnosed programs
	case 7: b_s(b, " ld a,Und\n .db "); h(b, 2); b_s(b, "\n"); break;
	case 8: b_s(b, " .db "); h(b, 3); b_s(b, "\n .dw $12345\n"); break;
	case 9: b_s(b, " .db "); h(b, 2); b_s(b, "\n#else\n bogus\n .db 4\n"); break;
	case 10: b_s(b, "La: .dw "); h(b, 4); b_s(b, "\n .fill 130,1\n jr La\n djnz Lb\n .fill 200\nLb: nop\n"); break;
	case 11: b_s(b, "#include \"none.inc\"\n .db "); h(b, 2); b_s(b, "\n"); break;
	case 12: b_s(b, " .db 1\n .error \"stop\"\n .db "); h(b, 2); b_s(b, "\n#if 1\n"); break;
	case 13: b_s(b, " .db -"); h(b, 2); b_s(b, ",5/0\n .warn \"careful\"\nLa = 3\nLa2 = La\n bit "); h(b, 1); b_s(b, ",a\n"); break;
	}
}
static void inputs(void) { vp_file("b.inc", "Inc = 7\n .db 9\n", 15); vp_file("b.dat", "QRS", 3); }
static const char *vals[] = {0, "", "5", "$1F+2", "\"te,x\"", "Oth+1", " 7", "3 ", "(2)", "a", "ld b,4", "-2", "'q'", "x=y", "%101", "Q"};
enum { NV = sizeof vals / sizeof *vals };
static u8 letters[8] = {'p', 'q', 'Q', 'z', '_', 'P', 'Z', 'k'};
static char *cat(const char *a, B *b) { B t = mk(); b_s(&t, a); b_mem(&t, b->b, b->n); b_c(&t, 0); return (char *) t.b; }
void harness(void) {
	B b = mk(), e = mk(), m0 = mk(), m1 = mk(), lst = mk(), lab = mk(); u8 *p; int g = vp_choose(4), T = vp_tier(); nv = 0;
	if (g == 0) {
		int k = vp_choose(NP), fl = vp_choose(64), ez = vp_choose(2), arr = T ? vp_choose(6) : (fl * 5 + k + ez) % 6; vp_go(); vp_label("flags");
		if (!T && (fl + k * 3) % 4) return;
		if (ez && k == 6) return;
		program(&b, k); inputs(); vp_file("a.asm", b.b, b.n);
		// the same program without the flags (with those that write further files, for comparison with -O)
		if (ez) vp_arg("-E"); if (fl & F_O) { if (fl & F_L) vp_arg("-L"); if (fl & F_T) vp_arg("-T"); }
		vp_arg("a.asm"); vp_arg("a.bin"); int r0 = vp_run(), n0 = keep(&e, "a.bin"); said(&m0);
		int l0 = keep(&lst, "a.lst"), y0 = keep(&lab, "a.lab"); if (fl & F_O) ; else { vp_assert(l0 < 0, "no listing without -T"); vp_assert(y0 < 0, "no symbol file without -L"); }
		vp_clear(); inputs(); vp_file("a.asm", b.b, b.n);
		// flags in every cyclic order, forwards and backwards, with the file names after (also between and before) them
		int i, cnt = 0, at = arr >= 4 ? arr - 4 : -1, done = 0;
		for (i = 0; i <= NF; i++) {
			int q = arr & 1 ? NF - i : i; q = (q + arr * 2) % (NF + 1);
			if (at == cnt && !done) { vp_arg("a.asm"); done++; }
			if (q == NF) { if (ez) { vp_arg("-E"); cnt++; } }
			else if (fl >> q & 1) { vp_arg(flag[q]); cnt++; }
		}
		if (!done) vp_arg("a.asm"); vp_arg("a.bin");
		int r1 = vp_run(); said(&m1);
		vp_assert(r0 == r1, "flags do not change the exit status"); text(&m0, &m1, "flags do not change the messages");
		if (fl & F_O) vp_assert(!exists("a.bin"), "-O writes no output file");
		else { n0 < 0 ? vp_assert(!exists("a.bin"), "no output as without flags") : same(&e, "flags do not change the output"); }
		int fatal = n0 < 0;
		if (!fatal) { vp_assert(exists("a.lst") == !!(fl & F_T), "-T writes the listing"); vp_assert(exists("a.lab") == !!(fl & F_L), "-L writes the symbol file"); }
		if (fl & F_O) { B x = mk(), y = mk(); if (keep(&x, "a.lst") >= 0) text(&lst, &x, "-O does not change the listing"); if (keep(&y, "a.lab") >= 0 && !(fl & F_A)) text(&lab, &y, "-O does not change the symbol file"); }
		if (!fatal) vp_assert(vp_said("Total size: ") == !!(fl & F_S), "-S prints the statistics");
		if (fl & F_N) { int n = vp_stdout(&p), c = 0; for (i = 0; i < n; i++) c |= !vp_issym(p[i]) && p[i] == 27; vp_assert(!c, "-N prints no colours"); }
		vp_reach(r0 ? "flags with a diagnosed program" : "flags with a valid program");
	} else if (g == 1) {
		// -D against #define
		int k = vp_choose(NV), two = vp_choose(5), sep = vp_choose(2), A = vp_choose(3), use = vp_choose(6); vp_go(); vp_label("-D"); if (!T && (k + two + sep + A + use) % 3) return;
		B n1 = mk(), n2 = mk(), v = mk(), src = mk();
		u8 c0 = vp_byte("n0", letters, 8); b_c(&n1, c0); if (two) b_c(&n1, vp_byte("n1", letters, 8)); else b_s(&n1, "Name9");
		b_mem(&n2, n1.b, n1.n);
		if (k == 2) { if (use == 1) b_h(&v, "d", 2); else b_h(&v, "d", 4); } else if (vals[k]) b_s(&v, vals[k]);
		// command line
		B o1 = mk(), o2 = mk(); b_mem(&o1, n1.b, n1.n); if (vals[k]) { b_c(&o1, '='); b_mem(&o1, v.b, v.n); }
		if (two == 2) b_s(&o2, "Oth=6"); if (two == 3) { b_mem(&o2, n1.b, n1.n); b_s(&o2, "=9"); } if (two == 4) b_s(&o2, "oth");
		B *pre = &src;
		#define DEFI() { b_s(pre, "#define "); b_mem(pre, n2.b, n2.n); b_c(pre, ' '); if (v.n) b_mem(pre, v.b, v.n); else b_c(pre, '1'); b_c(pre, '\n'); }
		#define DEF2() { if (two == 2) b_s(pre, "#define Oth 6\n"); if (two == 3) { b_s(pre, "#define "); b_mem(pre, n2.b, n2.n); b_s(pre, " 9\n"); } if (two == 4) b_s(pre, "#define oth 1\n"); }
		int rev = two >= 2 && A == 2;
		if (rev) { DEF2(); DEFI(); } else { DEFI(); DEF2(); }
		switch (use) {
		case 0: b_s(&b, " .dw "); b_mem(&b, n1.b, n1.n); b_s(&b, "\n .dw Oth\nOth .equ 3\n"); if (two == 2 || two == 4) return; break;
		case 1: b_s(&b, " .db "); b_mem(&b, n1.b, n1.n); b_s(&b, ",1,"); b_mem(&b, n1.b, n1.n); b_s(&b, "\n"); break;
		case 2: b_s(&b, "#ifdef "); b_mem(&b, n1.b, n1.n); b_s(&b, "\n .db 1\n#else\n .db 2\n#endif\n#ifndef oth\n .db 3\n#endif\n#undef "); b_mem(&b, n1.b, n1.n); b_s(&b, "\n#ifdef "); b_mem(&b, n1.b, n1.n); b_s(&b, "\n .db 4\n#endif\n"); break;
		case 3: b_s(&b, "#if "); b_mem(&b, n1.b, n1.n); b_s(&b, "==1\n .db 1\n#else\n .db 2\n#endif\n .db pq,Zz\n"); if (T == 0 && two) return; break;
		case 4: b_s(&b, "#define "); b_mem(&b, n1.b, n1.n); b_s(&b, " 8\n .dw "); b_mem(&b, n1.b, n1.n); b_s(&b, "\n"); break;
		case 5: b_s(&b, "#macro M()\n ld hl,"); b_mem(&b, n1.b, n1.n); b_s(&b, "*3+oth\n#endmacro\n M()\n"); if (T == 0 && (k & 1)) return; break;
		}
		b_mem(&src, b.b, b.n);
		int r0 = asm3(&src, A == 1 ? "-A" : 0, 0, 0); int n0 = keep(&e, "a.bin");
		vp_clear(); vp_file("a.asm", b.b, b.n);
		B *f = rev ? &o2 : &o1, *s = rev ? &o1 : &o2;
		if (sep) { vp_arg("-D"); vp_arg(cat("", f)); } else vp_arg(cat("-D", f));
		if (A == 1) vp_arg("-A");
		if (s->n) { if (sep) { vp_arg("-D"); vp_arg(cat("", s)); } else vp_arg(cat("-D", s)); }
		vp_arg("a.asm"); vp_arg("a.bin"); int r1 = vp_run();
		vp_assert(r0 == r1, "-D has the status of the #define"); n0 < 0 ? vp_assert(!exists("a.bin"), "no output as with #define") : same(&e, "-D is equivalent to #define"); vp_reach(r0 ? "-D as #define, diagnosed" : "-D as #define");
	} else if (g == 2) {
		// -V against a file
		static const char *tx[] = {"ld a,\x01", " .db \x01,\"a;b\",Q\\Q = 3", " nop", "ret\\ .dw \x02,$", " wr(\" .db \x01\")\\ run()\\ .db \x01", " .db \x01\n .db 5", "L: jr L ; x", " .db Und", " bogus", " .db 1\\ #define", "#include \"b.inc\"\n .dw Inc", " .db LZ\\LZ = \x02-$F", "", "  ", "#macro M(P)\n .db P\n#endmacro\n M(\x01)", "#if \x01>$30\n .db 1\n#else\n ret\n#endif", " .echo \"x\",5"};
		int k = vp_choose(sizeof tx / sizeof *tx), sep = vp_choose(2), opt = vp_choose(6), pos = vp_choose(2); vp_go(); vp_label("-V");
		for (const char *s = tx[k]; *s; s++) if (*s == 1) h(&b, 2); else if (*s == 2) h(&b, 4); else b_c(&b, *s);
		if (!b.n && !sep) return;
		B src = mk(); b_mem(&src, b.b, b.n); b_c(&src, '\n'); inputs(); vp_file("a.asm", src.b, src.n);
		static const char *opts[] = {0, "-N", "-T", "-L", "-A", "-DQZ=5"};
		if (opts[opt]) vp_arg(opts[opt]); vp_arg("a.asm"); vp_arg("a.bin"); int r0 = vp_run(), n0 = keep(&e, "a.bin"); keep(&lab, "a.lab");
		vp_clear(); inputs(); if (opts[opt] && !pos) vp_arg(opts[opt]);
		if (sep) { vp_arg("-V"); vp_arg(cat("", &b)); } else vp_arg(cat("-V", &b));
		if (opts[opt] && pos) vp_arg(opts[opt]);
		int r1 = vp_run(), n1 = vp_out("-v.bin", &p); vp_assert(r1 == r0, "-V has the status of the same text in a file"); vp_assert(n0 == n1, "-V assembles the given text"); if (n0 > 0 && n0 == n1) vp_assert_eq(p, e.b, n0, "-V assembles the given text");
		if (opt == 3 && n0 >= 0) { B y = mk(); vp_assert(keep(&y, "-v.lab") >= 0, "-L with -V"); text(&lab, &y, "symbols of a -V text"); }
		vp_reach(r0 ? "-V, diagnosed" : "-V");
	} else {
		// include directories and file names
		int k = vp_choose(8), pos = vp_choose(4), in = vp_choose(2); vp_go(); vp_label("-I");
		b_s(&b, in ? "#import \"f.inc\"\n .db " : "#include \"f.inc\"\n .db "); u32 v = b_h(&b, "v", 2); b_s(&b, "\n");
		B f = mk(); if (in) b_c(&f, 'K'); else { b_s(&f, " .db "); u32 w = b_h(&f, "w", 2); b_s(&f, "\n"); b_c(&e, w); } if (in) b_c(&e, 'K'); b_c(&e, v);
		vp_file("d1/f.inc", f.b, f.n); vp_file("d2/g.inc", " ret\n", 5); vp_file("a.asm", b.b, b.n);
		if (pos == 0) vp_arg("a.asm"); if (pos == 1) vp_arg("-N");
		switch (k) {
		case 0: vp_arg("-Id1"); break;
		case 1: vp_arg("-I"); vp_arg("d1"); break;
		case 2: vp_arg("-I"); vp_arg("d2"); vp_arg("-I"); vp_arg("d1"); break;
		case 3: vp_arg("-Id2;d1"); break;
		case 4: vp_arg("-I"); vp_arg("d1,d2"); break;
		case 5: vp_arg("-Id1/"); vp_arg("-Id2"); break;
		case 6: vp_arg("-Id2"); break;
		case 7: vp_arg("-Id2,none;d1"); break;
		}
		if (pos == 2) vp_arg("-L"); if (pos) vp_arg("a.asm"); if (pos != 3) vp_arg("a.bin");
		int r = vp_run();
		if (k == 6) { vp_assert(r >= 2, "a file in no include directory is diagnosed"); vp_reach("a file in no include directory is diagnosed"); }
		else { vp_assert(r == 0, "a valid program assembles with exit status 0"); same(&e, "-I adds directories searched by #include"); vp_reach("-I adds directories searched by #include"); }
	}
}
