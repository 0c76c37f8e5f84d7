// C16: no source text makes the assembler access memory out of bounds
#include "h.h"
// statements; ^ at the start: eZ80 only
static const char *stm[] = {
	" ld a,(ix+5)", " ld (iy-1),'x'", " bit 3,(iy+2)", " jp nz,LF", " djnz LF\\ ret", "^ call.il LB", "^ ld.lil (hl),a", " rst 8", " ex af,af'", " in a,(c)", " out (5),a", " ld (LB),bc",
	" .db 1,\"a\\nb\",'c',LF", " .dw LB+LA*2", " .dl $FFFFFF,-1", " .db (1+2)*3,%101b", " .db 1<<2,!LA,~5", " .db LA==5||LA!=6", " .dw 12h,0101b,@17,17o", " .db $-2,LB-$", " .db \"ab\"+1", " .fill 3,1", " .block 2", " .org $4000", " .seek 1",
	"XX = LA+1", "XX .equ 4", "XX: nop", "LC:LD: ret", "_ djnz -_", " jr +_", " jp ++_",
	" .addinstr foo *,A CB 2 NOP 1", " .option OO=5,PP=\"q\"", " .echo \"x\",LA,1", " .echo > \"o.txt\",\"x\"", " .echo >> \"o.txt\",LA", " .error \"x\"", " .nolist", " .list", " .assume adl=0", "^ .assume adl=1", " .end", " .text \"a\"", " .byte 'a'",
	"#define X Y", "#define F(a,b) a+b", "#define F(a,a) a", "#define F \"q\"", "#define", "#defcont +1", "#ifdef DA\n nop\n#endif", "#ifndef DA\n nop\n#endif", "#if LA==5\n nop\n#else\n ret\n#endif", "#if LA\n#elif 1\n#endif", "#undef DA", "#comment\nx\n#endcomment", "#macro M(a)\n a\n#endmacro\n M(ret)", "#macro MA\n#endmacro",
	"#import \"b.dat\"", "#include \"b.inc\"", "#include b.inc", "#include <b.inc>", "#region x", " buf(1)", " clr(1)", " wr(\".db 4\")", " wr(\"x\",LA,1)\n run()", " run()", " MA(1,2)", " MA(,)", " .db FA(1,2)", " .db FA(1,FA(2,3))", " .db eval(LA+1)", " .dw getc(\"b.dat\",c)", "#define G eval(LA,1)\n .db G", "#define G concat(\"a\",1)\n .db G", "#define G concat(\"L\",\"A\")\n .db G", " .db ST,DA", " MC(\"a,b\")", "ST = 3", "DA: ret", " .option LB=3", "#macro LB()\n#endmacro", "#define MB(x) MA(x,1)\n MB(2)", " .show MA", " .module x", "X = X", "X = LF", " .db LF\\ .dw LF \\ nop",
};
enum { NS = sizeof stm / sizeof *stm };
static const char pre[] = "#define DA 3\n#define ST \"str\"\n#define FA(x,y) x+y\n#macro MA(x,y)\n ld a,x\n .dw y\n#endmacro\n#macro MC(x)\n .db x\n#endmacro\nLA = 5\nLB: nop\n_:\n";
static const char post[] = "\n_: nop\nLF: ret\n";
static u8 all[256], spec[64]; static int nall, nspec;
// texts that name a file to write stay in the working directory
static int writes(const char *t) { for (; *t; t++) if (t[0] == '>' && t[1] != '>' && t[-1] != '<') return 1; return 0; }
static void dom(const char *t) {
	int w = t && writes(t); nall = nspec = 0;
	for (int i = 0; i < 256; i++) if (!w || (i != '/' && i != '\\')) all[nall++] = i;
	for (const char *q = " \t\n\r\"'()\\,;#.:=_a0$%-+*/@&|<>!~^{}[]?G"; *q; q++) if (!w || (*q != '/' && *q != '\\')) spec[nspec++] = *q;
	spec[nspec++] = 0x80; spec[nspec++] = 0xFF; spec[nspec++] = 0;
}
static const char *opts[] = {"-N", "-T", "-S", "-L", "-A", "-C", "-O", "-I."};
static void inputs(void) { vp_file("b.inc", "INC = 7\n .db 9\n", 15); vp_file("b.dat", "QRS", 3); }
static void go(B *s, const char *o1, const char *o2, const char *msg) {
	inputs(); int r;
#ifdef C24
	vp_file("a.asm", s->b, s->n); if (o1) vp_arg(o1); if (o2) vp_arg(o2); outn = outs[s->n % 9]; vp_arg(s->n / 9 % 3 ? s->n / 9 % 3 == 1 ? "-L" : "-S" : "-T"); vp_arg("a.asm"); vp_arg(outn); r = vp_run();
#else
	r = asm3(s, o1, o2, 0);
#endif

	vp_assert(r >= 0 && r <= 3, "the exit status is a documented one"); vp_reach(msg); if (r == 0) vp_reach("accepted"); if (r >= 2) vp_reach("diagnosed");
}
static void rep(B *b, const char *s, int n) { while (n-- > 0) b_s(b, s); }
static void rechar(B *b, u8 c, int n) { while (n-- > 0) b_c(b, c); }
static const int lens[] = {15, 31, 32, 33, 62, 63, 64, 127, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1100};
enum { NL = sizeof lens / sizeof *lens };
static const char *longt[] = { // \1: a run of that length; \2: a symbolic byte
	"\1\2: nop", "\1\2 = 1", "#define \1\2 1", "#define \1\2(a) a\n .db \1\2(1)", "#define X \1\2\n .db X", "#define X \"\1\2\"\n .db X", "#macro \1\2()\n#endmacro", "#macro M(\1\2)\n .db \1\2\n#endmacro\n M(4)", "#macro M(a)\n .db a\n#endmacro\n M(\1\2)", " M\1\2(1)",
	"#macro M()\n\1\2\n#endmacro\n M()", " .db \1\2", " .db \"\1\2\"", " .dw '\1\2'", " .\1\2", " \1\2 a,b", " ld \1\2,a", " ld a,(ix+\1\2)", " ld a,(\1\2)", " jp nz,\1\2", "#\1\2", "#if \1\2\n#endif", "#ifdef \1\2\n#endif", "#undef \1\2", "#include \"\1\2\"", "#include \1\2", "#import \"\1\2\"", " .echo \"\1\2\"", " .echo \1\2", " .echo > \"\1\2\",1", " .error \"\1\2\"", " .option \1\2=1", " .option X=\1\2", " .addinstr \1\2 * CB 2 NOP 1", " .addinstr foo \1\2 CB 2 NOP 1", " .addinstr foo * CB 2 \1\2 1", " .assume \1\2=1", " .fill \1\2,1", " .fill 1,\1\2", " .org \1\2", " wr(\"\1\2\")\n run()", " buf(\1\2)", " .db eval(\1\2)", " .db getc(\"\1\2\",1)", "#define G concat(\"\1\2\",1)\n .db G", "#define G eval(\1\2)\n .db G", " .db LA \1\2", "#defcont \1\2", "; \1\2", "#comment\n\1\2\n#endcomment", "^ ld.\1\2 a,b", "^ .assume \1\2=1", "\1\2", " \1\2", " \1\2(", "FA\1\2(1,2)", " .db FA(\1\2,1)", " .db FA(1,\1\2", " .db MA(\1\2,1)", " .seek \1\2", " .list \1\2",
};
enum { NLT = sizeof longt / sizeof *longt };
static const char runs[] = "a1 (+-,\"$)%\\'\t@";   // what the run is made of
// chains and depths
static const char *deep[] = { "(", "((1+", "-", "1+", "\"a\"+", "'a',", "FA(1,", "eval(", "a,", "1,", "LA:", "\\ nop ", "#if 1\n", "_:", "+_,", "getc(", "concat(", "$", "%1", "\\", " ", "#define A B\n", "*", "1<<" , "!", "~", "[", "{" , "LA==", "=", "&", "1?"};
enum { ND = sizeof deep / sizeof *deep };
static const char *rec[] = {
	"#define A A\n .db A\n", "#define A B\n#define B A\n .db A\n .dw B+A\n", "#define F(x) F(x)\n .db F(1)\n", "#define F(x) F(F(x))\n .db F(1)\n", "#define F(x) x+G(x)\n#define G(y) F(y)\n .db F(1)\n", "#macro M()\n M()\n#endmacro\n M()\n", "#macro M(x)\n N(x)\n#endmacro\n#macro N(y)\n M(y)\n#endmacro\n M(1)\n", "#include \"a.asm\"\n", " wr(\"run()\")\n run()\n", " wr(\" buf(1)\\\\ run()\")\n buf(1)\n wr(\" buf(0)\\\\ run()\")\n run()\n", "#define A eval(A)\n .db A\n", "#define A concat(\"A\")\n .db A\n", "#define R run()\n wr(\" R\")\n R\n",
	"#macro M()\n#undef M\n nop\n M()\n#endmacro\n M()\n", "#macro M(x)\n#define x 5\n .db x\n#undef x\n#endmacro\n M(Q)\n", "#define A 1\n#undef A\n#defcont 2\n .db A\n", "#define A 1\n#define B 2\n#undef B\n#defcont +1\n .db A\n", "#defcont 1\n", "#macro M(x)\n#undef x\n .db x\n#endmacro\n M(1)\n", "#macro M(x)\n M2(x)\n#undef M2\n#endmacro\n#macro M2(x)\n#undef M\n .db x\n#endmacro\n M(1)\n M(1)\n", " wr(\" clr(0)\\\\ nop\")\n run()\n run()\n", " wr(\" wr(\\\"nop\\\")\\\\ nop\")\n run()\n run()\n", "#define A\n .db A\n .db getc(A,1)\n .echo A\n#if A\n#endif\n", "#define A()\n .db A()\n A()\n A\n", "A: ret\n#undef A\n jp A\n", "#define A 3\nA = 4\n .db A\n", "#macro A()\n#macro B()\n nop\n#endmacro\n B()\n#endmacro\n A()\n", " .option A\n .db __A\n .option A=\n .db A\n .option =5\n .option ,,\n", " .addinstr\n .addinstr a\n .addinstr a b\n .addinstr a b c\n .addinstr a b 1 2\n .addinstr a b 1 2 3 4 5 6\n", " .addinstr ld a,* 11 1\n ld a,5\n", " .addinstr nop * 11 2\n nop 5\n nop\n", " .addinstr foo *,*,* 11 4\n foo 1,2,3\n foo 1,2,3,4\n foo 1\n", " .addinstr foo \"\" 11223344556677 7\n foo\n", " .addinstr foo * 11 9\n foo 1\n", "#macro M(x)\n .db x\n jr 5000+x\n#endmacro\n M(FWW)\n#undef M\n", "#macro M(x)\n#define M(y) 5\n .db x\n#endmacro\n M(1)\n .db M(2)\n", "#macro M(x)\n#undef M\n#macro M(z)\n .db z\n#endmacro\n M(x)\n .db x\n#endmacro\n M(1)\n M(2)\n", "#macro M()\nL1: nop\n#endmacro\n M()\n M()\n", "#define L1 5\nL1: nop\n", "L1: nop\n#define L1(x) x\n#defcont +1\n", "L1: nop\n#macro L1(x)\n#endmacro\n", "#macro M(x)\nx\n#endmacro\n M(M(M(nop)))\n M(\"M(1)\")\n", "#include \"b.inc\"\n#undef INC\n .db INC\n .echo \"b\"\n .error \"x\"\n", "#define A \"x\n#define B \"y\n .db A,B\n", "#define A concat(\"B\",\"C\")\n#define B concat(A)\n .db B\n", "#include \"\"\n", "#import \"\"\n", "#include\n#import\n", "#include \"b.inc\"\n#include \"./b.inc\"\n#import \".\"\n", ".",  "#", "_", "LB", " ", "\\", "=", "=5", "X=", ":", " :", "_=5", "+_", "a(", " a(", "a()", " buf(", " clr(", " wr(", " run(", " .db", " .db ", " .db 1,", " .fill", "#macro", "#macro ", "#macro A", "#macro A(", "#macro A(x", "#macro A(x,", "#macro A(x)", "#if", "#ifdef", "#if 1", "#if 0", "#if 0\n#else", "#comment", "#define A(", "#define A(x", "#define A(x,", " ld", " ld ", " ld a", " ld a,", " ld a,(", " ld (ix", " ld (ix+", " bit", " .assume adl", " .assume adl=", " .echo >", " .echo >>", " .echo > \"", " .echo > \"x", " .echo > \"x\"", " .echo > \"x\",", " .option", " .seek", " .org", " .error", " .end",
};
enum { NR = sizeof rec / sizeof *rec };
// command lines, one argument a line
static const char *cmdl[] = {"\2", "-\1\2", "-D\1\2\na.asm\na.bin", "-DX=\1\2\na.asm\na.bin", "-D\2=\1\na.asm\na.bin", "-D\na.asm", "-D=5\na.asm", "-V \1\2", "-V .db \1\2", "-V", "-I\1\2\na.asm\na.bin", "-I\na.asm", "-I\1;\2;;.\na.asm", "\1\2.asm", "a.asm\n\1\2", "a.asm\n\1\2.8xp", "a.asm\na.\1\2", "-T\n-\2\na.asm\n\1.bin", "-L\na.asm\n\1.8xk", "-T\na.asm\n.\1", "-L\na.asm", "-C\n-S\n-T\na.asm\na.b\2", "a.asm\na.bin\nc.bin\n\1\2", "-E\n-T\n-L\n-\2\na.asm\na.hex", "a.asm\na.rom", "a.asm\n\1.86s", "\1"};
enum { NCL = sizeof cmdl / sizeof *cmdl };
void harness(void) {
	B s = mk(); int T = vp_tier(); nall = nspec = 0;
	dom(0);
#ifdef C24
	int g = vp_choose(6); g = g < 3 ? g : g + 3;
#else
	int g = vp_choose(9);
#endif
 const char *o = "-N", *o2 = 0, *msg;
	if (g < 3) { // a statement with a byte replaced or inserted, or cut off
		int k = vp_choose(NS), p = vp_choose(64), m = vp_choose(3); const char *t = stm[k]; int ez = *t == '^'; t += ez; int n = vp_slen(t); dom(t);
		if (p > n) return; if (g == 0 && p == n) return;
		if (g < 2 && m) return;
		if (!T && g == 2 && (p * 7 + k + m) % 3) return;
		o = ez || (T && (p + k) % 3 == 0) ? "-E" : opts[(k + p) % (T ? 8 : 2)]; msg = g == 0 ? "a byte replaced" : g == 1 ? "a byte inserted" : m == 0 ? "text cut off" : m == 1 ? "line cut off" : "two bytes inserted";
		vp_go(); vp_label(msg); b_s(&s, pre); b_mem(&s, t, p);
		if (g == 0) { b_c(&s, vp_byte("c", all, nall)); b_s(&s, t + p + 1); b_s(&s, post); }
		else if (g == 1) { b_c(&s, vp_byte("c", all, nall)); b_s(&s, t + p); b_s(&s, post); }
		else if (m == 0) b_c(&s, vp_byte("c", all, nall));
		else if (m == 1) { b_c(&s, vp_byte("c", spec, nspec)); b_s(&s, post); }
		else { b_c(&s, vp_byte("c", spec, nspec)); b_c(&s, vp_byte("d", spec, nspec)); b_s(&s, t + p); b_s(&s, post); }
	} else if (g == 3) { // short files
		int m = vp_choose(6), e = vp_choose(2); if (!T && m == 5) return; int f = m == 4 ? vp_choose(nspec) : 0, h = m == 4 ? vp_choose(2) : 0; if (!T && m == 4 && f % 8 != e) return; msg = "files of up to three bytes"; o = e ? "-E" : opts[m]; vp_go(); vp_label(msg);
		int n = m < 3 ? m : m == 3 ? 2 : 3; const u8 *d = m == 2 ? spec : all; int nd = m == 2 ? nspec : nall; if (m == 4) { d = spec; nd = nspec; }
		if (m == 0) {} else if (m == 2) { b_c(&s, ' '); b_c(&s, vp_byte("a", d, nd)); b_c(&s, vp_byte("b", d, nd)); }
		else if (m == 4) { b_c(&s, spec[f]); int q = nspec / 2; b_c(&s, vp_byte("a", h ? spec + q : spec, h ? nspec - q : q)); b_c(&s, vp_byte("b", spec, nspec)); }
		else for (int i = 0; i < n; i++) b_c(&s, vp_byte(vp_name("a", i), d, nd));
	} else if (g == 4) { // long tokens
		int k = vp_choose(NLT), l = vp_choose(NL), c = vp_choose(sizeof runs - 1); if (!T && (k + l + c) % 14 && c && (c > 1 || (k + l + c) % 2)) return; const char *t = longt[k]; dom(t); if (writes(t) && (runs[c] == '\\' || runs[c] == '/')) return; int ez = *t == '^'; t += ez; o = ez ? "-E" : opts[(k + l + c) % 8]; msg = "long tokens";
		vp_go(); vp_label(msg); b_s(&s, pre); u8 x = vp_byte("c", spec, nspec);
		for (; *t; t++) if (*t == 1) rechar(&s, runs[c], lens[l] - 1); else if (*t == 2) b_c(&s, x); else b_c(&s, *t);
		b_s(&s, post);
	} else if (g == 5) { // deep and long chains
		int k = vp_choose(ND), w = vp_choose(6), n = vp_choose(3); msg = "deep nesting and long chains"; vp_go(); vp_label(msg); b_s(&s, pre);
		static const char *ctx[] = {" .db ", "X = ", "#if ", " ld a,", "", "#define X "}; static const int ns[] = {20, 130, 400};
		b_s(&s, ctx[w]); rep(&s, deep[k], k == 12 && n == 2 ? 200 : ns[n]); b_c(&s, vp_byte("c", spec, nspec)); if (w == 5) b_s(&s, "\n .db X"); b_s(&s, post);
	} else if (g == 7) { // two statements
		int k = vp_choose(NS), l = vp_choose(NS), m = vp_choose(2); const char *t = stm[k], *u = stm[l]; if (!T && (m ? (k + l) % 5 : (k * 3 + l) % 2)) return; if (*t == '^') { o = "-E"; t++; } if (*u == '^') { o = "-E"; u++; } dom(writes(t) || writes(u) ? " >" : 0); msg = "two statements";
		vp_go(); vp_label(msg); b_s(&s, pre); b_s(&s, t); if (m) b_c(&s, vp_byte("c", spec, nspec)); else b_s(&s, (k + l) & 1 ? "\\" : "\n"); b_s(&s, u); b_s(&s, post);
	} else if (g == 8) { // command lines
		int k = vp_choose(NCL), m = vp_choose(2), l = vp_choose(NL); if (m == 0 && l) return; msg = "command lines"; vp_go(); vp_label(msg); dom(" >"); nspec--; nall = 0; for (int i = 1; i < 256; i++) if (i != '/' && i != '\\') all[nall++] = i;
		B a = mk(); for (const char *t = cmdl[k]; *t; t++) if (*t == 1) { if (m) rechar(&a, 'a' + l % 3, lens[l]); } else if (*t == 2) b_c(&a, m ? vp_byte("c", spec, nspec) : vp_byte("c", all, nall)); else b_c(&a, *t);
		b_c(&a, 0); b_s(&s, pre); b_s(&s, post); inputs(); vp_file("a.asm", s.b, s.n);
		char *p = (char *) a.b, *e = p + a.n; char *q = p; int x = 0; for (; p < e; p++) if (*p == '\n' && p != q) { *p = 0; vp_arg(q); q = p + 1; } else if (!*p) { vp_arg(q); break; } (void) x;
		int r = vp_run(); vp_assert(r >= 0 && r <= 3, "the exit status is a documented one"); vp_reach(msg); return;
	} else { int k = vp_choose(NR), m = vp_choose(3); msg = "recursion and redefinition"; vp_go(); vp_label(msg); b_s(&s, rec[k]); if (m) { b_c(&s, vp_byte("c", all, nall)); if (m == 2) b_s(&s, post); } }
#ifdef C24
	go(&s, o, o2, msg); vp_reach("runs");
#else
	go(&s, o, o2, msg);
#endif
}
