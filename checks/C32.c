// C32: statements do not disturb each other: a program's image is the images of its statements one after another
#include "h.h"
// text: @ the instance, \1 a symbolic byte, \2 a symbolic word. image: hex digits; v the byte, W the word, S byte+1 and M word-1 as words, P and Z the addresses of the start and the end, >n moves the address, ~ a warning is due
typedef struct { const char *s, *e; } St;
static const St st[] = {
	{" nop\n", "00"}, {" ld a,\1\n", "3Ev"}, {" ld hl,\2\n", "21W"}, {" ld (ix+5),\1\n", "DD3605v"}, {" jp $\n", "C3P"}, {" jr $\n", "18FE"}, {" djnz L@\nL@:\n", "1000"}, {" .db \1,2\n", "v02"}, {" .dw \2\n", "W"}, {" .dl \2\n", "W00"},
	{" .db \"a;b\",\1\n", "613B62v"}, {" .fill 3,\1\n", "vvv"}, {"L@: .dw L@\n", "P"}, {" .dw L@\nL@:\n", "Z"}, {"X@ = \1\n .db X@\n", "v"}, {"#define D@ \1+1\n .dw D@\n", "S"}, {"#define F@(p,q) p-q\n .dw F@(\2,1)\n", "M"}, {"#macro M@(p)\n .db p,3\n#endmacro\n M@(\1)\n", "v03"},
	{"#if 1\n .db \1\n#else\n .db 9\n#endif\n", "v"}, {"#if 0\n junk (\"\n#elif 1\n .db \1\n#else\n nop\n#endif\n", "v"}, {"#ifdef NO@\n .db 1\n#else\n .db \1\n#endif\n", "v"}, {"#include \"i.inc\"\n", "5A"}, {"#import \"i.bin\"\n", "010203"}, {"_ .db \1\n .dw -_\n", "vP"}, {" .dw +_\n_\n", "Z"},
	{" .echo \"x\",\1\n", ""}, {" .echo F@,\1\nF@ = 3\n", ""}, {" .echo > \"o.txt\" \1\n", ""}, {"#comment\n junk ( \"\n#endcomment\n", ""}, {" ; comment \" ( \\ '\n", ""}, {" .nolist\n .db \1\n .list\n", "v"}, {".addinstr Q@Z * 77 2 NOP 1\n Q@Z \1\n", "77v"}, {" clr()\n wr(\" .db \1\")\n run()\n", "v"}, {" .db (\1),'(',';'\n", "v283B"}, {" ld a,'\"'\\ inc a\n", "3E223C"},
	{"#define U@ 5\n#undef U@\n#ifdef U@\n nop\n#endif\n", ""}, {" .org $+5\n", ">5"}, {"E@: .equ \1\n .db E@\n", "v"}, {" ld a,W@\nW@ = \1\n", "3Ev"}, {"#define A@ B@\n#define B@ \1\n .db A@\n", "v"}, {"#define V@ eval(\1+1)\n .dw V@\n", "S"}, {" .block 2\n", "0000"}, {" .db 300\n", "2C~"}, {"#ifndef G@\n#define G@\n .db \1\n#endif\n", "v"}, {"#define C@ 1\n#defcont +\1\n .dw C@\n", "S"}, {" ld a,(V@)\nV@ .equ \2\n", "3AW"},
	{" bit 3,(iy+2)\n", "FDCB025E"}, {" set 0,a\\ .db \1 ; c\n", "CBC7v"}, {"\tex af,af'\n", "08"}, {" jp nz,L@\n .db \1\nL@:\n", "C2Zv"}, {" sub '''\n", "D627"}, {"T@\n .dw T@\n", "P"}, {" jr -_\n_ jr +_\n _ \n_\n", 0}, {" .db %00000101,0FFh,10d,\1\n", "05FF0Av"}, {"#macro R@(n)\n#if n>0\n .db n\n R@(n-1)\n#endif\n#endmacro\n R@(2)\n", "0201"}, {" .db \"q\\\"\\n\",\1\n", "71220Av"}, {" call $+\1\n", "CDX"}, {"#region x\n .db \1\n#endregion\n", "v"}, {" .db 1==1,2>3,\1&255\n", "0100v"}, {"#define P@ \"s;\",\1\n .db P@\n", "733Bv"},
	{" .dw -\1\n", "Y"}, {"#if 1\n#if 0\n#else\n#include \"i.inc\"\n .db \1\n#endif\n#endif\n", "5Av"}, {"#macro N@(p)\n#define k@ p\n .db k@\n#include \"i.inc\"\n#endmacro\n N@(\1)\n", "v5A"}, {" .db __LINE*0,\1\n", "00v"}, {" .db getc(\"i.bin\")*0\n", 0},
};
static const St ez[] = {
	{" ld hl,\2\n", "21W00"}, {" ld.sis hl,\2\n", "4021W"}, {" ld.lil hl,\2\n", "5B21W00"}, {" ld.lis hl,\2\n", "4921W"}, {" ld.sil hl,\2\n", "5221W00"}, {" ld.s a,(hl)\n", "527E"}, {" mlt bc\n", "ED4C"}, {" jp $\n", "C3P00"}, {" jr $\n", "18FE"}, {" lea ix,iy+5\n", "ED5405"}, {" .dw \2\n", "W"}, {" .dl \2\n", "W00"}, {" .assume adl=0\n ld hl,\2\n .assume adl=1\n", "21W"}, {" .assume adl=0\n .assume adl=1\n", ""}, {" ld a,\1\n", "3Ev"}, {" ld (ix+1),hl\n", "DD2F01"}, {" call.is L@\nL@:\n", "49CDZ"}, {" ld hl,W@\nW@ = \2\n", "21W00"}, {" .db \1\n", "v"}, {" in0 a,(\1)\n", "ED38v"}, {" ld.sis bc,W@\nW@ = \2\n", "4001W"}, {" tst a,\1\n", "ED64v"},
};
enum { N = sizeof st / sizeof *st, NE = sizeof ez / sizeof *ez };
static int hv(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }
// one statement and its image; pc is the address. Returns 1 if a warning is due, -1 if the statement is not used
static int stmt(B *b, B *e, const St *t, char id, u32 *pc) {
	u32 v = 0, w = 0, p0 = *pc, p1; int warn = 0; if (!t->e) return -1;
	for (const char *s = t->s; *s; s++) switch (*s) { case '@': b_c(b, id); break; case 1: { char n[3] = {'v', id, 0}; v = b_h(b, n, 2); break; } case 2: { char n[3] = {'w', id, 0}; w = b_h(b, n, 4); break; } default: b_c(b, *s); }
	const char *s; p1 = p0; for (s = t->e; *s; s++) switch (*s) { case 'v': p1++; break; case 'W': case 'S': case 'M': case 'P': case 'Z': case 'X': case 'Y': p1 += 2; break; case '>': p1 += hv(*++s); break; case '~': break; default: s++; p1++; }
	for (s = t->e; *s; s++) switch (*s) { case 'v': b_c(e, v); break; case 'W': e_w(e, w); break; case 'S': e_w(e, v + 1); break; case 'M': e_w(e, w - 1); break; case 'P': e_w(e, p0); break; case 'Z': e_w(e, p1); break; case 'X': e_w(e, p0 + v); break; case 'Y': e_w(e, -v); break; case '>': s++; break; case '~': warn = 1; break; default: b_c(e, hv(s[0]) * 16 + hv(s[1])); s++; }
	*pc = p1; return warn;
}
static void put(const char *n, B *f) { vp_file(n, f->b, f->n); }
void harness(void) {
	B b = mk(), e = mk(); int g = vp_choose(2), T = vp_tier(), n = g ? NE : N; const St *t = g ? ez : st; int i = vp_choose(n), j = vp_choose(n), c = (i + 2 * j) % 7, o = (i * 3 + j) % 6; if (T) c = vp_choose(7); 
	vp_go(); vp_label(g ? "eZ80 statements" : "statements"); u32 pc = 0; int w = 0, k; B x = mk(), y = mk(), z = mk();
	static const char *opt[] = { "-N", "-T", "-L", "-A", "-S", "-C" };
	vp_file("i.inc", " .db $5A\n", 9); vp_file("i.bin", "\1\2\3", 3);
	if (c == 6) { for (const char *q = t[i].s; *q; q++) if (q[0] == '#' && (q[1] == 'm' || q[1] == 'c')) c = 0; for (const char *q = t[j].s; *q; q++) if (q[0] == '#' && (q[1] == 'm' || q[1] == 'c')) c = 0; if (c) { b_c(&e, 0); pc = 1; } }
	if (c == 3) { e_w(&e, 0x1122); pc = 2; }
	k = stmt(&x, &e, t + i, 'a', &pc); if (k < 0) return; w |= k; k = stmt(&y, &e, t + j, 'b', &pc); if (k < 0) return; w |= k; if (c == 5) { k = stmt(&z, &e, t + i, 'c', &pc); w |= k; }
	b_c(&e, 0xA5); 
	switch (c) {
	case 0: case 5: b_mem(&b, x.b, x.n); b_mem(&b, y.b, y.n); b_mem(&b, z.b, z.n); break;
	case 1: put("x.inc", &x); b_s(&b, "#include \"x.inc\"\n"); b_mem(&b, y.b, y.n); break;
	case 2: b_s(&b, "#if 1\n"); b_mem(&b, x.b, x.n); b_s(&b, "#else\n"); b_mem(&b, y.b, y.n); b_s(&b, "#endif\n"); b_mem(&b, y.b, y.n); break;
	case 3: b_s(&b, " .dw $1122\n"); b_mem(&b, x.b, x.n); put("y.inc", &y); b_s(&b, "#include \"y.inc\"\n"); break;
	case 6: b_s(&b, "#macro ZZ()\n nop\n"); b_mem(&b, x.b, x.n); b_mem(&b, y.b, y.n); b_s(&b, "#endmacro\n ZZ()\n"); break;
	case 4: b_s(&b, "#ifndef zz\n"); b_mem(&b, x.b, x.n); b_mem(&b, y.b, y.n); b_s(&b, "#endif\n"); break;
	}
	b_s(&b, " .db $A5\n");
	int r = asm3(&b, opt[o], g ? "-E" : 0, 0); vp_assert(r == (w ? 1 : 0), "the exit status is that of the statements"); same(&e, "the image is that of the statements"); vp_reach(g ? "eZ80" : "Z80");
}
