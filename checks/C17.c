// C17: letter case in mnemonics, registers, directives, digits and names
#include "z80.h"
static int nsym;
static int letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
// s with the case of its letters symbolic; quoted text, and with names kept what is written in upper case, left alone
static void cased(B *d, const u8 *s, int n, int keep) {
	int q = 0;
	for (int i = 0; i < n; i++) {
		u8 c = s[i];
		if (vp_issym(c)) { b_c(d, c); continue; }
		if (c == '"') q = !q;
		if (c == '\'' && s[i + 2] == '\'') { b_mem(d, s + i, 3); i += 2; continue; }
		if (q || !letter(c) || (keep && c < 'a')) { b_c(d, c); continue; }
		u8 dom[2] = { c | 32, c & ~32 };
		b_c(d, vp_byte(vp_name("c", nsym++), dom, 2));
	}
}
static const char *ez_suf[4] = {".sis", ".lis", ".sil", ".lil"};
// names in upper case, everything else in lower case
static const char *prog[] = {
	" .org $12ab\nLA: .db $0a,$ff\n .byte 0c3h\n .dw 10101b,99d\n .word 0fah\n .dl $abcdef\n .long %101\nLB .dw LB-LA\n",
	" .fill 3,$ea\n .block 2\n .seek 3\n .seek 8\n .db $be\nX .equ $ad\nY .EQU 5\n .db X,Y\nZ = $fe\n .db Z\n",
	"#define DEF $a1\n#define FUN(P,Q) P-Q+DEF\n .db DEF,FUN(5,$c)\n#undef DEF\n#ifdef DEF\n .db 1\n#else\n .db 2\n#endif\n#ifndef DEF\n nop\n#endif\n#undefine FUN\n#define DEF 3\n .db DEF\n",
	"#macro MAC(ARG,BRG)\n .db ARG\n ld a,BRG\n jr c,EXIT\n#endmacro\n MAC($ab,FWD)\n nop\nEXIT:\nFWD = $cd\n MAC(3,FWD)\n",
	"#define ON 1\n#if ON==0\n nop\n#elif ON==1\n ret\n#else\n halt\n#endif\n#comment\n bogus $zz\n#endcomment\n#region\n di\n#endregion\n",
	"#include \"b.inc\"\n ld a,(INC)\n#import \"b.dat\"\n#define BIG $aa\n#defcont +1\n .db BIG\n",
	" .list\n .nolist\n .db \"Text\",'x'\n .list\n .echo \"Hello \",LA\nLA: ld a,'q'\n .echo LA,\" there\"\n .end\n",
	" .addinstr foo *,a cbfd 4 nop 1\n foo $ab12,a\n .addinstr xyz \"\" fe 1 nop 1\n xyz\n foo LX,a\nLX: ret\n",
	" wr(\" .db 5\")\\ run()\n clr()\\ wr(\" nop\")\\ run(0)\n#define S concat(\"A\",1)\n .db S\nA1 = 7\n#define E eval(5+$a)\n .db E\n",
	" ld a,NUM&$f\n ld (ix+OFS),NUM\n bit BITN,(iy-OFS)\n djnz LP\nLP: jr nz,LP\n rst 10h\n im 1\nNUM .equ 0abh\nOFS = 0ch\nBITN = 5\n ex af,af'\n jp (hl)\n",
	"_ jr _\n_: djnz -_\n jr --_\nALPHABETA: call ALPHABETA\n call GAMMA1\nGAMMA1: ld b,ALPHABETA+$a\n",
	" .db $a\\ .dw $b\\ nop ; comment\n in a,($fe)\n out (c),l\n sub a,h\n sub h\n ldir\n xor a\n ld hl,(ADR)\n sbc hl,de\nADR:\n",
};
enum { NP = 12 };
static u8 hexany[22] = {'0','1','2','3','4','5','6','7','8','9','a','b','c','d','e','f','A','B','C','D','E','F'};
static u32 anyhex(B *b, const char *nm, int k) { u32 v = 0; for (int i = 0; i < k; i++) { u8 x = vp_byte(vp_name(nm, i), hexany, 22); b_c(b, x); v = v << 4 | (x <= '9' ? x - '0' : (x | 32) - 'a' + 10); } return v; }
static const char *nm4[4] = {"qx", "Qx", "qX", "QX"};
static void name(B *b, int i, u8 s[2], const char *v) { static u8 d0[2] = {'q', 'Q'}, d1[2] = {'x', 'X'}; s[0] = vp_byte(vp_name(v, 0), d0, 2); s[1] = vp_byte(vp_name(v, 1), d1, 2); }
void harness(void) {
	B b = mk(), e = mk(), d = mk(), o = mk(), t = mk(), img = mk(); u8 *p; int n, g = vp_choose(4), T = vp_tier(); nsym = 0;
	if (g == 0) {
		int f = vp_choose(Z80_FAMS), A = vp_choose(2), how = vp_choose(3); zparts = T ? 4 : 16; zpart = T ? vp_choose(4) : (f * 5 + A * 3 + how * 7 + vp_choose(4) * 4) % 16; vp_go(); vp_label("Z80 forms");
		z_begin(&b, &e, &d, how); z80_family(f, 0); z_end(&o);
		cased(&t, o.b, o.n, 0); if (A && how) { t = mk(); for (int i = 0; i < o.n; i++) if (!vp_issym(o.b[i]) && o.b[i] == 's' && o.b[i + 1] == 'y' && o.b[i + 2] == 'm') { o.b[i] = 'S'; o.b[i + 1] = 'Y'; o.b[i + 2] = 'M'; } cased(&t, o.b, o.n, 1); }
		good(&t, A ? "-A" : 0, &e, A ? "mnemonics and registers in any case with -A" : "mnemonics, registers and names in any case");
	} else if (g == 1) {
		int f = vp_choose(EZ_FAMS), A = vp_choose(2), s = vp_choose(5); zparts = T ? 1 : 3; zpart = (f + s) % zparts; vp_go(); vp_label("eZ80 forms");
		zW = 3; if (s < 4) { zsuf = ez_suf[s]; zsufb = s == 3 ? 0x5B : s == 2 ? 0x52 : s == 1 ? 0x49 : 0x40; zW = s >= 2 ? 3 : 2; }
		z_begin(&b, &e, &d, 0); ez80_family(f); zsuf = 0; z_end(&o); cased(&t, o.b, o.n, 0);
		vp_file("a.asm", t.b, t.n); vp_arg("-E"); if (A) vp_arg("-A"); vp_arg("a.asm"); vp_arg("a.bin");
		int r = vp_run(); vp_assert(r == 0, "a valid program assembles with exit status 0"); same(&e, "eZ80 mnemonics, registers and suffixes in any case"); vp_reach("eZ80 mnemonics, registers and suffixes in any case");
	} else if (g == 2) {
		int k = vp_choose(NP), A = vp_choose(2), ez = vp_choose(2), up = vp_choose(2); vp_go(); vp_label("directives");
		// with names in one case, and (without -A) in any case
		B x = mk(); if (ez) b_s(&x, " .assume adl=0\n"); b_s(&x, prog[k]); vp_file("b.inc", "INC = 7\n", 8); vp_file("b.dat", "QRS", 3);
		if (A && up) for (int i = 0, q = 0; i < x.n; i++) { if (x.b[i] == '"') q = !q; }
		int r0 = asm3(&x, ez ? "-E" : 0, 0, 0); n = vp_out("a.bin", &p); vp_assert(r0 == 0 && n > 0, "a valid program assembles with exit status 0"); if (n < 0) return; b_mem(&img, p, n);
		u8 *so; int sn = vp_stdout(&so); B s0 = mk(); b_mem(&s0, so, sn);
		if (A || up) { cased(&t, x.b, x.n, 1); } else cased(&t, x.b, x.n, 0);
		int r = A ? asm3(&t, "-A", ez ? "-E" : "-N", 0) : asm3(&t, ez ? "-E" : 0, 0, 0);
		vp_assert(r == 0, "a valid program assembles with exit status 0"); same(&img, "directives and names in any case");
		vp_reach(A ? "directives in any case with -A" : "directives and names in any case");
		if (k == 6) vp_assert(vp_said("Hello ") == 1 && vp_said(" there") == 1, ".echo in any case");
	} else {
		// two symbols whose names differ at most in case
		int kind = vp_choose(7), A = vp_choose(2), dg = vp_choose(2); vp_go(); vp_label("names"); u8 s1[2], s2[2], s3[2];
		name(0, 0, s1, "m"); name(0, 0, s2, "n"); name(0, 0, s3, "r");
		u32 v1 = 0, v2 = 0; int e12 = vp_concrete(s1[0] == s2[0] && s1[1] == s2[1]), e13 = vp_concrete(s1[0] == s3[0] && s1[1] == s3[1]), e23 = vp_concrete(s2[0] == s3[0] && s2[1] == s3[1]);
		if (!A) e12 = e13 = e23 = 1;
		if (kind >= 4 && kind < 6 && A) vp_assume(!e12);   // a label or macro is not defined twice
		B *q = &o; int use = 0;
		const char *dl = dg ? "0" : "$";
		#define NAME(s) { b_c(q, s[0]); b_c(q, s[1]); }
		#define VAL(v, i) { b_s(q, "$"); v = anyhex(q, i ? "w" : "v", 2); }
		if (kind == 1) { b_s(q, " .db "); NAME(s3); b_s(q, "\n"); }      // forward reference
		switch (kind) {
		case 0: case 1: NAME(s1); b_s(q, " = "); VAL(v1, 0); b_s(q, "\n"); NAME(s2); b_s(q, dg ? " .Equ " : " .equ "); VAL(v2, 1); b_s(q, "\n"); break;
		case 2: b_s(q, "#define "); NAME(s1); b_c(q, ' '); VAL(v1, 0); b_s(q, "\n#Define "); NAME(s2); b_c(q, ' '); VAL(v2, 1); b_s(q, "\n"); break;
		case 3: b_s(q, "#define "); NAME(s1); b_s(q, "(P) p+"); VAL(v1, 0); b_s(q, "\n#define "); NAME(s2); b_s(q, "(P) p+"); VAL(v2, 1); b_s(q, "\n"); if (A) for (int i = 0; i < q->n; i++) if (q->b[i] == 'p' && !vp_issym(q->b[i + 1]) && q->b[i + 1] == '+') q->b[i] = 'P'; break;
		case 4: b_s(q, " .org "); v1 = 0x81; v2 = 0x82; b_s(q, "$81\n"); NAME(s1); b_s(q, ": nop\n"); b_c(&e, 0); if (A) { NAME(s2); b_s(q, "\n"); } else v2 = v1; break;
		case 5: b_s(q, "#macro "); NAME(s1); b_s(q, "\n .db "); VAL(v1, 0); b_s(q, "\n#endmacro\n"); if (!A) { v2 = v1; break; } b_s(q, "#Macro "); NAME(s2); b_s(q, "()\n .DB "); VAL(v2, 1); b_s(q, "\n#EndMacro\n"); break;
		case 6: b_s(q, "#define "); NAME(s1); b_s(q, "\n#undef "); NAME(s2); b_s(q, "\n#ifdef "); NAME(s3); b_s(q, "\n .db $d\n#else\n .db $e\n#endif\n"); b_c(&e, e13 && !e23 ? 0xD : 0xE); use = 1; break;
		}
		int bound = e23 || e13; u32 v = e23 ? v2 : v1;
		if (use) good(q, A ? "-A" : 0, &e, "names");
		else {
			if (kind == 5) { b_c(q, ' '); NAME(s3); b_s(q, "()\n"); b_c(&e, v); }
			else if (kind == 3) { b_s(q, " .db "); NAME(s3); b_s(q, "($c)\n"); b_c(&e, v + 12); vp_assume(v < 0xF0); }
			else { if (kind != 1) { b_s(q, " .db "); NAME(s3); b_s(q, "\n"); } b_c(&e, v); }
			if (bound && kind < 4 && e12) { int r = asm3(q, A ? "-A" : 0, 0, 0); vp_assert(r <= 1, "a redefinition is at most a warning"); same(&e, "names differing in case are the same"); vp_reach("names differing in case are the same"); }
			else if (bound) good(q, A ? "-A" : 0, &e, A ? "names differing in case are distinct with -A" : "names differing in case are the same");
			else { int r = asm3(q, A ? "-A" : 0, 0, 0); vp_assert(r >= 2, "a name defined in another case only is undefined with -A"); vp_reach("a name defined in another case only is undefined with -A"); }
		}
	}
}
