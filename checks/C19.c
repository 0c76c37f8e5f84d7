// C19: .addinstr instructions assemble as declared without disturbing others
#include "z80.h"
// declared arguments, number of operands, a use with @ for the operands
static const char *pat[] = {"\"\"", "a", "(hl+)", "a,(hl+)", "*", "(*)", "*,a", "a,*", "*,*", "(ix),*", "*,*,*", "hl,(*)", "(*),b", "x*"};
static const int pw[] = {0, 0, 0, 0, 1, 1, 1, 1, 2, 1, 3, 1, 1, 1};
enum { NPAT = 14 };
static const char *mnem[] = {"foo", "ld", "b_call", "nop", "zz9", "inc"};
static int hexd(int x) { return x; }
void harness(void) {
	B src = mk(), e = mk(), post = mk(), d = mk(); int T = vp_tier(), g = vp_choose(3);
	if (g == 0) {
		int p = vp_choose(NPAT), ob = vp_choose(8), m, ed, how, ez, wide;
		ob++; int x = p + ob * 3;
		if (T) { m = vp_choose(6); ed = vp_choose(2); how = vp_choose(3); ez = vp_choose(2); wide = vp_choose(3); }
		else { m = x % 6; ed = vp_choose(2); how = (x + ed) % 3; ez = x / 3 % 2; wide = vp_choose(3); }
		if (m == 1 || m == 3 || m == 5) if (p == 0 || p == 1 || (p >= 4 && p != 9 && p != 10 && p != 13)) m = m == 1 ? 0 : m == 3 ? 2 : 4;   // would match built-in forms too
		if (!pw[p] && wide) { vp_done(); return; }
		if (wide == 1 && pw[p] < 2) wide = 0;
		zparts = 24; zpart = x % 24; int f = x * 5 % Z80_FAMS; zW = ez ? 3 : 2;
		vp_go(); vp_label("declared instructions");
		// operand sizes: all one byte, the first of several two, all two
		int sz[3] = {1, 1, 1}, tot = 0; for (int i = 0; i < pw[p]; i++) { if (wide == 2 || (wide == 1 && i == 0)) sz[i] = 2; tot += sz[i]; }
		// built-in instructions before the declaration
		z_begin(&src, &e, &d, 0); z80_family(f, ez);
		u8 op[8]; b_s(&src, x & 1 ? " .addinstr " : "\t.ADDINSTR\t"); b_s(&src, mnem[m]); b_s(&src, x & 2 ? " " : " \t "); b_s(&src, pat[p]); b_s(&src, x & 2 ? "\t" : " ");
		for (int i = ob; i--;) { u8 h = vp_byte(vp_name("h", i), vp_nib, 16), l = vp_byte(vp_name("l", i), vp_nib, 16); op[i] = h << 4 | l; b_c(&src, (x & 4 ? vp_HEX : vp_hexl)[h]); b_c(&src, vp_HEX[l]); }
		b_c(&src, ' '); if (x % 3) b_u(&src, ob + tot + ed); else { b_s(&src, "$"); b_x(&src, ob + tot + ed, 2); }
		u8 end = 0;
		if (ed) { b_s(&src, " NOP 1 "); u8 h = vp_byte("eh", vp_nib, 16), l = vp_byte("el", vp_nib, 16); end = h << 4 | l; b_c(&src, vp_HEX[h]); b_c(&src, vp_HEX[l]); }
		else if (x & 1) b_s(&src, " NOP 1");
		b_s(&src, x & 8 ? "\n" : " ; comment\n");
		int nl = 0;
		for (int u = 0; u < 2; u++) {           // two uses, the second in upper case and with blanks
			b_s(&src, u ? "l1 " : " "); u32 v[3]; int k = 0;
			for (const char *q = mnem[m]; *q; q++) b_c(&src, u && *q >= 'a' && *q <= 'z' ? *q - 32 : *q);
			const char *q = pat[p]; if (*q == '"') q = ""; else b_c(&src, ' ');
			for (; *q; q++) {
				if (*q == '*') {
					const char *nm = vp_name(vp_name("v", u), k); B t = mk();
					v[k] = b_h(&t, nm, ez && sz[k] == 2 ? 6 : 2 * sz[k]); if (u && wide) { b_s(&t, "&$"); b_x(&t, 0xFFFFFF, 6); }
					if (how) { b_s(&src, "s"); b_s(&src, nm); BP dd = how == 1 ? &d : &post; b_c(dd, 's'); b_s(dd, nm); b_s(dd, " = "); b_mem(dd, t.b, t.n); b_c(dd, '\n'); }
					else b_mem(&src, t.b, t.n);
					k++;
				} else { b_c(&src, u && *q >= 'a' && *q <= 'z' ? *q - 32 : *q); if (u && *q == ',') b_c(&src, ' '); }
			}
			b_s(&src, u ? " ; comment\n" : "\\ ret\n");
			for (int i = 0; i < ob; i++) b_c(&e, op[i]);
			for (int i = 0; i < pw[p]; i++) { int w = sz[i] == 2 && ez ? 3 : sz[i]; for (int j = 0; j < w; j++) b_c(&e, (v[i] >> 8 * j) & 255); }
			if (ed) b_c(&e, end);
			if (!u) { b_c(&e, 0xC9); nl = e.n; }
		}
		b_s(&src, " .dw l1\\ .dw $\n"); int here = e.n + 2; e_w(&e, nl); e_w(&e, here);
		// built-in instructions, also those of the same name
		zskip = 0; z80_family(f, ez); b_s(&src, " nop\n ld a,(hl)\n ld (ix+3),5\n inc hl\n inc (hl)\n");
		{ static const u8 t[] = {0, 0x7E, 0xDD, 0x36, 3, 5, 0x23, 0x34}; b_mem(&e, t, 8); }
		B o = mk(); b_mem(&o, d.b, d.n); b_mem(&o, src.b, src.n); b_mem(&o, post.b, post.n);
		good(&o, ez ? "-E" : 0, &e, "added instructions assemble as declared and others as before");
	} else if (g == 1) {         // built-in instructions after declarations of the same mnemonics
		int f = vp_choose(Z80_FAMS), ez = vp_choose(2); zparts = T ? 2 : 8; zpart = T ? vp_choose(2) : f % 8; zW = ez ? 3 : 2; vp_go(); vp_label("built-in instructions");
		z_begin(&src, &e, &d, 0);
		b_s(&src, " .addinstr ld (bc+),a 0302 2 NOP 1\n .addinstr add a,(hl+) 2386 2\n .addinstr inc (hl+) 2334 2\n .addinstr bit *,(hl+) 23 2\n .addinstr rl (hl-) 2B16CB 3\n .addinstr push (*) FD 3\n .addinstr jp (de) C9D5 2\n .addinstr out c,*,* D3 3\n .addinstr nop * FD 2\n .addinstr sub a,(hl+) 2396 2\n");
		z80_family(f, ez);
		B o = mk(); z_end(&o); b_s(&o, " ld (bc+),a\n rl (hl-)\n out c,5,6\n push ($1234)\n jp (de)\n nop 7\n");
		{ static const u8 t[] = {0x02, 3, 0xCB, 0x16, 0x2B, 0xD3, 5, 6, 0xFD, 0x34, 0x12}, t2[] = {0xD5, 0xC9, 0xFD, 7}; b_mem(&e, t, 11); if (ez) b_c(&e, 0); b_mem(&e, t2, 4); }
		good(&o, ez ? "-E" : 0, &e, "built-in instructions of the same names assemble as before");
	} else {                      // incomplete or inconsistent declarations
		static const char *badd[] = {" .addinstr", " .addinstr foo", " .addinstr foo *", " .addinstr foo * FD", " .addinstr foo * FD ; 3", " .addinstr foo * ; FD 3", " .addinstr foo * F? 3", " .addinstr foo *,*,*,* FD 5",
			" .addinstr foo * FD 1", " .addinstr foo * FD 4", " .addinstr foo \"\" FD 2", " .addinstr foo * 112233445566778899 10", " .addinstr foo *,* FD 2", " .addinstr foo *,a,* FD 6", " .addinstr foo * FD 3 NOP 1 C9 ; \\", " .addinstr foo * FG 3", " .addinstr foo * FD 0"};
		int k = vp_choose(17), ez = vp_choose(2); vp_go(); vp_label("invalid declarations");
		b_s(&src, " .db 1\n");
		for (const char *q = badd[k]; *q; q++) { if (*q == '?') b_c(&src, vp_byte("x", "GZgz_.?*\"'", 10)); else b_c(&src, *q); }
		b_s(&src, "\n nop\n");
		if (k == 14) { b_c(&e, 1); b_c(&e, 0); good(&src, ez ? "-E" : 0, &e, "a complete declaration"); }
		else bad(&src, ez ? "-E" : 0, "SE126", "an incomplete declaration is SE126");
	}
}
