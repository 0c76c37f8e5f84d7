// C26: code counter and statistics
#include "z80.h"
static int ez, code, mn, mx, zD;            // what -C is to report
// execution times from the encoding: ze->b[s..ze->n), W bytes per address and stack word
static void count(int s) {
	const u8 *b = ze->b + s; int n = ze->n - s, W = !ez ? 2 : zD ? zD : zW, lo, hi;
	code += n;
	if (ez && zsuf) b++;
	int ix = 0; if (b[0] == 0xDD || b[0] == 0xFD) { ix = 1; b++; }
	int op = b[0], x = op >> 6, y = op >> 3 & 7, z = op & 7;
	if (ez) {        // a cycle per byte fetched and per byte read or written, and what the operation adds
		int t = 0, t2 = 0;
		if (op == 0xCB) { int o = ix ? b[2] : b[1]; if ((o & 7) == 6) t = o >> 6 == 1 ? 1 : 3; }
		else if (op == 0xED) {
			int o = b[1], hi4 = o >> 4, y2 = o >> 3 & 7, z2 = o & 7;
			if (o < 0x40) t = z2 == 7 || o == 0x31 || o == 0x3E ? W : z2 < 2 || o == 0x34 ? 1 : 0;          // in0, out0, tst (hl), ld of words; lea, tst
			else if (o < 0x80) {
				if (z2 < 2) t = 1;                                     // in, out
				else if (o == 0x65 || o == 0x66) t = W;                // pea
				else if (z2 == 3) t = W;                               // ld of words at an address
				else if (o == 0x45 || o == 0x4D) t = W + 2;            // retn, reti
				else if (z2 == 4 && y2 & 1) t = 4;                     // mlt
				else if (o == 0x67 || o == 0x6F) t = 3;                // rrd, rld
				else if (o == 0x74) t = 1;                             // tstio
			} else if (o == 0xA1 || o == 0xA9) t = 1;                  // cpi, cpd
			else if (o == 0xB1 || o == 0xB9) { t = 1; t2 = 1; }
			else if (hi4 == 0x9 || hi4 == 0xB || o == 0xC2 || o == 0xC3 || o == 0xCA || o == 0xCB) { t = 1; t2 = 2; }
			else if (o != 0xC7 && o != 0xD7) t = 3;                    // a block transfer
		} else if (x == 1) t = op != 0x76 && (y == 6 || z == 6);
		else if (x == 2) t = z == 6;
		else if (x == 0) {
			if (z == 0) { if (y == 2) t2 = 2; else if (y == 3) t = 1; else if (y > 3) t2 = 1; }
			else if (z == 2) t = y < 4 ? 1 : y < 6 ? W : 1;
			else if (z == 4 || z == 5) t = y == 6 ? 3 : 0;
			else if (z == 6) t = y == 6;
			if (ix && (z == 7 || op == 0x31 || op == 0x3E)) t = W;      // ld of words at (ix+d)
		} else {
			if (z == 0) { t = 1; t2 = W + 2; }
			else if (z == 1) t = !(y & 1) ? W : y == 1 ? W + 2 : y == 5 ? 2 : 0;
			else if (z == 2) t2 = 1;
			else if (z == 3) t = y == 0 ? 1 : y == 2 || y == 3 ? 1 : y == 4 ? 2 * W : 0;
			else if (z == 4) t2 = 3;
			else if (z == 5) t = W;
			else if (z == 7) t = W + 2;
		}
		lo = n + t; hi = lo + t2;
	} else {         // the Z80 manual's T states
		if (op == 0xCB) { int o = ix ? b[2] : b[1]; int bit = o >> 6 == 1; lo = hi = ix ? bit ? 20 : 23 : (o & 7) != 6 ? 8 : bit ? 12 : 15; }
		else if (op == 0xED) {
			int o = b[1], y2 = o >> 3 & 7;
			static const int tz[8] = {12, 12, 15, 20, 8, 14, 8, 9};
			if (o >= 0xA0) { lo = 16; hi = o & 0x10 ? 21 : 16; }
			else lo = hi = (o & 7) == 7 && y2 > 3 ? 18 : tz[o & 7];
		} else {
			static const int b0[8] = {4, 4, 8, 12, 7, 7, 7, 7}, h0[8] = {4, 4, 13, 12, 12, 12, 12, 12}, b2[8] = {7, 7, 7, 7, 16, 16, 13, 13}, b11[8] = {10, 10, 10, 4, 10, 4, 10, 6}, b33[8] = {10, 0, 11, 11, 19, 4, 4, 4};
			hi = 0;
			if (x == 1) lo = op != 0x76 && (y == 6 || z == 6) ? 7 : 4;
			else if (x == 2) lo = z == 6 ? 7 : 4;
			else if (x == 0) {
				if (z == 0) { lo = b0[y]; hi = h0[y]; }
				else lo = z == 1 ? y & 1 ? 11 : 10 : z == 2 ? b2[y] : z == 3 ? 6 : z == 4 || z == 5 ? y == 6 ? 11 : 4 : z == 6 ? y == 6 ? 10 : 7 : 4;
			} else if (z == 0) { lo = 5; hi = 11; }
			else if (z == 4) { lo = 10; hi = 17; }
			else lo = z == 1 ? b11[y] : z == 2 ? 10 : z == 3 ? b33[y] : z == 5 ? y & 1 ? 17 : 11 : z == 6 ? 7 : 11;
			if (!hi) hi = lo;
			if (ix) {
				int mem = x == 1 && (y == 6) != (z == 6) || x == 2 && z == 6 || x == 0 && y == 6 && (z == 4 || z == 5), add = op == 0x36 ? 9 : mem ? 12 : 4;
				lo += add; hi += add;
			}
		}
	}
	mn += lo; mx += hi;
}
// the number reported on the line beginning with the text
static i32 num(const char *key) {
	u8 *q, *p; int m = vp_stdout(&q), n, k = vp_slen(key), seen = 0; i32 v = -1; B t = mk();
	for (int i = 0; i < m; i++) if (!vp_issym(q[i]) && q[i] == 27) { while (i < m && q[i] != 'm') i++; } else b_c(&t, q[i]);
	p = t.b; n = t.n;
	for (int i = 0; i + k < n; i++) {
		if (i && p[i - 1] != '\n') continue;
		int j = 0; while (j < k && p[i + j] == (u8) key[j]) j++;
		if (j < k) continue;
		seen++; v = 0; i += k;
		while (i < n && p[i] >= '0' && p[i] <= '9') v = v * 10 + (p[i++] - '0');
		if (i >= n || p[i] != '\n') v = -2;
	}
	return seen == 1 ? v : -3;
}
static void times(const char *msg) {
	vp_assert(num("Size: ") == code, "the code counter reports the bytes of the instructions");
	vp_assert(num("Min. execution time: ") == mn, "the minimum execution time is the sum of the instructions' times, conditions failing");
	vp_assert(num("Max. execution time: ") == mx, "the maximum execution time is the sum of the instructions' times, conditions holding");
	vp_reach(msg);
}
static void clear(void) { code = mn = mx = 0; }
static int data, labels, defines, nv;
static u32 h(B *b, int k) { return b_h(b, vp_name("v", nv++), k); }
static void ins(int n, int lo, int hi, int elo, int ehi) { code += n; mn += ez ? elo : lo; mx += ez ? ehi : hi; }
// statements of every kind with what they count
enum { NF = 36 };
static void frag(B *b, int k, int u) {
	char *L = vp_name("La", u), *F = vp_name("Fw", u), *D = vp_name("De", u); int w = ez ? 3 : 2, a = ez; u32 v;
	switch (k) {
	case 0: b_s(b, " .db "); h(b, 2); b_s(b, ","); h(b, 2); b_s(b, "\n"); data += 2; break;
	case 1: b_s(b, L); b_s(b, ": .dw "); h(b, 4); b_s(b, ","); b_s(b, F); b_s(b, "\n"); b_s(b, F); b_s(b, " = "); h(b, 4); b_s(b, "\n"); data += 4; labels += 2; break;
	case 2: b_s(b, " .dl "); h(b, 6); b_s(b, ",1+2,"); b_s(b, F); b_s(b, "\n"); b_s(b, F); b_s(b, ":\n"); data += 9; labels++; break;
	case 3: b_s(b, " .db \"a;b\\\\n\",0,\"\"\n .dw \"cd\"\n"); data += 8 - 0; break;
	case 4: b_s(b, " .fill "); v = h(b, 1); b_s(b, ","); h(b, 2); b_s(b, "\n"); data += vp_concrete(v); break;
	case 5: b_s(b, " .block 2*"); v = h(b, 1); b_s(b, "\n"); data += 2 * vp_concrete(v); break;
	case 6: b_s(b, " ld a,"); h(b, 2); b_s(b, "\\ ld hl,"); b_s(b, F); b_s(b, "+"); h(b, 2); b_s(b, "\n"); b_s(b, F); b_s(b, " .equ "); h(b, 3); b_s(b, "\n"); ins(3 + w, 17, 17, 5 + a, 5 + a); labels++; break;
	case 7: b_s(b, L); b_s(b, ": jr nz,"); b_s(b, F); b_s(b, "\n call z,"); h(b, 4); b_s(b, "\n"); b_s(b, F); b_s(b, ": ret nc\n"); ins(4 + w, 22, 40, 7 + a, 15 + 2 * a); labels += 2; break;
	case 8: b_s(b, "#macro Mac(P,Q)\n ld b,P\n .db Q,1\n#endmacro\n Mac("); h(b, 2); b_s(b, ",2)\n Mac("); b_s(b, F); b_s(b, ","); h(b, 2); b_s(b, ")\n"); b_s(b, F); b_s(b, " = "); h(b, 2); b_s(b, "\n#undef Mac\n"); ins(4, 14, 14, 4, 4); data += 4; labels++; break;
	case 9: b_s(b, "#define "); b_s(b, D); b_s(b, "(P) P+"); h(b, 1); b_s(b, "\n .db "); b_s(b, D); b_s(b, "(3)\n ld e,"); b_s(b, D); b_s(b, "("); h(b, 1); b_s(b, ")\n"); ins(2, 7, 7, 2, 2); data++; defines++; break;
	case 10: b_s(b, "X = "); v = h(b, 1); b_s(b, "\n#if X<5\n ldir\n#elif X==7\n .dw X\n#else\n push bc\\ .db 1\n#endif\n"); labels++;
		if (v < 5) ins(2, 16, 21, 3, 5); else if (v == 7) data += 2; else { ins(1, 11, 11, 3 + a, 3 + a); data++; } break;
	case 11: b_s(b, "#include \"b.inc\"\n"); ins(2, 8, 8, 2, 2); data += 3; break;
	case 12: b_s(b, "#import \"b.dat\"\n"); data += 5; break;
	case 13: b_s(b, L); b_s(b, "=1\n"); b_s(b, F); b_s(b, " = "); h(b, 2); b_s(b, "\n"); labels += 2; break;
	case 14: b_s(b, "; nop\n#comment\n nop\n .db 1\n#endcomment\n#if 0\n nop\n .db 1\n#endif\n"); break;
	case 15: b_s(b, " .org "); h(b, 3); b_s(b, "\n"); b_s(b, L); b_s(b, ":\n halt\n"); ins(1, 4, 4, 1, 1); labels++; break;
	case 16: b_s(b, " wr(\" exx\")\\ wr(\" .db 1,2\")\\ run()\n"); ins(1, 4, 4, 1, 1); data += 2; break;
	case 17: b_s(b, " .nolist\n inc hl\n .db "); h(b, 2); b_s(b, "\n .list\n"); ins(1, 6, 6, 1, 1); data++; break;
	case 18: b_s(b, "_: djnz -_\n jr +_\n_: nop\n"); ins(5, 8 + 12 + 4, 13 + 12 + 4, 2 + 3 + 1, 4 + 3 + 1); break;
	case 19: b_s(b, "#define "); b_s(b, D); b_s(b, " 1\n#define "); b_s(b, D); b_s(b, "x\n#undef "); b_s(b, D); b_s(b, "\n#ifdef "); b_s(b, D); b_s(b, "\n nop\n#endif\n"); defines++; break;
	case 20: b_s(b, " bit "); v = vp_pick("bit", "01234567"); b_c(b, v); b_s(b, ",(ix+"); h(b, 1); b_s(b, ")\n set "); b_c(b, v); b_s(b, ",(hl)\n"); ins(6, 20 + 15, 20 + 15, 5 + 5, 5 + 5); break;
	case 21: b_s(b, " jp $\\ jp c,$+"); h(b, 1); b_s(b, "\n call $\n"); ins(3 + 3 * w, 10 + 10 + 17, 37, ez ? 5 + 4 + 7 : 12, ez ? 5 + 5 + 7 : 13); break;
	case 22: b_s(b, " .addinstr FOO * CB 3 NOP 1\n FOO "); h(b, 4); b_s(b, "\n"); code += 1 + w; break;
	case 23: b_s(b, "Yy .equ 1\n"); b_s(b, L); b_s(b, ": .db Yy,"); b_s(b, L); b_s(b, "-"); b_s(b, L); b_s(b, "\n"); labels += 2; data += 2; break;
	case 24: b_s(b, " .echo \"\"\n .db 'a',';','\\''\n"); data += 3; break;
	case 25: b_s(b, " .byte "); h(b, 2); b_s(b, "\n .word "); h(b, 4); b_s(b, "\n .long 1\n"); data += 1 + 2 + 3; break;
	case 26: b_s(b, " .fill "); v = h(b, 1); b_s(b, "*100,"); h(b, 2); b_s(b, "\n"); data += 100 * vp_concrete(v); break;
	case 27: b_s(b, "#define "); b_s(b, D); b_s(b, " ret z\n "); b_s(b, D); b_s(b, "\\ "); b_s(b, D); b_s(b, "\n"); ins(2, 10, 22, 4, 12 + 2 * a); defines++; break;
	case 28: b_s(b, "#macro "); b_s(b, D); b_s(b, "\n ld (hl),"); h(b, 2); b_s(b, "\n rst 8\n#endmacro\n "); b_s(b, D); b_s(b, "\n"); ins(3, 21, 21, 8 + a, 8 + a); defines++; break;
	case 29: b_s(b, "#define "); b_s(b, D); b_s(b, " "); h(b, 2); b_s(b, "\n#define "); b_s(b, D); b_s(b, " 5\n"); defines++; break;
	// diagnosed statements: those that emit nothing and those that do
	case 30: b_s(b, " .db 1/("); h(b, 1); b_s(b, "-3-"); b_s(b, F); b_s(b, ")\n"); b_s(b, F); b_s(b, "=2\n"); data++; labels++; break;
	case 31: b_s(b, " jr "); b_s(b, F); b_s(b, "\n"); b_s(b, F); b_s(b, " = $3+"); h(b, 3); b_s(b, "\n"); ins(2, 12, 12, 3, 3); labels++; break;
	case 32: b_s(b, " ld a,Und\n"); ins(2, 7, 7, 2, 2); break;
	case 33: b_s(b, " .db Und\n"); data++; break;
	case 34: b_s(b, " ld a,"); h(b, 3); b_s(b, "\n .db "); h(b, 3); b_s(b, "\n"); ins(2, 7, 7, 2, 2); data++; break;
	case 35: b_s(b, " bit "); b_s(b, F); b_s(b, ",a\n"); b_s(b, F); b_s(b, " = "); h(b, 1); b_s(b, "\n"); ins(2, 8, 8, 2, 2); labels++; break;
	}
}
static const char *ext[] = {"a.bin", "a.8xp", "a.hex"};
static void inputs(void) { static const char inc[] = " nop\n .db 1,2\\ ld c,b\n .db 3\n"; vp_file("b.inc", inc, sizeof inc - 1); vp_file("b.dat", "QRS;\n", 5); }
static void opts(int o) {
	if (ez) vp_arg("-E");
	switch (o) {
	case 0: vp_arg("-S"); break;
	case 1: vp_arg("-C"); break;
	case 2: vp_arg("-C"); vp_arg("-S"); break;
	case 3: vp_arg("-S"); vp_arg("-T"); vp_arg("-L"); break;
	case 4: vp_arg("-S"); vp_arg("-O"); break;
	case 5: vp_arg("-C"); vp_arg("-O"); break;
	case 6: vp_arg("-S"); vp_arg("-A"); vp_arg("-C"); vp_arg("-T"); break;
	case 7: vp_arg("-C"); vp_arg("-O"); vp_arg("-S"); vp_arg("-N"); break;
	}
	vp_arg("a.asm"); vp_arg("a.bin");
}
// operations with a mode suffix: operands are as long as the second letter says, words in memory and on the stack as the first
static void suffixed(int part) {
	int i, j; static const char *rr[4] = {"bc", "de", "hl", "sp"};
	switch (part) {
	case 0: for (i = 0; i < 4; i++) { J("ld %,@w", rr[i], 0, "%@w", i << 4 | 1, 0); } for (j = 0; j < 2; j++) J("ld %,@w", zix[j], 0, "%21@w", zpre[j], 0); S("ld a,(@w)", "3A@w"); S("ld (@w),a", "32@w"); break;
	case 1: S("ld hl,(@w)", "2A@w"); S("ld (@w),hl", "22@w"); for (i = 0; i < 4; i++) if (i != 2) { J("ld %,(@w)", rr[i], 0, "ED%@w", 0x4B | i << 4, 0); J("ld (@w),%", rr[i], 0, "ED%@w", 0x43 | i << 4, 0); } for (j = 0; j < 2; j++) { J("ld %,(@w)", zix[j], 0, "%2A@w", zpre[j], 0); J("ld (@w),%", zix[j], 0, "%22@w", zpre[j], 0); } break;
	case 2: for (i = 0; i < 4; i++) { J("push %", zqq[i], 0, "%", 0xC5 | i << 4, 0); J("pop %", zqq[i], 0, "%", 0xC1 | i << 4, 0); } for (j = 0; j < 2; j++) { J("push %", zix[j], 0, "%E5", zpre[j], 0); J("pop %", zix[j], 0, "%E1", zpre[j], 0); J("ex (sp),%", zix[j], 0, "%E3", zpre[j], 0); J("pea %@d", zix[j], 0, "ED%@d", 0x65 + j, 0); } S("ex (sp),hl", "E3"); break;
	case 3: for (i = 0; i < 3; i++) { J("ld %,(hl)", rr[i], 0, "ED%", i << 4 | 7, 0); J("ld (hl),%", rr[i], 0, "ED%", i << 4 | 15, 0); } for (j = 0; j < 2; j++) for (i = 0; i < 3; i++) { J("ld %,(%@d)", rr[i], zix[j], "%%@d", zpre[j], i << 4 | 7); J("ld (%@d),%", zix[j], rr[i], "%%@d", zpre[j], i << 4 | 15); } break;
	case 4: S("ld a,(hl)", "7E"); S("ld (hl),@n", "36@n"); S("add hl,de", "19"); S("ldir", "EDB0"); S("cpir", "EDB1"); S("inc (hl)", "34"); S("bit 3,(hl)", "CB5E"); S("set 3,(iy@d)", "FDCB@dDE"); S("ld sp,hl", "F9"); S("lea hl,ix@d", "ED22@d"); S("mlt bc", "ED4C"); S("jp c,@w", "DA@w"); S("jr nz,$+3", "2000"); break;
	}
}
static void code_count(BP o, BP e, const char *msg) {
	int r = asm3(o, "-C", ez ? "-E" : 0, 0); vp_assert(r == 0, "a valid program assembles with exit status 0"); same(e, "the code counter writes the same output"); times(msg);
}
void harness(void) {
	B b = mk(), e = mk(), d = mk(), o = mk(); int g = vp_choose(5), T = vp_tier(); clear(); data = labels = defines = nv = 0; zhook = count; zsuf = 0; zD = 0; ez = g > 0;
	if (g < 3) {         // every form of the Z80, of the eZ80, and those the eZ80 adds
		int f = vp_choose(g < 2 ? Z80_FAMS + ALT_FAMS : EZ_FAMS), k = vp_choose(g ? 2 : 3), how = g == 0 ? k : T ? vp_choose(3) : f % 3; zparts = 16; zpart = vp_choose(16); vp_go();
		vp_label(g ? g == 1 ? "Z80 forms on the eZ80" : "eZ80 additions" : "Z80 forms"); zW = g && k ? 3 : 2;
		if (g && !k) b_s(&b, " .assume adl=0\n");
		z_begin(&b, &e, &d, how); if (g == 2) ez80_family(f); else if (f < Z80_FAMS) z80_family(f, g); else alt_family(f - Z80_FAMS, g); z_end(&o);
		if (e.n == 1) return;
		code_count(&o, &e, g ? "eZ80 execution times" : "Z80 execution times");
	} else if (g == 3) { // suffixes
		static const char *sn[8] = {".sis", ".lis", ".sil", ".lil", ".s", ".l", ".is", ".il"};
		int part = vp_choose(5), sx = vp_choose(8), adl = vp_choose(2), how = vp_choose(3); zparts = 4; zpart = vp_choose(4); vp_go(); vp_label(sn[sx]);
		int L = sx < 4 ? sx & 1 : sx == 4 ? 0 : sx == 5 ? 1 : adl, I = sx < 4 ? sx >> 1 : sx == 6 ? 0 : sx == 7 ? 1 : adl;
		if (!adl) b_s(&b, " .assume adl=0\n");
		zsuf = sn[sx]; zsufb = I ? L ? 0x5B : 0x52 : L ? 0x49 : 0x40; zW = I ? 3 : 2; zD = L ? 3 : 2;
		z_begin(&b, &e, &d, how); suffixed(part); z_end(&o);
		code_count(&o, &e, "execution times with a suffix");
	} else {
		int x = vp_choose(NF), y = vp_choose(NF), op = T ? vp_choose(8) : (x + y * 3) % 8; ez = T ? vp_choose(2) : x / 8 + y & 1; vp_go(); vp_label("programs");
		static const u8 k0[8] = {1, 2, 3, 1, 1, 2, 3, 3}; int S_ = k0[op] & 1, C_ = k0[op] & 2; u8 *p;
		int base = 0;
		if (S_) { vp_file("a.asm", "", 0); opts(op); vp_run(); base = num("Number of defines: "); vp_assert(num("Number of labels: ") == 0 && num("Total size: ") == 0, "an empty program has no labels and no bytes"); vp_clear(); }
		frag(&b, x, 0); frag(&b, y, 1); inputs(); vp_file("a.asm", b.b, b.n);
		if (x == y && (x == 8 || x == 10 || x == 22 || x == 23)) return;
		opts(op); int r = vp_run();
		if (r == 3) { vp_assert(x >= 30 || y >= 30, "a valid program has no fatal errors"); vp_reach("fatal"); return; }
		if (x < 30 && y < 30) vp_assert(r < 2, "a valid program assembles");
		if (C_) times("code counter");
		if (S_) {
			vp_assert(num("Code size: ") == code, "the bytes of instructions are the code size");
			vp_assert(num("Data size: ") == data, "the bytes of data directives, imported files and bitmaps are the data size");
			vp_assert(num("Total size: ") == code + data, "the total is the sum");
			vp_assert(num("Number of labels: ") == labels, "the number of labels");
			vp_assert(num("Number of defines: ") == base + defines, "the number of defines");
			vp_reach("statistics");
		}
		if (op != 4 && op != 5 && op != 7 && x < 30 && y < 30) { int n = vp_out("a.bin", &p); vp_assert(n == code + data, "the sizes are those of the output"); vp_reach("output"); }
	}
}
