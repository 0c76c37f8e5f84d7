// Zilog encodings. J(source, a, b, code, p, x): in the source % stands for the texts a then b, and @n/@w/@d for an 8-bit
// operand, an address-width operand and a signed index displacement; in the code % stands for the bytes p then x, @n/@w/@d
// for the operand bytes and hexadecimal digits for themselves.
#include "h.h"
static BP zb, ze, zdef;                  // program text, expected bytes, definitions of the operand symbols
static int zhow, zW = 2, znum, zneg;     // operands through symbols; bytes per address; operand count; negative displacements
static const char *zsuf; static int zsufb; // mode suffix and its prefix byte
static void (*zhook)(int);               // told where the bytes of every instruction begin
static int zskip, zpart, zparts = 1;     // only every zparts-th instruction
static u32 zopnd(int kind) {
	B d = mk(); b_c(&d, '$'); u32 v = 0; int k = kind == 'w' ? 2 * zW : 2;
	for (int i = 0; i < k; i++) {
		u8 x = vp_byte(vp_name(vp_name("o", znum), i), vp_nib, kind == 'd' && i == 0 ? 8 : 16);
		b_c(&d, vp_HEX[x]); v = v << 4 | x;
	}
	if (kind == 'd') { b_c(zb, zneg ? '-' : '+'); if (zneg) v = 0 - v; }
	if (zhow) {
		char *nm = vp_name("sym", znum);
		b_s(zb, nm); b_s(zdef, nm); b_s(zdef, " = "); b_mem(zdef, d.b, d.n); b_c(zdef, '\n');
	} else b_mem(zb, d.b, d.n);
	znum++;
	return v;
}
static int zhd(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }
static void J(const char *f, const char *a, const char *b, const char *code, int p, int x) {
	u32 v[3]; int nv = 0, k = 0, suf = zsuf != 0;
	if (zskip++ % zparts != zpart) return;
	int zstart = ze->n;
	b_c(zb, ' ');
	for (; *f; f++) {
		if (*f == ' ' && suf) { b_s(zb, zsuf); suf = 0; }
		if (*f == '%') { const char *q = k++ ? b : a; while (*q) { if (*q == ' ' && suf) { b_s(zb, zsuf); suf = 0; } b_c(zb, *q++); } }
		else if (*f == '@') v[nv++] = zopnd(*++f);
		else b_c(zb, *f);
	}
	if (suf) b_s(zb, zsuf);
	b_c(zb, '\n');
	if (zsuf) b_c(ze, zsufb);
	k = nv = 0;
	for (; *code; code++) {
		if (*code == '%') b_c(ze, k++ ? x : p);
		else if (*code == '@') { int w = *++code == 'w' ? zW : 1; u32 y = v[nv++]; for (int i = 0; i < w; i++) b_c(ze, (y >> (8 * i)) & 255); }
		else { b_c(ze, zhd(code[0]) << 4 | zhd(code[1])); code++; }
	}
	if (zhook) zhook(zstart);
}
static const char *zr[8] = {"b", "c", "d", "e", "h", "l", "(hl)", "a"};
static const char *zss[4] = {"bc", "de", "hl", "sp"}, *zqq[4] = {"bc", "de", "hl", "af"};
static const char *zcc[8] = {"nz", "z", "nc", "c", "po", "pe", "p", "m"};
static const char *zalu[8] = {"add a,", "adc a,", "sub ", "sbc a,", "and ", "xor ", "or ", "cp "};
static const char *zrot[8] = {"rlc ", "rrc ", "rl ", "rr ", "sla ", "sra ", 0, "srl "};
static const char *zbit[4] = {0, "bit ", "res ", "set "};
static const char *zix[2] = {"ix", "iy"};
static const int zpre[2] = {0xDD, 0xFD};
static const char *zbn[8] = {"0", "1", "2", "3", "4", "5", "6", "7"};
static void S(const char *f, const char *code) { J(f, "", "", code, 0, 0); }
enum { Z80_FAMS = 20 };
// the documented instruction forms common to the Z80 and the eZ80 (ez: without the opcodes that are suffixes there)
static void z80_family(int f, int ez) {
	int i, j, x, y; const char *r;
	switch (f) {
	case 0: for (x = 0; x < 8; x++) for (y = 0; y < 8; y++) if (!(x == 6 && y == 6) && !(ez && x == y && x < 4)) J("ld %,%", zr[x], zr[y], "%", 0x40 | x << 3 | y, 0); break;
	case 1: for (x = 0; x < 8; x++) J("ld %,@n", zr[x], 0, "%@n", x << 3 | 6, 0); for (j = 0; j < 2; j++) J("ld (%@d),@n", zix[j], 0, "%36@d@n", zpre[j], 0); break;
	case 2: for (j = 0; j < 2; j++) for (x = 0; x < 8; x++) if (x != 6) J("ld %,(%@d)", zr[x], zix[j], "%%@d", zpre[j], 0x46 | x << 3); break;
	case 3: for (j = 0; j < 2; j++) for (x = 0; x < 8; x++) if (x != 6) J("ld (%@d),%", zix[j], zr[x], "%%@d", zpre[j], 0x70 | x); break;
	case 4: S("ld a,(bc)", "0A"); S("ld a,(de)", "1A"); S("ld (bc),a", "02"); S("ld (de),a", "12"); S("ld a,(@w)", "3A@w"); S("ld (@w),a", "32@w");
		S("ld a,i", "ED57"); S("ld a,r", "ED5F"); S("ld i,a", "ED47"); S("ld r,a", "ED4F"); break;
	case 5: for (i = 0; i < 4; i++) J("ld %,@w", zss[i], 0, "%@w", i << 4 | 1, 0); for (j = 0; j < 2; j++) J("ld %,@w", zix[j], 0, "%21@w", zpre[j], 0);
		S("ld hl,(@w)", "2A@w"); S("ld (@w),hl", "22@w"); break;
	case 6: for (i = 0; i < 4; i++) if (i != 2) { J("ld %,(@w)", zss[i], 0, "ED%@w", 0x4B | i << 4, 0); J("ld (@w),%", zss[i], 0, "ED%@w", 0x43 | i << 4, 0); }
		for (j = 0; j < 2; j++) { J("ld %,(@w)", zix[j], 0, "%2A@w", zpre[j], 0); J("ld (@w),%", zix[j], 0, "%22@w", zpre[j], 0); } break;
	case 7: S("ld sp,hl", "F9"); for (j = 0; j < 2; j++) J("ld sp,%", zix[j], 0, "%F9", zpre[j], 0);
		for (i = 0; i < 4; i++) { J("push %", zqq[i], 0, "%", 0xC5 | i << 4, 0); J("pop %", zqq[i], 0, "%", 0xC1 | i << 4, 0); }
		for (j = 0; j < 2; j++) { J("push %", zix[j], 0, "%E5", zpre[j], 0); J("pop %", zix[j], 0, "%E1", zpre[j], 0); J("ex (sp),%", zix[j], 0, "%E3", zpre[j], 0); }
		S("ex de,hl", "EB"); S("ex af,af'", "08"); S("exx", "D9"); S("ex (sp),hl", "E3"); break;
	case 8: S("ldi", "EDA0"); S("ldir", "EDB0"); S("ldd", "EDA8"); S("lddr", "EDB8"); S("cpi", "EDA1"); S("cpir", "EDB1"); S("cpd", "EDA9"); S("cpdr", "EDB9");
		S("ini", "EDA2"); S("inir", "EDB2"); S("ind", "EDAA"); S("indr", "EDBA"); S("outi", "EDA3"); S("otir", "EDB3"); S("outd", "EDAB"); S("otdr", "EDBB");
		S("rld", "ED6F"); S("rrd", "ED67"); S("neg", "ED44"); S("im 0", "ED46"); S("im 1", "ED56"); S("im 2", "ED5E"); S("reti", "ED4D"); S("retn", "ED45");
		S("daa", "27"); S("cpl", "2F"); S("ccf", "3F"); S("scf", "37"); S("nop", "00"); S("halt", "76"); S("di", "F3"); S("ei", "FB");
		S("rlca", "07"); S("rla", "17"); S("rrca", "0F"); S("rra", "1F"); break;
	case 9: for (i = 0; i < 8; i++) for (x = 0; x < 8; x++) J("%%", zalu[i], zr[x], "%", 0x80 | i << 3 | x, 0); break;
	case 10: for (i = 0; i < 8; i++) J("%@n", zalu[i], 0, "%@n", 0xC6 | i << 3, 0); for (j = 0; j < 2; j++) for (i = 0; i < 8; i++) J("%(%@d)", zalu[i], zix[j], "%%@d", zpre[j], 0x86 | i << 3); break;
	case 11: for (x = 0; x < 8; x++) { J("inc %", zr[x], 0, "%", x << 3 | 4, 0); J("dec %", zr[x], 0, "%", x << 3 | 5, 0); }
		for (j = 0; j < 2; j++) { J("inc (%@d)", zix[j], 0, "%34@d", zpre[j], 0); J("dec (%@d)", zix[j], 0, "%35@d", zpre[j], 0); } break;
	case 12: for (i = 0; i < 4; i++) { J("add hl,%", zss[i], 0, "%", i << 4 | 9, 0); J("adc hl,%", zss[i], 0, "ED%", 0x4A | i << 4, 0); J("sbc hl,%", zss[i], 0, "ED%", 0x42 | i << 4, 0);
			J("inc %", zss[i], 0, "%", i << 4 | 3, 0); J("dec %", zss[i], 0, "%", i << 4 | 11, 0);
			for (j = 0; j < 2; j++) J("add %,%", zix[j], i == 2 ? zix[j] : zss[i], "%%", zpre[j], i << 4 | 9); }
		for (j = 0; j < 2; j++) { J("inc %", zix[j], 0, "%23", zpre[j], 0); J("dec %", zix[j], 0, "%2B", zpre[j], 0); } break;
	case 13: for (i = 0; i < 8; i++) if (i != 6) for (x = 0; x < 8; x++) J("%%", zrot[i], zr[x], "CB%", i << 3 | x, 0); break;
	case 14: for (j = 0; j < 2; j++) for (i = 0; i < 8; i++) if (i != 6) J("%(%@d)", zrot[i], zix[j], "%CB@d%", zpre[j], i << 3 | 6); break;
	case 15: for (i = 1; i < 4; i++) for (y = 0; y < 8; y++) { r = zr[(i * 3 + y) & 7];
			for (x = 0; x < 8; x++) { B t = mk(); b_s(&t, zbit[i]); b_s(&t, zbn[y]); b_c(&t, ','); b_c(&t, 0); J("%%", (char *) t.b, zr[x], "CB%", i << 6 | y << 3 | x, 0); } } break;
	case 16: for (j = 0; j < 2; j++) for (i = 1; i < 4; i++) for (y = 0; y < 8; y++) { B t = mk(); b_s(&t, zbit[i]); b_s(&t, zbn[y]); b_s(&t, ",("); b_s(&t, zix[j]); b_c(&t, 0); J("%@d)", (char *) t.b, 0, "%CB@d%", zpre[j], i << 6 | y << 3 | 6); } break;
	case 17: S("jp @w", "C3@w"); S("call @w", "CD@w"); for (i = 0; i < 8; i++) { J("jp %,@w", zcc[i], 0, "%@w", 0xC2 | i << 3, 0); J("call %,@w", zcc[i], 0, "%@w", 0xC4 | i << 3, 0); } break;
	case 18: S("ret", "C9"); for (i = 0; i < 8; i++) J("ret %", zcc[i], 0, "%", 0xC0 | i << 3, 0); S("jp (hl)", "E9"); for (j = 0; j < 2; j++) J("jp (%)", zix[j], 0, "%E9", zpre[j], 0);
		S("jr $+2", "1800"); for (i = 0; i < 4; i++) J("jr %,$+2", zcc[i], 0, "%00", 0x20 | i << 3, 0); S("djnz $+2", "1000");
		for (i = 0; i < 8; i++) J("rst %h", i == 0 ? "00" : i == 1 ? "08" : i == 2 ? "10" : i == 3 ? "18" : i == 4 ? "20" : i == 5 ? "28" : i == 6 ? "30" : "38", 0, "%", 0xC7 | i << 3, 0); break;
	case 19: S("in a,(@n)", "DB@n"); S("out (@n),a", "D3@n"); for (x = 0; x < 8; x++) if (x != 6) { J("in %,(c)", zr[x], 0, "ED%", 0x40 | x << 3, 0); J("out (c),%", zr[x], 0, "ED%", 0x41 | x << 3, 0); } break;
	}
}
enum { ALT_FAMS = 9 };
// other ways of writing instructions, and the undocumented ones every Z80 has (ez: those the eZ80 has as well)
static void alt_family(int f, int ez) {
	int i, j, x, y; static const char *h[2][2] = {{"ixh", "ixl"}, {"iyh", "iyl"}};
	static const char *alu2[8] = {0, 0, "sub a,", 0, "and a,", "xor a,", "or a,", "cp a,"};
	switch (f) {
	case 0: for (i = 2; i < 8; i++) if (alu2[i]) { for (x = 0; x < 8; x++) J("%%", alu2[i], zr[x], "%", 0x80 | i << 3 | x, 0); J("%@n", alu2[i], 0, "%@n", 0xC6 | i << 3, 0);
			for (j = 0; j < 2; j++) J("%(%@d)", alu2[i], zix[j], "%%@d", zpre[j], 0x86 | i << 3); } break;
	case 1: for (j = 0; j < 2; j++) for (i = 0; i < 2; i++) { for (x = 0; x < 8; x++) { J("%%", zalu[x], h[j][i], "%%", zpre[j], 0x84 | x << 3 | i); if (alu2[x]) J("%%", alu2[x], h[j][i], "%%", zpre[j], 0x84 | x << 3 | i); } } break;
	case 2: for (j = 0; j < 2; j++) for (i = 0; i < 2; i++) { J("ld %,@n", h[j][i], 0, "%%@n", zpre[j], 0x26 | i << 3); J("inc %", h[j][i], 0, "%%", zpre[j], 0x24 | i << 3); J("dec %", h[j][i], 0, "%%", zpre[j], 0x25 | i << 3);
			for (x = 0; x < 8; x++) if (x < 4 || x == 7) { J("ld %,%", zr[x], h[j][i], "%%", zpre[j], 0x44 | x << 3 | i); J("ld %,%", h[j][i], zr[x], "%%", zpre[j], 0x60 | i << 3 | x); }
			for (x = 0; x < 2; x++) J("ld %,%", h[j][i], h[j][x], "%%", zpre[j], 0x64 | i << 3 | x); } break;
	case 3: if (ez) break;
		for (x = 0; x < 8; x++) { J("sll %", zr[x], 0, "CB%", 0x30 | x, 0); J("sl1 %", zr[x], 0, "CB%", 0x30 | x, 0); }
		for (j = 0; j < 2; j++) { J("sll (%@d)", zix[j], 0, "%CB@d36", zpre[j], 0); J("sl1 (%@d)", zix[j], 0, "%CB@d36", zpre[j], 0); } break;
	case 4: if (ez) break;
		for (j = 0; j < 2; j++) for (i = 0; i < 8; i++) for (x = 0; x < 8; x++) if (x != 6) { B t = mk(); b_s(&t, zr[x]); b_s(&t, ",("); b_s(&t, zix[j]); b_c(&t, 0); J("%%@d)", i == 6 ? "sll " : zrot[i], (char *) t.b, "%CB@d%", zpre[j], i << 3 | x); } break;
	case 5: case 6: if (ez) break;
		j = f == 6; for (i = 2; i < 4; i++) for (y = 0; y < 8; y++) for (x = 0; x < 8; x++) if (x != 6) { B t = mk(); b_s(&t, zr[x]); b_c(&t, ','); b_s(&t, zbn[y]); b_s(&t, ",("); b_s(&t, zix[j]); b_c(&t, 0); J("%%@d)", zbit[i], (char *) t.b, "%CB@d%", zpre[j], i << 6 | y << 3 | x); } break;
	case 7: S("in f,(c)", "ED70"); if (!ez) S("out (c),0", "ED71"); else { S("in f,(bc)", "ED70"); S("in0 f,(@n)", "ED30@n"); } break;
	case 8: if (ez) break;
		for (j = 0; j < 2; j++) for (x = 0; x < 8; x++) if (x != 6) { B t = mk(); b_s(&t, zr[x]); b_s(&t, ",("); b_s(&t, zix[j]); b_c(&t, 0); J("sl1 %@d)", (char *) t.b, 0, "%CB@d%", zpre[j], 0x30 | x); } break;
	}
}
// begin a program whose operands are: literal (0), symbols defined before (1) or after (2)
static void z_begin(BP b, BP e, BP d, int how) { zb = b; ze = e; zdef = d; zhow = how; znum = 0; zskip = 0; }
static void z_end(BP out) {    // definitions and text in order, with a guard byte
	if (zhow == 1) b_mem(out, zdef->b, zdef->n);
	b_mem(out, zb->b, zb->n); b_s(out, " .db $5A\n"); b_c(ze, 0x5A);
	if (zhow == 2) b_mem(out, zdef->b, zdef->n);
}
enum { EZ_FAMS = 7 };
// the instructions the eZ80 adds
static void ez80_family(int f) {
	int i, j, x; static const char *rr[4] = {"bc", "de", "hl", 0};
	switch (f) {
	case 0: for (x = 0; x < 8; x++) if (x != 6) { J("in0 %,(@n)", zr[x], 0, "ED%@n", x << 3, 0); J("out0 (@n),%", zr[x], 0, "ED%@n", x << 3 | 1, 0); }
		for (x = 0; x < 8; x++) J("tst a,%", zr[x], 0, "ED%", x << 3 | 4, 0); S("tst a,@n", "ED64@n"); S("tstio @n", "ED74@n");
		for (i = 0; i < 4; i++) J("mlt %", zss[i], 0, "ED%", 0x4C | i << 4, 0); break;
	case 1: for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) J("lea %,%@d", rr[i], zix[j], "ED%@d", i << 4 | 2 | j, 0);
		S("lea ix,ix@d", "ED32@d"); S("lea iy,iy@d", "ED33@d"); S("lea ix,iy@d", "ED54@d"); S("lea iy,ix@d", "ED55@d"); S("pea ix@d", "ED65@d"); S("pea iy@d", "ED66@d"); break;
	case 2: for (i = 0; i < 3; i++) { J("ld %,(hl)", rr[i], 0, "ED%", i << 4 | 7, 0); J("ld (hl),%", rr[i], 0, "ED%", i << 4 | 15, 0); }
		S("ld ix,(hl)", "ED37"); S("ld iy,(hl)", "ED31"); S("ld (hl),ix", "ED3F"); S("ld (hl),iy", "ED3E"); break;
	case 3: for (j = 0; j < 2; j++) { for (i = 0; i < 3; i++) { J("ld %,(%@d)", rr[i], zix[j], "%%@d", zpre[j], i << 4 | 7); J("ld (%@d),%", zix[j], rr[i], "%%@d", zpre[j], i << 4 | 15); }
			J("ld %,(%@d)", zix[j], zix[j], "%37@d", zpre[j], 0); J("ld %,(%@d)", zix[!j], zix[j], "%31@d", zpre[j], 0);
			J("ld (%@d),%", zix[j], zix[j], "%3F@d", zpre[j], 0); J("ld (%@d),%", zix[j], zix[!j], "%3E@d", zpre[j], 0); } break;
	case 4: S("ini2", "ED84"); S("ini2r", "ED94"); S("inim", "ED82"); S("inimr", "ED92"); S("inirx", "EDC2"); S("ind2", "ED8C"); S("ind2r", "ED9C"); S("indm", "ED8A"); S("indmr", "ED9A"); S("indrx", "EDCA");
		S("outi2", "EDA4"); S("oti2r", "EDB4"); S("otim", "ED83"); S("otimr", "ED93"); S("otirx", "EDC3"); S("outd2", "EDAC"); S("otd2r", "EDBC"); S("otdm", "ED8B"); S("otdmr", "ED9B"); S("otdrx", "EDCB");
		S("slp", "ED76"); S("stmix", "ED7D"); S("rsmix", "ED7E"); S("ld mb,a", "ED6D"); S("ld a,mb", "ED6E"); S("ld i,hl", "EDC7"); S("ld hl,i", "EDD7"); break;
	case 5: { static const char *h[2][2] = {{"ixh", "ixl"}, {"iyh", "iyl"}};
		for (j = 0; j < 2; j++) for (i = 0; i < 2; i++) { J("ld %,@n", h[j][i], 0, "%%@n", zpre[j], 0x26 | i << 3); J("inc %", h[j][i], 0, "%%", zpre[j], 0x24 | i << 3); J("dec %", h[j][i], 0, "%%", zpre[j], 0x25 | i << 3);
			for (x = 0; x < 8; x++) if (x < 4 || x == 7) { J("ld %,%", zr[x], h[j][i], "%%", zpre[j], 0x44 | x << 3 | i); J("ld %,%", h[j][i], zr[x], "%%", zpre[j], 0x60 | i << 3 | x); } } break; }
	case 6: { static const char *h[2][2] = {{"ixh", "ixl"}, {"iyh", "iyl"}};
		for (j = 0; j < 2; j++) for (i = 0; i < 2; i++) for (x = 0; x < 8; x++) J("%%", zalu[x], h[j][i], "%%", zpre[j], 0x84 | x << 3 | i); 
		for (x = 0; x < 8; x++) if (x != 6) { J("in %,(bc)", zr[x], 0, "ED%", x << 3 | 0x40, 0); J("out (bc),%", zr[x], 0, "ED%", x << 3 | 0x41, 0); } break; }
	}
}
