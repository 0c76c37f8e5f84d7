// C04: eZ80 instructions, ADL width and mode suffixes assemble to the Zilog encoding
#include "z80.h"
// forms of every kind with a mode suffix
static void suffixed(int part) {
	int i, j;
	switch (part) {
	case 0: for (i = 0; i < 4; i++) J("ld %,@w", zss[i], 0, "%@w", i << 4 | 1, 0); for (j = 0; j < 2; j++) J("ld %,@w", zix[j], 0, "%21@w", zpre[j], 0); S("ld hl,(@w)", "2A@w"); S("ld (@w),hl", "22@w"); S("ld (@w),a", "32@w"); S("ld a,(@w)", "3A@w"); S("ld bc,(@w)", "ED4B@w"); S("ld (@w),ix", "DD22@w"); break;
	case 1: S("jp @w", "C3@w"); S("call @w", "CD@w"); S("jp nz,@w", "C2@w"); S("call m,@w", "FC@w"); S("ret", "C9"); S("ret nc", "D0"); S("reti", "ED4D"); S("rst 18h", "DF"); S("jp (hl)", "E9"); S("jp (ix)", "DDE9"); break;
	case 2: S("push hl", "E5"); S("pop af", "F1"); S("ld a,(hl)", "7E"); S("ld (hl),@n", "36@n"); S("add hl,de", "19"); S("inc bc", "03"); S("ldir", "EDB0"); S("ex (sp),hl", "E3"); S("ld sp,hl", "F9"); S("inc (hl)", "34"); S("bit 3,(hl)", "CB5E"); S("ld a,(ix@d)", "DD7E@d"); S("lea hl,ix@d", "ED22@d"); S("ld hl,(iy@d)", "FD27@d"); S("add a,(hl)", "86"); S("cpir", "EDB1"); S("ld (hl),bc", "ED0F"); S("mlt bc", "ED4C"); break;
	}
}
void harness(void) {
	B b = mk(), e = mk(), d = mk(), o = mk();
	int g = vp_choose(3), adl = vp_choose(2), how = vp_choose(3); zneg = vp_choose(2);
	if (!adl) b_s(&b, " .assume adl=0\n");
	zW = adl ? 3 : 2;
	if (g == 0) {        // the Z80 forms
		int f = vp_choose(Z80_FAMS + ALT_FAMS); zparts = 4; zpart = vp_choose(4); vp_go(); vp_label("Z80 forms");
		int hasd = f == 1 || f == 2 || f == 3 || f == 10 || f == 11 || f == 14 || f == 16 || f == Z80_FAMS;
		int hasop = hasd || f == 4 || f == 5 || f == 6 || f == 17 || f == 19 || f == Z80_FAMS + 2 || f == Z80_FAMS + 7;
		if ((how && !hasop) || (zneg && !hasd)) { vp_reach("skipped"); return; }
		z_begin(&b, &e, &d, how); if (f < Z80_FAMS) z80_family(f, 1); else alt_family(f - Z80_FAMS, 1); z_end(&o);
		good(&o, "-E", &e, adl ? "Z80 forms have 3-byte addresses in ADL mode" : "Z80 forms have 2-byte addresses with ADL=0");
	} else if (g == 1) { // the additions
		int f = vp_choose(EZ_FAMS); zparts = 3; zpart = vp_choose(3); vp_go(); vp_label("eZ80 forms");
		int hasd = f == 1 || f == 3; if (zneg && !hasd || how && (f == 2 || f == 4 || f == 6)) { vp_reach("skipped"); return; }
		z_begin(&b, &e, &d, how); ez80_family(f); z_end(&o);
		good(&o, "-E", &e, "eZ80 instructions assemble to their Zilog encoding");
	} else {             // suffixes: a full one, or one resolved against the mode
		static const char *sn[8] = {".sis", ".lis", ".sil", ".lil", ".s", ".l", ".is", ".il"};
		int part = vp_choose(3), sx = vp_choose(8), up = vp_choose(2); vp_go(); vp_label(sn[sx]);
		if (zneg && part != 2) { vp_reach("skipped"); return; }
		int S_ = sx < 4 ? sx & 1 : sx == 4 ? 0 : sx == 5 ? 1 : adl, I_ = sx < 4 ? sx >> 1 : sx == 6 ? 0 : sx == 7 ? 1 : adl;
		char sb[8]; int n = 0; for (const char *q = sn[sx]; *q; q++) sb[n++] = up && *q != '.' ? *q - 32 : *q; sb[n] = 0;
		zsuf = sb; zsufb = I_ ? S_ ? 0x5B : 0x52 : S_ ? 0x49 : 0x40; zW = I_ ? 3 : 2;
		z_begin(&b, &e, &d, how); suffixed(part);
		// the mode is that of the following instructions again
		zsuf = 0; zW = adl ? 3 : 2; S("ld hl,@w", "21@w");
		z_end(&o);
		good(&o, "-E", &e, "a mode suffix emits its prefix and fixes the width of that instruction only");
	}
}
