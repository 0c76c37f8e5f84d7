// C03: every documented Z80 instruction form assembles to its Zilog encoding
#include "z80.h"
static const char *names[Z80_FAMS] = {"ld r,r", "ld r,n", "ld r,(ix+d)", "ld (ix+d),r", "ld a", "ld rr,nn", "ld rr,(nn)", "stack and exchange", "implied", "alu r", "alu n", "inc/dec 8", "16-bit arithmetic", "rotate r", "rotate (ix+d)", "bit r", "bit (ix+d)", "jp/call", "ret, jumps, rst", "in/out"};
static const char *anames[ALT_FAMS] = {"alu a,r", "alu ixh", "ld ixh", "sll", "rotate r,(ix+d)", "set r,n,(ix+d)", "set r,n,(iy+d)", "in f", "sl1 r,(ix+d)"};
void harness(void) {
	B b = mk(), e = mk(), d = mk(), o = mk();
	int f = vp_choose(Z80_FAMS + ALT_FAMS), how = vp_choose(3); zneg = vp_choose(2);
	int hasd = f == 1 || f == 2 || f == 3 || f == 10 || f == 11 || f == 14 || f == 16 || (f >= Z80_FAMS && f != Z80_FAMS + 1 && f != Z80_FAMS + 2 && f != Z80_FAMS + 7);
	int hasop = hasd || f == 4 || f == 5 || f == 6 || f == 17 || f == 19 || f == Z80_FAMS + 2;
	zpart = vp_choose(4); zparts = 4; vp_go(); const char *nm = f < Z80_FAMS ? names[f] : anames[f - Z80_FAMS]; vp_label(nm);
	if ((how && !hasop) || (zneg && !hasd)) { vp_reach("skipped"); return; }
	z_begin(&b, &e, &d, how); if (f < Z80_FAMS) z80_family(f, 0); else alt_family(f - Z80_FAMS, 0); z_end(&o);
	good(&o, 0, &e, "instructions assemble to their Zilog encoding");
	vp_reach(nm);
}
