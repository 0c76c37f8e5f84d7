// C05: relative jumps reach exactly their target or are rejected
#include "h.h"
static const char *jr[] = {"jr ", "djnz ", "jr nz,", "jr z,", "jr nc,", "jr c,"};
static const u8 jop[] = {0x18, 0x10, 0x20, 0x28, 0x30, 0x38};
void harness(void) {
	B b = mk(), e = mk(); int T = vp_tier();
	int g = vp_choose(4), ez = vp_choose(3), k = vp_choose(6);   // ez: 0 Z80, 1 eZ80, 2 eZ80 with .assume adl=0
	u32 mask = ez ? 0xffffff : 0xffff;
	if (ez == 2) b_s(&b, " .assume adl=0\n");
	if (g == 0) {        // numeric or equated target, known before or after the use; any instruction address
		int how = vp_choose(4), suf = ez ? vp_choose(3) : 0; vp_go();
		b_s(&b, " .org "); u32 pc = b_h(&b, "p", ez ? 6 : 4); b_c(&b, '\n');
		B d = mk(); u32 t = b_h(&d, "t", ez ? 6 : 4);
		if (how == 1) { b_s(&b, "tgt = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
		b_c(&b, ' ');
		if (suf) { b_mem(&b, jr[k], k == 1 ? 4 : 2); b_s(&b, suf == 1 ? ".s " : ".l "); b_s(&b, jr[k] + (k == 1 ? 5 : 3)); if (ez) b_c(&e, suf == 1 ? (ez == 1 ? 0x52 : 0x40) : (ez == 1 ? 0x5B : 0x49)); }
		else b_s(&b, jr[k]);
		if (how == 0) b_mem(&b, d.b, d.n); else if (how < 3) b_s(&b, "tgt"); else { b_s(&b, "tgt"); }
		b_s(&b, "\n .db $5A\n");
		if (how == 2) { b_s(&b, "tgt = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
		if (how == 3) { b_s(&b, " .org "); b_mem(&b, d.b, d.n); b_s(&b, "\ntgt:\n"); }
		int size = suf ? 3 : 2;
		i32 dist = (i32) t - (i32) (pc + size);
		vp_label(how == 0 ? "numeric" : how == 1 ? "backward" : how == 2 ? "forward equate" : "forward label");
		// targets across the end of the address space are outside the property
		vp_assume(pc + size <= mask);
		int r = asm3(&b, ez ? "-E" : 0, 0, 0);
		if (dist >= -128 && dist <= 127) {
			b_c(&e, jop[k]); b_c(&e, dist & 255); b_c(&e, 0x5A);
			vp_assert(r == 0, "a reachable target is accepted");
			same(&e, "the displacement reaches the target"); vp_reach("in range");
		} else {
			vp_assert(r >= 2 && vp_said("SE120") > 0, "an unreachable target is reported as SE120 and assembly fails"); vp_reach("out of range");
		}
	} else {             // label targets with real code between them
		int n = vp_choose(8); vp_go();
		static const u8 dn[] = {0, 1, 2, 63, 124, 126, 127, 130};
		int gap = dn[n];
		B s = mk(); (void) s;
		b_s(&b, " .org "); u32 pc = b_h(&b, "p", 4); b_c(&b, '\n'); vp_assume(pc < 0xff00);
		if (g == 1) {       // backward over gap bytes
			b_s(&b, "tgt:\n .fill "); b_u(&b, gap); b_s(&b, ",$11\n "); b_s(&b, jr[k]); b_s(&b, "tgt\n");
			vp_label("backward label");
			if (gap + 2 > 128) { bad(&b, ez ? "-E" : 0, "SE120", "a backward jump too far is rejected"); return; }
			for (int i = 0; i < gap; i++) b_c(&e, 0x11);
			b_c(&e, jop[k]); b_c(&e, -(gap + 2) & 255);
			good(&b, ez ? "-E" : 0, &e, "a backward jump lands on its label");
		} else if (g == 2) { // forward over gap bytes
			b_c(&b, ' '); b_s(&b, jr[k]); b_s(&b, "tgt\n .fill "); b_u(&b, gap); b_s(&b, ",$11\ntgt: nop\n");
			vp_label("forward label");
			if (gap > 127) { bad(&b, ez ? "-E" : 0, "SE120", "a forward jump too far is rejected"); return; }
			b_c(&e, jop[k]); b_c(&e, gap); for (int i = 0; i < gap; i++) b_c(&e, 0x11); b_c(&e, 0);
			good(&b, ez ? "-E" : 0, &e, "a forward jump lands on its label");
		} else {            // $-relative and label arithmetic, symbolic displacement
			int neg = n & 1, fwd = n & 2; i32 d;
			b_c(&b, ' '); b_s(&b, jr[k]);
			b_s(&b, fwd ? "later" : "$"); b_c(&b, neg ? '-' : '+'); d = (i32) b_h(&b, "d", 2); if (neg) d = -d;
			b_s(&b, "\nlater: nop\n");
			i32 dist = fwd ? d : d - 2;
			vp_assume((i32) pc + d >= 0 && pc + 2 + d <= 0xffff);
			vp_label("expression target");
			int r = asm3(&b, ez ? "-E" : 0, 0, 0);
			if (dist >= -128 && dist <= 127) {
				b_c(&e, jop[k]); b_c(&e, dist & 255); b_c(&e, 0);
				vp_assert(r == 0, "a reachable target is accepted"); same(&e, "the displacement reaches the target");
			} else vp_assert(r >= 2 && vp_said("SE120") > 0, "an unreachable target is reported as SE120 and assembly fails");
			vp_reach("expression target");
		}
	}
}
