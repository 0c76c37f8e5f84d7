// C06: out-of-range instruction operands are rejected, in-range ones encoded exactly
#include "h.h"
void harness(void) {
	B b = mk(), e = mk();
	int g = vp_choose(4), how = vp_choose(3), neg = vp_choose(2), ez = vp_choose(2); // how: literal, symbol known, forward symbol
	int sub = g == 0 ? vp_choose(6) : g == 1 ? vp_choose(6) : vp_choose(2);
	vp_go();
	B d = mk(); i32 v = b_sh(&d, "v", g == 0 ? 4 : 3, neg);
	vp_label(g == 0 ? "index displacement" : g == 1 ? "bit number" : g == 2 ? "restart" : "displacement and immediate");
	if (how == 1) { b_s(&b, "sym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
	#define OPERAND() (how ? b_s(&b, "sym") : b_mem(&b, d.b, d.n))
	const char *code; int ok; u8 y = sub & 1 ? 0xFD : 0xDD;
	const char *ix = sub & 1 ? "iy" : "ix";
	if (g == 0) {
		ok = v >= -128 && v <= 127; code = "SE121";
		switch (sub >> 1) {
		case 0: b_s(&b, " ld b,("); b_s(&b, ix); b_c(&b, '+'); OPERAND(); b_s(&b, ")\n"); b_c(&e, y); b_c(&e, 0x46); b_c(&e, v & 255); break;
		case 1: b_s(&b, " ld ("); b_s(&b, ix); b_c(&b, '-'); OPERAND(); b_s(&b, "),c\n"); v = -v; ok = v >= -128 && v <= 127; b_c(&e, y); b_c(&e, 0x71); b_c(&e, v & 255); break;
		case 2: b_s(&b, " set 5,("); b_s(&b, ix); b_c(&b, '+'); OPERAND(); b_s(&b, ")\n"); b_c(&e, y); b_c(&e, 0xCB); b_c(&e, v & 255); b_c(&e, 0xEE); break;
		}
	} else if (g == 1) {
		ok = v >= 0 && v <= 7; code = "Bit number";
		static const char *op[] = {"bit ", "res ", "set "}; static const u8 base[] = {0x40, 0x80, 0xC0};
		b_c(&b, ' '); b_s(&b, op[sub >> 1]); OPERAND();
		if (sub & 1) { b_s(&b, ",(iy+3)\n"); b_c(&e, 0xFD); b_c(&e, 0xCB); b_c(&e, 3); b_c(&e, base[sub >> 1] | (v & 7) << 3 | 6); }
		else { b_s(&b, ",d\n"); b_c(&e, 0xCB); b_c(&e, base[sub >> 1] | (v & 7) << 3 | 2); }
	} else if (g == 2) {
		ok = v >= 0 && v <= 0x38 && (v & 7) == 0; code = "SE127";
		b_s(&b, sub ? " nop\n rst " : " rst "); OPERAND(); b_c(&b, '\n'); if (sub) b_c(&e, 0); b_c(&e, 0xC7 + v);
	} else {
		ok = v >= -128 && v <= 127; code = "SE121";
		b_s(&b, sub ? " ld (iy+" : " ld (ix+"); OPERAND(); b_s(&b, "),$42\n"); b_c(&e, sub ? 0xFD : 0xDD); b_c(&e, 0x36); b_c(&e, v & 255); b_c(&e, 0x42);
	}
	b_s(&b, " .db $5A\n"); b_c(&e, 0x5A);
	if (how == 2) { b_s(&b, "sym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
	// a minus directly after the sign is one token pair the assembler reads as a reusable label; write it as a symbol
	if (how == 0 && neg && g != 1 && g != 2) { vp_reach("skipped"); return; }
	int r = asm3(&b, ez ? "-E" : 0, 0, 0);
	if (ok) {
		vp_assert(r == 0, "an operand in range is accepted");
		same(&e, "an operand in range is encoded exactly");
		vp_reach("accepted");
	} else {
		vp_assert(r >= 2, "an operand out of range fails the assembly");
		vp_assert(vp_said(code) > 0, "an operand out of range is diagnosed");
		vp_reach("rejected");
	}
}
