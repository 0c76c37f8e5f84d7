// C08: a forward reference assembles to the same bytes as a backward one
#include "h.h"
// every operand kind with the symbol inside an expression
static const char *use[] = {
	" .db S", " .dw S", " .dl S", " ld a,S", " ld hl,S", " ld (S),a", " ld a,(ix+S)", " ld (iy-S),5", " bit S,b", " set S,(ix+1)", " rst S", " jp S",
	" call nz,S", " jr $+S", " djnz $-S", " ld b,(S)&255", " add a,S+1", " in a,(S)", " ld (ix+1),S", " .db \"x\",S,1", " ld hl,S*3-2", " .dw S<<4", " .dw S/3", " .db S>>2&7", " .dw -S", " .dw 5-S", " .dw ~S", " .dw (S+1)*2", " .dw S == 3", " .dw T+S", " .dw U", " .dw W(S)", " .dw $+S", " .dw -T+S", " .dw 1-T+S", " .dw 3*T+S", " .dw N+S", " .dw 2-N+S", " .dw N*S-N", " .dw L>>16+S", " .dw L/65536&$ff+S", " .dw H>>16+S", " .dw S+'b'", " .dw S+$b", " .dw S+%11", " .db 'b'+S&255,'b'", " .db \"b\",S+b", " .dw $bb+S+0bh", " .dl H-S", " .dw 3+-S", " .dw W(T)+S", " .dw (T-S)*(2)", " .dw S&&T||b", " .dw 5-U", " .dw 5*U-1", " .dw 5-W(S)", " .dw W(S+1)*2", " .db 9,W(W(S))&255,S&15", " .dw 7-W(-S)", " .dw 300-V(S,W(S))*2", " .dw getc(\"f\",1)+S", " .dw 3-getc(\"f\",S&1)" };
enum { NUSE = sizeof use / sizeof *use };
static void emit(B *b, const char *t) { b_s(b, t); b_c(b, '\n'); }
void harness(void) {
	int k = vp_choose(NUSE), form = vp_choose(4), ez = vp_choose(2), wide = vp_choose(3);
	int small = k >= 6 && k <= 10 || k == 13 || k == 14;
	if (wide && (small || !vp_tier() && (k + form) % 4)) return;
	vp_go(); vp_label(use[k]);
	// the symbol's value: positive, negative, or using all 32 bits
	B d = mk(); if (wide == 1) b_c(&d, '-');
	b_s(&d, wide ? "$" : "$"); if (wide == 2) b_hex(&d, "w", 5); u32 v = b_hex(&d, "v", wide == 1 ? 6 : vp_tier() ? 4 : 3);
	// small enough for the operand to be valid either way
	if (k == 8 || k == 9) vp_assume(v < 8);
	if (k == 10) vp_assume(v < 64 && (v & 7) == 0);
	if (k == 6 || k == 7 || k == 13 || k == 14) vp_assume(v < 100);
	int T = vp_tier(), mul = 0, uses = 0;   // T (and N) symbolic where the use mentions them, but not in products
	for (const char *q = use[k]; *q; q++) { mul |= *q == '*' && q[1] != '2'; uses |= *q == 'T' || *q == 'N'; }
	B t = mk(); b_s(&t, "$"); if (uses && !mul) b_hex(&t, "t", T ? 2 : 1); else b_s(&t, "5B");
	B def = mk();
	switch (form) {
	case 0: b_s(&def, "S = "); b_mem(&def, d.b, d.n); b_c(&def, '\n'); break;
	case 1: b_s(&def, "S .equ "); b_mem(&def, d.b, d.n); b_c(&def, '\n'); break;
	case 2: b_s(&def, "P = $1234\nS = "); b_mem(&def, d.b, d.n); b_s(&def, "\n"); break;
	case 3: b_s(&def, "#define S "); b_mem(&def, d.b, d.n); b_c(&def, '\n'); break;
	}
	u8 *o1, *o2; int n1, n2, r1, r2;
	for (int pass = 0; pass < 2; pass++) {
		B b = mk();
		b_s(&b, "T = "); b_mem(&b, t.b, t.n); b_s(&b, "\nN = -T-1\nb = 7\nL = $C000004E\nH = $7F123456\n#define U S+1\n#define W(x) x+2\n#define V(x,y) y-x\n"); vp_file("f", "pqr", 3);
		if (pass == 0) b_mem(&b, def.b, def.n);
		emit(&b, use[k]); b_s(&b, " .db $5A\n");
		if (pass == 1) b_mem(&b, def.b, def.n);
		int r = asm3(&b, ez ? "-E" : 0, 0, 0);
		u8 *p; int n = vp_out("a.bin", &p);
		if (pass == 0) { r1 = r; n1 = n; o1 = vp_alloc(n + 2); if (n > 0) vp_copy(o1, p, n); vp_clear(); }
		else { r2 = r; n2 = n; o2 = p; }
	}
	vp_assert(r1 == r2, "forward and backward definitions give the same exit status");
	vp_assert(n1 == n2, "forward and backward definitions give the same output length");
	if (n1 == n2 && n1 > 0) vp_assert_eq(o2, o1, n1, "forward and backward definitions give the same bytes");
	vp_reach("compared");
}
