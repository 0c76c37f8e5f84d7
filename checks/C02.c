// C02: numeric and character literals denote exactly their value or are rejected
#include "vp.h"
static const u8 dig16[22] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21};
static const char chars16[22] = {'0','1','2','3','4','5','6','7','8','9','A','B','C','D','E','F','a','b','c','d','e','f'};
static const u8 val16[22] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,10,11,12,13,14,15};
static const char bad16[] = "GHhIJKLMNOPQRSTUVWXYZgijklmnopqrstuvwxyz";
static const char bad2[] = "23456789ABCEFGIJKLMNOPQRSTUVWXYZacefgijklmnopqrstuvwxyz";
static const char bad10[] = "ACEFGIJKLMNOPQRSTUVWXYZacefgijklmnopqrstuvwxyz";
// value of the literal, -1 if it does not fit in 32 bits
static i64 val; static int over;
static void digits(B *b, int base, int n, const char *nm) {
	val = 0; over = 0;
	for (int i = 0; i < n; i++) {
		u8 d = vp_byte(vp_name(nm, i), base == 16 ? dig16 : vp_nib, base == 16 ? 22 : base);
		b_c(b, base == 16 ? chars16[d] : '0' + d);
		val = val * base + (base == 16 ? val16[d] : d);
	}
}
static void tail(B *b) { b_s(b, "\n .dl v\n .db (v>>24)&255\n .db $5A\n"); }
static int run(B *b) { vp_file("a.asm", b->b, b->n); vp_arg("a.asm"); vp_arg("a.bin"); return vp_run(); }
static void accepted(B *b, u32 want, const char *msg) {
	if (b->b[b->n - 1] != 10) tail(b);
	int r = run(b); u8 *o; int n = vp_out("a.bin", &o);
	vp_assert(r == 0 && n == 5, "a valid literal assembles without diagnostics");
	u8 e[5] = {want, want >> 8, want >> 16, want >> 24, 0x5A};
	vp_assert_eq(o, e, 5, msg); vp_reach(msg);
}
static void rejected(B *b, const char *code, const char *msg) {
	if (b->b[b->n - 1] != 10) tail(b);
	int r = run(b);
	vp_assert(r >= 2 && vp_said(code) > 0, msg); vp_reach(msg);
}
void harness(void) {
	B b; b_init(&b); b_s(&b, "v = ");
	int T = vp_tier(), g = vp_choose(4);
	if (g == 0) {        // well-formed literals
		int f = vp_choose(6); int maxd = f < 2 ? 8 : f < 4 ? (T ? 32 : 12) : 9;
		int n = 1 + vp_choose(maxd); vp_go();
		if (f == 0) { b_c(&b, '$'); digits(&b, 16, n, "h"); vp_label("$hex"); accepted(&b, (u32) val, "$ hexadecimal literal"); }
		if (f == 1) { b_c(&b, '0'); digits(&b, 16, n, "h"); b_c(&b, vp_pick("sfx", "hH")); vp_label("hexh"); accepted(&b, (u32) val, "hexadecimal literal with suffix h"); }
		if (f == 2) { b_c(&b, '%'); digits(&b, 2, n, "b"); vp_label("%bin"); accepted(&b, (u32) val, "% binary literal"); }
		if (f == 3) { digits(&b, 2, n, "b"); b_c(&b, vp_pick("sfx", "bB")); vp_label("binb"); accepted(&b, (u32) val, "binary literal with suffix b"); }
		if (f == 4) { digits(&b, 10, n, "d"); vp_label("dec"); accepted(&b, (u32) val, "decimal literal"); }
		if (f == 5) { digits(&b, 10, n, "d"); b_c(&b, vp_pick("sfx", "dD")); vp_label("decd"); accepted(&b, (u32) val, "decimal literal with suffix d"); }
	} else if (g == 1) { // around the 32-bit limit
		int f = vp_choose(3), k = vp_choose(3); vp_go(); int big; u32 w;
		if (f == 0) { b_c(&b, '$'); digits(&b, 16, 9 + k, "h"); big = val > 0xffffffffll; w = (u32) val; }
		else if (f == 1) { digits(&b, 10, 10 + k, "d"); big = val > 0xffffffffll; w = (u32) val; }
		else { // binary, 33 digits and more
			b_c(&b, '%'); u32 d = vp_byte("b0", vp_nib, 2); u32 d1 = vp_byte("b1", vp_nib, 2), d2 = vp_byte("b2", vp_nib, 2);
			b_c(&b, '0' + d); if (k) b_c(&b, '0'); b_c(&b, '0' + d1); for (int i = 0; i < 30; i++) b_c(&b, '1'); b_c(&b, '0' + d2);
			big = d; w = d1 << 31 | 0x7ffffffeu | d2;
			if (k == 2) { b_c(&b, 'x'); b.n--; }
		}
		if (big) rejected(&b, "SE204", "a literal that does not fit in 32 bits is rejected as SE204");
		else accepted(&b, w, "a literal just below the 32-bit limit");
	} else if (g == 2) { // one digit outside the base
		int f = vp_choose(5), n = 2 + vp_choose(T ? 5 : 3), pos = f == 2 ? vp_choose(n) : 1 + vp_choose(n - 1); vp_go();
		const char *code = f < 2 ? "SE201" : f < 4 ? "SE202" : "SE200";
		if (f == 0) b_c(&b, '$'); if (f == 2) b_c(&b, '%');
		for (int i = 0; i < n; i++) {
			int base = f < 2 ? 16 : f < 4 ? 2 : 10;
			if (i == pos) b_c(&b, vp_pick("bad", base == 16 ? bad16 : base == 2 ? bad2 : bad10));
			else b_c(&b, '0' + vp_byte(vp_name("g", i), vp_nib, base < 10 ? base : 10));
		}
		if (f == 1) b_c(&b, 'h'); if (f == 3) b_c(&b, 'b');
		vp_label(code); tail(&b);
		rejected(&b, code, f < 2 ? "a hexadecimal literal with a foreign digit is rejected as SE201" : f < 4 ? "a binary literal with a foreign digit is rejected as SE202" : "a decimal literal with a foreign digit is rejected as SE200");
		return;
	} else {             // character literals and escapes
		int k = vp_choose(3); vp_go(); u8 dom[95]; int n = 0;
		if (k == 0) { for (int c = 32; c < 127; c++) if (c != '\\' && c != '\'') dom[n++] = c; u8 c = vp_byte("c", dom, n); b_c(&b, '\''); b_c(&b, c); b_c(&b, '\''); vp_label("char"); accepted(&b, c, "character literal"); return; }
		if (k == 1) { u8 e = vp_pick("e", "nNrRtT0\\'"); b_s(&b, "'\\"); b_c(&b, e); b_c(&b, '\''); vp_label("escape");
			u32 w = e == 'n' || e == 'N' ? 10 : e == 'r' || e == 'R' ? 13 : e == 't' || e == 'T' ? 9 : e == '0' ? 0 : e; accepted(&b, w, "escape sequence"); return; }
		for (int c = 32; c < 127; c++) if (c != '\\' && c != '\'') dom[n++] = c;
		u8 c = vp_byte("c", dom, n); b.n = 0; b_s(&b, " .db '"); b_c(&b, c); b_s(&b, "','\\n',\"x\"\n ld a,'"); b_c(&b, c); b_s(&b, "'\n cp '"); b_c(&b, c); b_s(&b, "'+1\n"); vp_label("char operand");
		int r = run(&b); u8 *o; int m = vp_out("a.bin", &o);
		vp_assert(r == 0 && m == 7, "character literals in operands assemble without diagnostics");
		u8 e[7] = {c, 10, 'x', 0x3E, c, 0xFE, c + 1};
		vp_assert_eq(o, e, 7, "character literal in data and operands"); vp_reach("character literal in data and operands");
		return;
	}
}
