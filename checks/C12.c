// C12: binary and calculator program files wrap the code with consistent headers
#include "h.h"
enum { F73P, F82P, F83P, F8XP, F8XV, F85P, F86P, F85S, F86S, FBIN, NF };
static const char *ext[] = { "73p", "82p", "83p", "8xp", "8xv", "85p", "86p", "85s", "86s", "bin" }, *EXT[] = { "73P", "82P", "83P", "8XP", "8xV", "85P", "86p", "85S", "86S", "BIN" };
static const char *sig[] = { "**TI73**", "**TI82**", "**TI83**", "**TI83F*", "**TI83F*", "**TI85**", "**TI86**", "**TI85**", "**TI86**" };
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// the file that holds code c under variable name nm (as given on the command line, without directory and extension)
static void image(B *e, int f, const char *nm, B *c) {
	if (f == FBIN) { b_mem(e, c->b, c->n); return; }
	B name = mk(), var = mk();   // name field and variable data
	int pad = f != F85P && f != F85S;
	if (f == F82P) b_c(&name, 0xDC);
	for (int i = 0; nm[i] && name.n < 8; i++) b_c(&name, f == F8XV ? (i ? nm[i] : up(nm[i])) : f == F82P || f >= F85P ? nm[i] : up(nm[i]));
	int nl = name.n; if (pad) while (name.n < 8) b_c(&name, 0);
	if (f == F83P) {
		for (int i = 0; i < c->n; i++) { b_c(&var, vp_HEX[c->b[i] >> 4]); b_c(&var, vp_HEX[c->b[i] & 15]); }
		b_mem(&var, "\x3f\xd4\x3f" "0000" "\x3f\xd4", 9);
	} else {
		if (f == F86P) b_mem(&var, "\x8e\x28", 2); else if (f == F82P) b_mem(&var, "\xd5\x00\x11", 3);
		b_mem(&var, c->b, c->n);
	}
	int dl = var.n + 2;
	B v = mk();   // variable section
	b_c(&v, f == F73P || f == F82P || f == F83P ? 0x0B : f == F8XP || f == F8XV ? 0x0D : pad ? 0x0C : 6 + nl); b_c(&v, 0);
	e_w(&v, dl); b_c(&v, f == F8XV ? 0x15 : f == F85S || f == F86S ? 0x0C : f >= F85P ? 0x12 : 6);
	if (f >= F85P) b_c(&v, nl);
	b_mem(&v, name.b, name.n);
	if (f == F8XP || f == F8XV) e_w(&v, 0);
	e_w(&v, dl); e_w(&v, dl - 2); b_mem(&v, var.b, var.n);
	b_s(e, sig[f]); b_c(e, 0x1A); b_c(e, f == F85P || f == F85S ? 0x0C : 0x0A); b_c(e, 0);
	b_s(e, "File generated by spasm"); while (e->n < 53) b_c(e, 0);
	e_w(e, v.n); b_mem(e, v.b, v.n);
	u32 s = 0; for (int i = 0; i < v.n; i++) s += v.b[i];
	e_w(e, s);
}
void harness(void) {
	static const char *names[] = { "A", "prog", "Ab3", "EIGHTLTR", "seven77", "ninechars", "elevenchars" };
	int T = vp_tier(), f = vp_choose(NF), ni = vp_choose(7), len = vp_choose(T ? 7 : 5), dir = vp_choose(3);
	if (!T && (f + ni + len) % 3 != dir) return;
	vp_go(); vp_label(ext[f]);
	B src = mk(), code = mk(), e = mk();
	static const int lens[] = { 0, 1, 3, 260, 126, 700, 8 };
	int n = lens[len], k = n > 4 ? 4 : n, ez = ni == 2;
	// the first bytes, symbolic; then a block
	if (k) b_s(&src, " .db "); for (int i = 0; i < k; i++) { if (i) b_c(&src, ','); b_c(&code, b_h(&src, vp_name("c", i), 2)); } b_s(&src, "\n");
	if (n > k) { b_s(&src, " .fill "); b_u(&src, n - k - 1); b_s(&src, ","); u32 v = b_h(&src, "f", 2); for (int i = 0; i < n - k - 1; i++) b_c(&code, v); b_s(&src, "\n .db "); b_c(&code, b_h(&src, "z", 2)); b_s(&src, "\n"); }
	static const char *dirs[] = { "", "out/", "./o.ut/" };
	B o = mk(); b_s(&o, dirs[dir]); b_s(&o, names[ni]); b_c(&o, '.'); b_s(&o, ni & 1 ? ext[f] : EXT[f]); b_c(&o, 0);
	vp_file("out/x", "", 0); vp_file("o.ut/x", "", 0); vp_file("s.asm", src.b, src.n);
	if (ez) vp_arg("-E"); vp_arg("s.asm"); vp_arg((char *) o.b);
	int r = vp_run();
	image(&e, f, names[ni], &code);
	vp_assert(r <= 1, "at most a warning");
	u8 *q; int m = vp_out((char *) o.b, &q);
	vp_assert(m == e.n, "the file has the expected length");
	if (m == e.n) {
		if (f != FBIN) {
			vp_assert_eq(q, e.b, 53, "signature and comment");
			vp_assert_eq(q + 53, e.b + 53, m - 55, "sizes, type, name and code bytes of the variable entry");
			vp_assert_eq(q + m - 2, e.b + m - 2, 2, "the checksum is the 16-bit sum of the variable section");
		} else vp_assert_eq(q, e.b, m, "a .bin file is exactly the assembled bytes");
		vp_reach(ext[f]);
	}
}
