// C25: Intel-HEX, ROM and Flash-application files encode the image faithfully
#include "h.h"
static void hx(B *e, u8 v) { b_c(e, vp_HEX[v >> 4 & 15]); b_c(e, vp_HEX[v & 15]); }
// Intel hex in TI's paged form: 16 KiB pages addressed from 4000h, records of 32 bytes
static void hexfile(B *e, u8 *d, int n) {
	int p = 0;
	for (int page = 0; p < n; page++) {
		b_s(e, ":02000002"); hx(e, page >> 8); hx(e, page); hx(e, -(4 + page)); b_s(e, "\r\n");
		for (int a = 0x4000; a < 0x8000 && p < n; a += 32) {
			int k = n - p < 32 ? n - p : 32; u8 s = (a >> 8) + (a & 255);
			b_c(e, ':'); hx(e, k); hx(e, a >> 8); hx(e, a); b_s(e, "00");
			for (int i = 0; i < k; i++, p++) { hx(e, d[p]); s += d[p]; }
			hx(e, 0 - (u8) (s + k)); b_s(e, "\r\n");
		}
	}
	b_s(e, ":00000001FF");
}
static int unhex(int c) { return c >= 'A' ? c - 'A' + 10 : c - '0'; }
static B src, code; static int nb;
static void sb(const char *nm) { b_s(&src, " .db "); b_c(&code, b_h(&src, vp_name(nm, nb++), 2)); b_s(&src, "\n"); }
static void db(int v) { b_s(&src, " .db "); b_u(&src, v); b_s(&src, "\n"); b_c(&code, v); }
static void fill(int n) { if (n <= 0) return; b_s(&src, " .fill "); b_u(&src, n); b_s(&src, ",$5A\n"); for (int i = 0; i < n; i++) b_c(&code, 0x5A); }
static int run(const char *o) { vp_file("a.asm", src.b, src.n); vp_arg("a.asm"); vp_arg(o); return vp_run(); }
void harness(void) {
	int what = vp_choose(4), T = vp_tier();
	src = mk(); code = mk(); nb = 0; B e = mk(); u8 *q; int m;
	if (what == 0) {
		static const int lens[] = { 0, 1, 2, 31, 32, 33, 64, 95, 16384 + 33, 5 * 16384 + 1, 16384, 16385, 40000, 300000 };
		int len = lens[vp_choose(T ? 14 : 10)]; vp_go(); vp_label("hex");
		int k = len < 4 ? len : 3; for (int i = 0; i < k; i++) sb("a"); if (k < len) fill(len - k - 2); for (int i = k; i < len && i < k + 2; i++) sb("z");
		vp_assert(run("a.hex") == 0, "status"); hexfile(&e, code.b, code.n);
		m = vp_out("a.hex", &q); vp_assert(m == e.n, ".hex length"); if (m == e.n) vp_assert_eq(q, e.b, m, ".hex records carry the image"); vp_reach("hex");
	} else if (what == 1) {
		static const int lens[] = { 0, 3, 16500 };
		int len = lens[vp_choose(T ? 3 : 2)]; vp_go(); vp_label("rom");
		int k = len < 4 ? len : 3; for (int i = 0; i < k; i++) sb("a"); fill(len - k - 2); for (int i = k; i < len && i < k + 2; i++) sb("z");
		vp_assert(run("a.ROM") == 0, "status"); m = vp_out("a.ROM", &q); vp_assert(m == 512 * 1024, ".rom is 512 KiB");
		if (m == 512 * 1024) { vp_assert_eq(q, code.b, code.n, ".rom starts with the image"); int ff = 1; for (int i = code.n; i < m; i++) ff &= q[i] == 0xFF; vp_assert(ff, ".rom is padded with FF"); }
		vp_reach("rom");
	} else if (what == 2) {
		static const int szs[] = { 0, 1, 40, 130, 16288, 16384 + 1024, 32672 };
		int order = vp_choose(6), nl = vp_choose(8) + 1, sz = vp_choose(T ? 7 : 5);
		if (sz >= 4 && (order != 1 || nl != 3)) return; if (!T && sz < 4 && (order + nl + sz) % 4) return;
		vp_go(); vp_label("8xk");
		db(0x80); db(0x0F); for (int i = 0; i < 4; i++) sb("len");
		int npos = 0, ppos = 0; static const u8 ord[6][3] = { {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0} };
		for (int i = 0; i < 3; i++) switch (ord[order][i]) {
			case 0: db(0x80); db(0x12); db(1); db(4); if (order & 1) { db(0x80); db(0x21); sb("b"); } break;
			case 1: db(0x80); db(0x40 + nl); npos = code.n; for (int j = 0; j < nl; j++) sb("n"); break;
			case 2: if (order & 1) { db(0x80); db(0xA3); sb("d"); sb("d"); sb("d"); } db(0x80); db(0x81); ppos = code.n; sb("p"); break;
		}
		db(0x80); db(0x90); db(0x80); db(0x70); sb("x"); sb("x");
		int n = code.n; if (szs[sz] > 200) n = szs[sz]; else n += szs[sz];
		fill(n - code.n - 1); if (code.n < n) sb("y");
		int r = run("app.8xk"); vp_assert(r <= 1, "status");
		int pages = (n + 16383) / 16384; u8 *c = code.b;
		c[2] = (n - 6) >> 24; c[3] = (n - 6) >> 16; c[4] = (n - 6) >> 8; c[5] = n - 6; c[ppos] = pages;
		m = vp_out("app.8xk", &q);
		b_s(&e, "**TIFL**"); b_c(&e, 1); b_c(&e, 1); b_c(&e, 1); b_c(&e, 0x88); b_mem(&e, "\x01\x01\x19\x97", 4); b_c(&e, nl);
		for (int i = 0; i < 8; i++) b_c(&e, i < nl ? c[npos + i] : 0);
		while (e.n < 48) b_c(&e, 0); b_c(&e, 0x73); b_c(&e, 0x24); while (e.n < 74) b_c(&e, 0);
		// the signature: 96 bytes after the image, taken from the file
		B full = mk(); b_mem(&full, c, n);
		for (int i = n; i < n + 96; i++) {
			int off = 78 + (i / 16384 + 1) * 17 + i / 32 * 77 + 9 + i % 32 * 2;
			if (off + 2 > m) { b_c(&full, 0); continue; }
			b_c(&full, unhex(q[off]) << 4 | unhex(q[off + 1]));
		}
		vp_assert(full.b[n] == 2 && full.b[n + 1] == 0x2d && full.b[n + 2] <= 0x40 && full.b[n + 95] == 0xFF, "the signature follows the image");
		B h = mk(); hexfile(&h, full.b, full.n); e_w(&e, h.n); e_w(&e, h.n >> 16); b_mem(&e, h.b, h.n);
		vp_assert(m == e.n, ".8xk length"); 
		if (m == e.n) { vp_assert_eq(q, e.b, 74, "TIFL header and name"); vp_assert_eq(q + 74, e.b + 74, 4, "the length field equals the hex section"); vp_assert_eq(q + 78, e.b + 78, m - 78, "the image with length and page fields, in valid records"); }
		vp_reach("8xk");
	} else {
		int k = vp_choose(7); vp_go(); vp_label("not an application");
		if (k != 0) { db(0x80); db(0x0F); for (int i = 0; i < 4; i++) db(0); }
		if (k == 0) { sb("b"); sb("b"); vp_assume(!(code.b[0] == 0x80 && code.b[1] == 0x0F)); for (int i = 0; i < 4; i++) db(0); }
		if (k != 1) { db(0x80); db(0x12); if (k == 2) { sb("t"); sb("t"); vp_assume(!(code.b[8] == 1 && code.b[9] == 4)); } else { db(1); db(4); } }
		if (k != 3) { db(0x80); db(0x81); db(0); }
		if (k != 4) { db(0x80); db(0x43); sb("n"); sb("n"); sb("n"); }
		db(0x80); db(0x70);
		if (k >= 5) fill((k == 5 ? 16384 : 16289) - code.n);
		int r = run("app.8xk");
		vp_assert(r >= 2, "an image that cannot be an application is diagnosed"); vp_reach("not an application");
	}
}
