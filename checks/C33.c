// C33: what cannot be stored or read is reported; nothing is lost silently
#include "h.h"
static const char *ext[] = { "a.bin", "a.hex", "a.8xp", "a.8xv", "a.86s", "a.82p", "a.73p", "a.85s", "a", "a.86p", "a.83p", "a.85p", "a.82p" };
static u32 dig(int k) { return vp_u("lim", k); }
// the program; big: files of more than one buffer
static int prog(B *b, int big, int echo) {
	b_s(b, "A1 = "); b_h(b, "a", 2); b_s(b, "\n#define D1 "); b_h(b, "d", 2); b_s(b, "\n .org $100\nL1: .db A1,D1,$5A\n ld hl,L1\n");
	if (big == 1) { b_s(b, " .fill 5000,A1\n"); }
	if (big == 2) { b_s(b, " .db 1"); for (int i = 0; i < 40; i++) b_s(b, ",2"); b_s(b, "\n"); for (int i = 0; i < 60; i++) { b_s(b, "L"); for (int k = 0; k < 60; k++) b_c(b, 'a' + k % 26); b_u(b, i); b_s(b, ": .dw A1 ; text\n"); } }
	if (echo == 1) b_s(b, " .echo > \"o.txt\" \"value \",A1,\" and more\"\n");
	if (echo == 2) { for (int i = 0; i < 3; i++) b_s(b, " .echo >> \"o.txt\" \"line \",D1,\"\\n\"\n"); }
	if (echo == 3) { b_s(b, " .echo > \"o.txt\" \"x\""); for (int i = 0; i < 40; i++) { b_s(b, ",\""); for (int k = 0; k < 110; k++) b_c(b, 'a' + (i + k) % 26); b_s(b, "\""); } b_s(b, "\n"); }
	return 0;
}
static void args(const char *o, const char *out) { vp_arg("-N"); if (o) vp_arg(o); vp_arg("a.asm"); vp_arg(out); }
static void room(void) {
	int f = vp_choose(vp_tier() ? 13 : 10), big = vp_choose(3), k = vp_choose(6), i; static const char *opt[] = { 0, "-T", "-L", 0, 0, 0 }; B b = mk(); const char *out = ext[f]; 
	int echo = k < 3 ? 0 : k - 2; static const char *nm[] = { 0, "a.lst", "a.lab", "o.txt" }; u8 *p, *q[4]; int n[4];
	if (k && f > 1) return;
	vp_go(); vp_label(out); prog(&b, big, echo); vp_file("a.asm", b.b, b.n);
	args(opt[k], out); int r = vp_run(), r0 = r, m = 0; vp_assert(r <= 1, "the program is valid");
	for (i = 0; i < 4; i++) { n[i] = vp_out(i ? nm[i] : out, &p); q[i] = 0; if (n[i] > m) m = n[i]; if (n[i] >= 0) { q[i] = vp_alloc(n[i] + 1); vp_copy(q[i], p, n[i]); } }
	vp_assert(n[0] > 0 && (k != 1 || n[1] > 0) && (k != 2 || n[2] > 0) && (k < 3 || n[3] > 0), "every file is written");
	vp_clear(); vp_file("a.asm", b.b, b.n); u32 lim = dig(4); vp_limit(lim);
	args(opt[k], out); r = vp_run();
	if (lim < (u32) m) { vp_assert(r >= 2, "a file that cannot be stored whole makes the assembly fail"); vp_assert(vp_said("rror") + vp_said("not access") > 0, "the failure is reported"); vp_reach(k ? "no room for a listing, a symbol file or text" : "no room for the output"); }
	else {
		vp_assert(r == r0, "files that fit are no error");
		for (i = 0; i < 4; i++) { int l = vp_out(i ? nm[i] : out, &p); vp_assert(l == n[i], "the files are whole"); if (l == n[i] && l > 0) vp_assert_eq(p, q[i], l, "the files are as without a limit"); }
		vp_reach("enough room");
	}
}
// files that cannot be opened
static void closed(void) {
	int k = vp_choose(8), how = vp_choose(2), g = vp_choose(4); B b = mk(), e = mk(); static const char *dir[] = { "a.bin/x", "a.lst/x", "a.lab/x", "o.txt/x", "i.inc/x", "i.bin/x", "a.asm/x", "b.asm/x" };
	static const char *miss[] = { "no/a.bin", "no/a.bin", "no/a.bin", "no/o.txt", "no/i.inc", "no/i.bin", "no/a.asm", "no" };
	vp_go(); vp_label(dir[k]); b_s(&b, " .db "); b_h(&b, "a", 2); b_s(&b, "\n"); if (g & 1) b_s(&b, "L1: .dw L1\n"); int a = (g & 1) ? 3 : 1; (void) a;
	const char *n = how ? miss[k] : dir[k]; char t[16]; int i; for (i = 0; n[i]; i++) t[i] = n[i]; t[i] = 0; if (!how) t[i - 2] = 0;
	if (k == 3) { b_s(&b, " .echo > \""); b_s(&b, t); b_s(&b, "\" \"x\",1\n"); } if (k == 4) { b_s(&b, "#include \""); b_s(&b, t); b_s(&b, "\"\n"); } if (k == 5) { b_s(&b, "#import \""); b_s(&b, t); b_s(&b, "\"\n"); }
	if (k == 7) b_s(&b, "#include \"b.asm\"\n"); if (g & 1) b_s(&b, " nop\n");
	if (!how) vp_file(dir[k], "x", 1); if (k != 6) vp_file("a.asm", b.b, b.n);
	if (k == 1) vp_arg("-T"); if (k == 2) vp_arg("-L"); if (g & 2) vp_arg("-A"); vp_arg(k == 6 ? t : "a.asm"); vp_arg(k == 0 || how && (k == 1 || k == 2) ? t : "a.bin");
	int r = vp_run(); vp_assert(r >= 2, "a file that cannot be opened makes the assembly fail"); vp_assert(vp_said("rror") + vp_said("ould") + vp_said("ile") > 0, "the failure is reported"); vp_reach(k < 4 ? "a file cannot be created" : "a file cannot be read");
}
void harness(void) { if (vp_choose(2)) room(); else closed(); }
