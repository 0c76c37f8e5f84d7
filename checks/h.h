// shared helpers of the harnesses
#include "vp.h"
typedef B *BP;
// assemble the text of b as a.asm to a.bin, with up to three options
static inline int asm3(B *b, const char *o1, const char *o2, const char *o3) {
	vp_file("a.asm", b->b, b->n);
	if (o1) vp_arg(o1); if (o2) vp_arg(o2); if (o3) vp_arg(o3);
	vp_arg("a.asm"); vp_arg("a.bin");
	return vp_run();
}
static inline int asm0(B *b) { return asm3(b, 0, 0, 0); }
// the output file equals the bytes collected in e
static inline void same(B *e, const char *msg) {
	u8 *o; int n = vp_out("a.bin", &o);
	vp_assert(n == e->n, "output length is as expected");
	if (n == e->n) vp_assert_eq(o, e->b, n, msg);
}
// assembles without diagnostics to exactly e
static inline void good(B *b, const char *opt, B *e, const char *msg) {
	int r = asm3(b, opt, 0, 0);
	vp_assert(r == 0, "a valid program assembles with exit status 0");
	same(e, msg); vp_reach(msg);
}
// fails: status >= 2 and the diagnostic code appears
static inline void bad(B *b, const char *opt, const char *code, const char *msg) {
	int r = asm3(b, opt, 0, 0);
	vp_assert(r >= 2 && vp_said(code) > 0, msg); vp_reach(msg);
}
static inline void e_w(B *e, u32 v) { b_c(e, v & 255); b_c(e, (v >> 8) & 255); }
static inline void e_l(B *e, u32 v) { e_w(e, v); b_c(e, (v >> 16) & 255); }
static inline B mk(void) { B b; b_init(&b); return b; }
// "$" and k symbolic hexadecimal digits
static inline u32 b_h(B *b, const char *nm, int k) { b_c(b, '$'); return b_hex(b, nm, k); }
// a signed number: optional minus chosen by neg
static inline i32 b_sh(B *b, const char *nm, int k, int neg) { if (neg) b_c(b, '-'); i32 v = (i32) b_h(b, nm, k); return neg ? -v : v; }
