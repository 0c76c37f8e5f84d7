// Harness interface. The same harness source runs under the symbolic executor (rt.c) and natively
// against the real binary (native.c), where vp_byte/vp_choose take the values of a recorded counterexample.
#ifndef VP_H
#define VP_H
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef int i32; typedef long long i64;
#ifndef NULL
#define NULL ((void *) 0)
#endif

u8 vp_byte(const char *name, const void *dom, int n);   // symbolic byte ranging over dom[0..n-1]
int vp_choose(int n);                                   // every value 0..n-1 is explored
void vp_assume(int c);
void vp_assert(int c, const char *msg);                 // decided by the solver for all values on the path
void vp_assert_eq(const void *p, const void *q, int n, const char *msg);
void vp_reach(const char *label);
void vp_label(const char *label);
void vp_go(void);                                       // end of case splitting: cases are explored in parallel from here
int vp_tier(void);
int vp_issym(int v);
int vp_concrete(int v);
void vp_done(void);
void vp_fail(const char *why);

void vp_file(const char *name, const void *data, int len);   // add an input file
void vp_clear(void);                                    // forget all files
void vp_arg(const char *a);                             // append a command-line argument
void vp_limit(u32 k);                                   // the next run can store only k bytes in each file (later writes fail)
int vp_run(void);                                       // run the assembler with the arguments; returns the exit status
int vp_out(const char *name, u8 **p);                   // contents of a file after a run; length, -1 if absent
int vp_stdout(u8 **p);                                  // captured standard output of the last run
void *vp_alloc(int n);
void vp_copy(void *d, const void *s, int n);

// ---- source text builder
typedef struct { u8 *b; int n, cap; } B;
static inline void b_init(B *b) { b->cap = 2048; b->b = (u8 *) vp_alloc(b->cap); b->n = 0; }
static inline void b_need(B *b, int k) {
	if (b->n + k > b->cap) { int c = (b->n + k) * 2; u8 *q = (u8 *) vp_alloc(c); vp_copy(q, b->b, b->n); b->b = q; b->cap = c; }
}
static inline void b_c(B *b, int c) { b_need(b, 1); b->b[b->n++] = (u8) c; }
static inline void b_s(B *b, const char *s) { while (*s) b_c(b, *s++); }
static inline void b_mem(B *b, const void *p, int n) { b_need(b, n); vp_copy(b->b + b->n, p, n); b->n += n; }
static inline void b_u(B *b, u32 v) { char t[12]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); while (n) b_c(b, t[--n]); }
static inline void b_i(B *b, i32 v) { if (v < 0) { b_c(b, '-'); b_u(b, 0u - (u32) v); } else b_u(b, v); }
static inline void b_x(B *b, u32 v, int digits) { while (digits--) b_c(b, "0123456789ABCDEF"[(v >> (4 * digits)) & 15]); }

static inline char *vp_name(const char *p, int i) {
	char *n = (char *) vp_alloc(24); int k = 0;
	while (*p) n[k++] = *p++;
	if (i >= 100) n[k++] = '0' + i / 100 % 10;
	if (i >= 10) n[k++] = '0' + i / 10 % 10;
	n[k++] = '0' + i % 10; n[k] = 0;
	return n;
}
static const u8 vp_nib[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
static const u8 vp_HEX[16] = {'0','1','2','3','4','5','6','7','8','9','A','B','C','D','E','F'};
static const u8 vp_hexl[16] = {'0','1','2','3','4','5','6','7','8','9','a','b','c','d','e','f'};
// k symbolic hexadecimal digits appended to b; returns their value
static inline u32 b_hex(B *b, const char *name, int k) {
	u32 v = 0;
	for (int i = 0; i < k; i++) {
		u8 d = vp_byte(vp_name(name, i), vp_nib, 16);
		b_c(b, vp_HEX[d]); v = v << 4 | d;
	}
	return v;
}
// k symbolic decimal digits
static inline u32 b_dec(B *b, const char *name, int k) {
	u32 v = 0;
	for (int i = 0; i < k; i++) {
		u8 d = vp_byte(vp_name(name, i), vp_nib, 10);
		b_c(b, '0' + d); v = v * 10 + d;
	}
	return v;
}
static inline u32 b_bin(B *b, const char *name, int k) {
	u32 v = 0;
	for (int i = 0; i < k; i++) {
		u8 d = vp_byte(vp_name(name, i), vp_nib, 2);
		b_c(b, '0' + d); v = v * 2 + d;
	}
	return v;
}
// a symbolic number of up to 32 bits without source text
static inline u32 vp_u(const char *name, int nibbles) {
	u32 v = 0;
	for (int i = 0; i < nibbles; i++) v = v << 4 | vp_byte(vp_name(name, i), vp_nib, 16);
	return v;
}
static inline u8 vp_u8(const char *name) { return (u8) vp_u(name, 2); }
static inline u8 vp_any(const char *name) { u8 d[256]; for (int i = 0; i < 256; i++) d[i] = (u8) i; return vp_byte(name, d, 256); }
static inline u8 vp_pick(const char *name, const char *set) { int n = 0; while (set[n]) n++; return vp_byte(name, set, n); }

static inline int vp_slen(const char *s) { int n = 0; while (s[n]) n++; return n; }
// number of occurrences of a concrete needle in p[0..n); positions whose match depends on symbolic bytes are decided by forking
static inline int vp_count(const u8 *p, int n, const char *needle) {
	int k = vp_slen(needle), c = 0;
	for (int i = 0; i + k <= n; i++) {
		int m = 1;
		for (int j = 0; j < k && m; j++) m = p[i + j] == (u8) needle[j];
		if (m) { c++; i += k - 1; }
	}
	return c;
}
static inline int vp_said(const char *needle) { u8 *p; int n = vp_stdout(&p); return vp_count(p, n, needle); }
static inline int vp_streq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
#endif
