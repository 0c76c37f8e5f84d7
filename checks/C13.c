// C13: the symbol file lists every label once, sorted, with its exact value
#include "h.h"
typedef struct { char nm[16]; u32 v; int val; } S;
static S s[16]; static int ns; static B src, post; static int cs;
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return !cs && c >= 'a' && c <= 'z' ? c - 32 : c; }
static int ccmp(const u8 *a, const u8 *b) {   // names end at the blank
	while (*a != ' ' && *b != ' ' && low(*a) == low(*b)) { a++; b++; }
	int x = *a == ' ' ? 0 : low(*a), y = *b == ' ' ? 0 : low(*b);
	return x - y;
}
static int line_len(const u8 *p, int n) { int i = 0; while (i < n && p[i] != '\n') i++; return i; }
static int is_name(const u8 *l, int n, const char *nm) { int k = vp_slen(nm); if (n < k + 1) return 0; for (int i = 0; i < k; i++) if (l[i] != (u8) up(nm[i])) return 0; return l[k] == ' '; }
static void check(const char *file, const u8 *base, int nb) {
	u8 *o; int n = vp_out(file, &o);
	vp_assert(n >= 0, "the symbol file is written next to the output file");
	if (n < 0) return;
	int total = 0, bl = 0; const u8 *prev = 0;
	for (int i = 0; i < nb; i++) bl += base[i] == '\n';
	for (int i = 0; i < n; ) {
		int k = line_len(o + i, n - i);
		vp_assert(i + k < n, "every line is complete");
		if (prev) vp_assert(ccmp(prev, o + i) <= 0, "lines are in case-insensitive alphabetical order");
		prev = o + i; total++; i += k + 1;
	}
	int want = bl;
	for (int j = 0; j < ns; j++) {
		int seen = 0; want += s[j].val;
		for (int i = 0; i < n; ) {
			int k = line_len(o + i, n - i);
			if (is_name(o + i, k, s[j].nm)) {
				seen++;
				B e = mk(); for (const char *q = s[j].nm; *q; q++) b_c(&e, up(*q));
				b_s(&e, " = $"); u32 v = s[j].v; int d = 4; while (d < 8 && vp_concrete((v >> 4 * d) != 0)) d++;
				while (d--) b_c(&e, vp_HEX[(v >> 4 * d) & 15]);
				vp_assert(e.n == k, "a line is NAME = $HEX"); if (e.n == k) vp_assert_eq(o + i, e.b, k, "a line gives the value of its label");
			}
			i += k + 1;
		}
		vp_assert(seen == s[j].val, "every label and value has exactly one line");
	}
	for (int i = 0; i < nb; ) {   // the built-in symbols stay
		int k = line_len(base + i, nb - i), seen = 0;
		for (int j = 0; j < n; ) { int m = line_len(o + j, n - j); if (m == k) { int q = 0; while (q < k && o[j + q] == base[i + q]) q++; seen += q == k; } j += m + 1; }
		vp_assert(seen == 1, "built-in symbols are listed once"); i += k + 1;
	}
	vp_assert(total == want, "nothing else is listed");
	vp_reach("symbol file");
}
static void add(const char *nm, u32 v) { S *p = s + ns++; int i = 0; for (; nm[i]; i++) p->nm[i] = nm[i]; p->nm[i] = 0; p->v = v; p->val = 1; }
// definitions of a symbol in the different ways
static void define(int how, const char *nm, int i, u32 *pc) {
	u32 v; const char *x = vp_name("v", i);
	switch (how) {
	case 0: b_s(&src, nm); b_s(&src, " = "); v = b_h(&src, x, 8); b_c(&src, '\n'); break;
	case 1: b_s(&src, nm); b_s(&src, " .equ -"); v = -b_h(&src, x, 4); b_c(&src, '\n'); break;
	case 2: b_s(&src, nm); b_s(&src, i & 1 ? ":\n .dw 1\n" : "\n .dw 5\n"); v = *pc; *pc += 2; break;
	case 3: b_s(&src, "#define "); b_s(&src, nm); b_s(&src, " ("); v = b_h(&src, x, 5); b_s(&src, ")*2 ; c\n"); v *= 2; break;
	case 4: b_s(&src, "#define "); b_s(&src, nm); b_s(&src, " fwd"); b_u(&src, i); b_s(&src, "-1\n"); b_s(&post, "fwd"); b_u(&post, i); b_s(&post, " = "); v = b_h(&post, x, 4) ; b_c(&post, '\n'); add(vp_name("fwd", i), v); v--; break;
	case 5: b_s(&src, nm); b_s(&src, " = "); b_h(&src, vp_name("o", i), 2); b_c(&src, '\n'); b_s(&src, nm); b_s(&src, " = "); v = b_h(&src, x, 4); b_c(&src, '\n'); break;
	}
	add(nm, v);
}
void harness(void) {
	src = mk(); post = mk(); ns = 0; u32 pc = 0;
	int what = vp_choose(3), T = vp_tier();
	static const char *names[] = { "a", "ab", "abc", "a1", "A_b", "_a", "zz9", "Z", "mM", "longer_name1" };
	int h[4], p = 0, perm = 0, path = 0;
	if (what == 0) { for (int i = 0; i < 3; i++) h[i] = vp_choose(6); cs = 0; p = vp_choose(T ? 10 : 2); }
	else if (what == 1) { perm = vp_choose(6); cs = vp_choose(2); h[0] = vp_choose(2); }
	else { path = vp_choose(7); cs = 0; }
	vp_go(); vp_label(what == 0 ? "kinds" : what == 1 ? "order" : "paths");
	if (what == 0) {
		for (int i = 0; i < 3; i++) define(h[i], names[(i * 3 + p + h[0]) % 10], i, &pc);
		b_s(&src, "#define m(x) x\n#macro mq(y)\n .db y\n#endmacro\n#define str \"st\"\n#define nul no_such_name+1\n_\n mq(4)\n");
	} else if (what == 1) {   // names with symbolic characters, every order of definition
		static const u8 pm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
		char nm[3][8]; const char *set = h[0] ? "aBxz" : "bAYy";
		for (int i = 0; i < 3; i++) { nm[i][0] = vp_concrete(vp_pick(vp_name("n", i), set)); int k = 1; if (i == 1) nm[i][k++] = vp_concrete(vp_pick("m", "a0_C")); nm[i][k] = 0; }
		for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { int k = 0; while (up(nm[i][k]) == up(nm[j][k]) && nm[i][k]) k++; vp_assume(up(nm[i][k]) != up(nm[j][k])); }
		for (int i = 0; i < 3; i++) define(i & 1 ? 2 : i ? 3 : 0, nm[pm[perm][i]], i, &pc);
	} else for (int i = 0; i < 4; i++) define(i, names[i + 4], i, &pc);
	b_mem(&src, post.b, post.n);
	B e = mk(); vp_file("e.asm", e.b, 0); if (cs) vp_arg("-A"); vp_arg("-L"); vp_arg("e.asm"); vp_arg("e.bin"); int r = vp_run();
	vp_assert(r == 0, "an empty program has a symbol file");
	u8 *o; int nb = vp_out("e.lab", &o); vp_assert(nb > 0, "an empty program has a symbol file"); if (nb <= 0) return;
	u8 *base = vp_alloc(nb); vp_copy(base, o, nb);
	static const char *out[] = { "a.bin", "b", "out.d/prog", "out.d/prog.8xp", "./prog", 0, "x.y.z" }, *lab[] = { "a.lab", "b.lab", "out.d/prog.lab", "out.d/prog.lab", "prog.lab", "a.lab", "x.y.lab" };
	vp_file("a.asm", src.b, src.n); vp_file("out.d/x", "", 0);
	if (cs) vp_arg("-A"); vp_arg("-L"); if (path == 5) vp_arg("-O"); vp_arg("a.asm"); if (out[path]) vp_arg(out[path]);
	r = vp_run();
	{ int redef = 0; for (int i = 0; what == 0 && i < 3; i++) redef |= h[i] == 5; if (path != 6 && path != 3 && !redef) vp_assert(r == 0, "exit status"); else vp_assert(r <= 1, "only a warning"); }
	check(lab[path], base, nb);
}
