// C29: a name denotes what it was defined as, whatever other names there are
#include "h.h"
static const char first[] = "aA_", rest[] = "aB0.!";
static u8 up(u8 c) { return c - 32 * ((u8) (c - 97) < 26); }
static u32 vp_hexval(u8 c) { return (c & 15) + (c >> 6) * 9; }
static int eq(const u8 *a, const u8 *b, int n, int cs) { int r = 1; for (int i = 0; i < n; i++) r &= cs ? a[i] == b[i] : up(a[i]) == up(b[i]); return r; }
enum { LAB, SET, EQU, DEF, FUN, MAC, NK };
static void def(B *b, int k, const u8 *s, int n, u32 *v, const char *nm) {
	switch (k) {
	case LAB: b_s(b, " .org "); *v = b_h(b, nm, 4); b_c(b, '\n'); b_mem(b, s, n); b_s(b, ":\n"); break;
	case SET: b_mem(b, s, n); b_s(b, " = "); *v = b_h(b, nm, 4); b_c(b, '\n'); break;
	case EQU: b_mem(b, s, n); b_s(b, " .equ "); *v = b_h(b, nm, 4); b_c(b, '\n'); break;
	case DEF: b_s(b, "#define "); b_mem(b, s, n); b_c(b, ' '); *v = b_h(b, nm, 4); b_c(b, '\n'); break;
	case FUN: b_s(b, "#define "); b_mem(b, s, n); b_s(b, "(p) p+"); *v = b_h(b, nm, 4) + 7; b_c(b, '\n'); break;
	case MAC: b_s(b, "#macro "); b_mem(b, s, n); b_s(b, "(p)\n .dw p+"); *v = b_h(b, nm, 4) + 7; b_s(b, "\n#endmacro\n"); break;
	}
}
static void use(B *b, int k, const u8 *s, int n) { b_s(b, k == MAC ? " " : " .dw "); b_mem(b, s, n); if (k >= FUN) b_s(b, "(7)"); b_c(b, '\n'); }
static const char *tok[] = { "$N", "0Nh", "xN", "Nx", "\"N\"", "7 ; N", "_N", "N_", "N0", "N!", "N?", "x.N", "N.x", "N]", "N+N", "(N)", "-N", "$0N+N", "'a'+N", "N*2", "N,N", "5\\ .dw N", "~N" };
enum { NT = sizeof tok / sizeof *tok };
static void put(B *b, const char *t, const u8 *n) { for (; *t; t++) if (*t == 'N') b_mem(b, n, 2); else b_c(b, *t); }
void harness(void) {
	B b = mk(), e = mk(); int g = vp_choose(5), T = vp_tier();
	if (g == 0) {        // two definitions
		int k1 = vp_choose(NK), k2 = vp_choose(NK), n1 = 1 + vp_choose(3), n2 = 1 + vp_choose(T ? 3 : 2), A, w; if (T) { A = vp_choose(2); w = vp_choose(4); } else { A = (k1 + k2 + n1 + n2) & 1; w = (k1 * 2 + k2 + n1 + n2 * 3) % 4; }
		vp_go(); vp_label("two names"); u8 s1[4], s2[4]; u32 v1, v2;
		for (int i = 0; i < n1; i++) s1[i] = vp_pick(vp_name("m", i), i ? rest : first);
		for (int i = 0; i < n2; i++) s2[i] = vp_pick(vp_name("n", i), i ? rest : first);
		if (n1 == 1) vp_assume(s1[0] != '_'); if (n2 == 1) vp_assume(s2[0] != '_');
		if (n1 == n2) vp_assume(!eq(s1, s2, n1, A));
		int f1 = k1 < DEF && (w & 1), f2 = k2 < DEF && (w & 2); B d = mk();
		if (f1) use(&b, k1, s1, n1); if (f2) use(&b, k2, s2, n2);
		def(&d, k1, s1, n1, &v1, "v"); def(&d, k2, s2, n2, &v2, "w"); b_mem(&b, d.b, d.n);
		if (f1) e_w(&e, v1); if (f2) e_w(&e, v2);
		use(&b, k1, s1, n1); use(&b, k2, s2, n2); e_w(&e, v1); e_w(&e, v2);
		if (w == 3) { use(&b, k1, s1, n1); e_w(&e, v1); }
		good(&b, A ? "-A" : 0, &e, "each name keeps its own value");
	} else if (g == 1) { // a name inside other names and literals
		int t = vp_choose(NT), c = vp_choose(6), l = vp_choose(2); vp_go(); vp_label("a name inside another"); u8 n[2]; n[0] = vp_pick("m", "abcdefABCDEF"); n[1] = vp_pick("n", "abcdefABCDEF");
		u32 hex = vp_hexval(n[0]) * 16 + vp_hexval(n[1]), v, o = 0; int own = 0;
		B q = mk(); put(&q, tok[t], n);
		if (c == 0) { b_s(&b, "#define "); b_mem(&b, n, 2); b_c(&b, ' '); v = b_h(&b, "v", 4); b_c(&b, '\n'); }
		else if (c == 1) { b_mem(&b, n, 2); b_s(&b, " = "); v = b_h(&b, "v", 4); b_c(&b, '\n'); }
		else if (c == 5) b_s(&b, " .dw 1\n"), e_w(&e, 1);
		if (t == 2 || t == 3 || (t >= 6 && t <= 13)) { own = 1; if (!l) { put(&b, tok[t], n); b_s(&b, " = "); o = b_h(&b, "o", 4); b_c(&b, '\n'); } }
		switch (c) {
		case 0: case 1: case 5: b_s(&b, " .dw "); b_mem(&b, q.b, q.n); b_c(&b, '\n'); break;
		case 2: if (t == 5 || t == 21) return; b_s(&b, "#define F("); b_mem(&b, n, 2); b_s(&b, ") "); b_mem(&b, q.b, q.n); b_s(&b, "\n .dw F("); v = b_h(&b, "v", 4); b_s(&b, ")\n"); break;
		case 3: b_s(&b, "#macro M("); b_mem(&b, n, 2); b_s(&b, ")\n .dw "); b_mem(&b, q.b, q.n); b_s(&b, "\n#endmacro\n M("); v = b_h(&b, "v", 4); b_s(&b, ")\n"); break;
		case 4: if (t == 5 || t == 21) return; b_s(&b, "#define F "); b_mem(&b, q.b, q.n); b_s(&b, "\n#define "); b_mem(&b, n, 2); b_c(&b, ' '); v = b_h(&b, "v", 4); b_s(&b, "\n .dw F\n"); break;
		}
		if (c == 5) { b_mem(&b, n, 2); b_s(&b, " = "); v = b_h(&b, "v", 4); b_c(&b, '\n'); }
		if (own && l) { put(&b, tok[t], n); b_s(&b, " = "); o = b_h(&b, "o", 4); b_c(&b, '\n'); }
		switch (t) {
		case 0: case 1: e_w(&e, hex); break;
		case 4: b_mem(&e, n, 2); break;
		case 5: e_w(&e, 7); break;
		case 14: e_w(&e, v + v); break; case 16: e_w(&e, -v); break; case 17: e_w(&e, hex + v); break; case 18: e_w(&e, 'a' + v); break; case 19: e_w(&e, v * 2); break; case 20: e_w(&e, v); e_w(&e, v); break; case 21: e_w(&e, 5); e_w(&e, v); break; case 22: e_w(&e, ~v); break;
		case 15: e_w(&e, v); break;
		default: e_w(&e, o);
		}
		good(&b, 0, &e, "a name is recognised whole");
	} else if (g == 2) { // sequences of #define and #undef
		int op[4]; for (int i = 0; i < 4; i++) op[i] = vp_choose(5); int x = op[0] + op[1] * 3 + op[2] * 5 + op[3] * 7, sh = x % 3, A = T ? vp_choose(2) : x / 3 % 2; vp_go(); vp_label("#define and #undef");
		u8 s[2][4]; int n[2]; s[0][0] = vp_pick("m", first); s[0][1] = vp_pick("n", rest); n[0] = 2;
		if (sh == 0) { s[1][0] = s[0][0]; n[1] = 1; vp_assume(s[0][0] != '_'); } else if (sh == 1) { s[1][0] = s[0][0]; s[1][1] = s[0][1]; s[1][2] = vp_pick("o", rest); n[1] = 3; } else { s[1][0] = vp_pick("p", first); s[1][1] = s[0][1]; n[1] = 2; vp_assume(!eq(s[0], s[1], 2, A)); }
		int on[2] = {0, 0}, redef = 0; u32 v[2] = {0, 0};
		for (int i = 0; i < 4; i++) {
			int j = op[i] & 1;
			if (op[i] == 4) { b_s(&b, "#defcont +$01\n"); int any = 0; for (int q = 0; q < i; q++) any |= op[q] == 2 || op[q] == 3; if (any || !i || op[i - 1] > 1) return; vp_assume(on[op[i - 1] & 1]); v[op[i - 1] & 1] += 1; }
			else if (op[i] < 2) { b_s(&b, "#define "); b_mem(&b, s[j], n[j]); b_c(&b, ' '); v[j] = b_h(&b, vp_name("v", i), 2); b_c(&b, '\n'); redef |= on[j]; on[j] = 1; }
			else { b_s(&b, i & 1 ? "#undef " : "#undefine "); b_mem(&b, s[j], n[j]); b_c(&b, '\n'); on[j] = 0; }
			for (j = 0; j < 2; j++) { b_s(&b, "#ifdef "); b_mem(&b, s[j], n[j]); b_s(&b, "\n .dw "); b_mem(&b, s[j], n[j]); b_s(&b, "\n#else\n .db $EE\n#endif\n"); if (on[j]) e_w(&e, v[j]); else b_c(&e, 0xEE); }
		}
		int r = asm3(&b, A ? "-A" : 0, 0, 0); vp_assert(redef ? r <= 1 : r == 0, "a valid program assembles with exit status 0"); same(&e, "#define and #undef affect the named define only"); vp_reach("#define and #undef affect the named define only");
	} else if (g == 4) { // .show and .option
		int k = vp_choose(6), late = vp_choose(2), sh = vp_choose(3), A = vp_choose(2), ms = vp_choose(2); vp_go(); vp_label(".show");
		u8 s[2][4]; int n[2]; s[0][0] = vp_pick("m", first); s[0][1] = vp_pick("n", "aB0"); n[0] = 2; s[1][0] = s[0][0]; s[1][1] = s[0][1]; n[1] = 3;
		if (sh == 0) { n[1] = 1; vp_assume(s[0][0] != '_'); } else if (sh == 1) s[1][2] = vp_pick("o", "aB0"); else { s[1][1] = vp_pick("p", "aB0"); n[1] = 2; vp_assume(!eq(s[0], s[1], 2, A)); }
		B d = mk(), w = mk(); u32 v = 0;
		if (k == 5) b_s(&w, "__"); for (int i = 0; i < n[0]; i++) { u8 c = s[0][i]; if (!A) c = up(c); b_c(&w, c); }
		b_s(&d, "#define "); b_mem(&d, s[1], n[1]); b_s(&d, " 99\n");
		switch (k) {
		case 0: b_s(&d, "#define "); b_mem(&d, s[0], 2); b_s(&d, " 4"); b_s(&w, ":4"); goto val;
		case 1: b_s(&d, "#define "); b_mem(&d, s[0], 2); b_s(&d, "\n"); b_s(&w, ":1"); break;
		case 2: b_s(&d, "#define "); b_mem(&d, s[0], 2); b_s(&d, "(p,qr) p+qr+"); b_s(&w, "(p,qr):p+qr+"); goto val;
		case 3: b_s(&d, "#define "); b_mem(&d, s[0], 2); b_s(&d, " 1+\n#defcont "); b_s(&w, ":1+"); goto val;
		case 4: b_s(&d, "#define "); b_mem(&d, s[0], 2); b_s(&d, " 5\n#define "); b_mem(&d, s[0], 2); b_s(&d, " 2"); b_s(&w, ":2"); goto val;
		case 5: vp_assume(s[0][0] != 95); b_s(&d, " .option x0=5,"); b_mem(&d, s[0], 2); b_s(&d, "=3"); b_s(&w, ":3"); goto val;
		val: b_c(&d, vp_pick("v", "0123456789")); b_c(&w, d.b[d.n - 1]); b_c(&d, '\n');
		}
		B u = mk(); b_s(&u, " .show "); if (ms) b_s(&u, "none"); else { if (k == 5) b_s(&u, "__"); b_mem(&u, s[0], 2); } b_s(&u, " ; x\n .db 5\n"); b_c(&e, 5);
		if (late) b_mem(&b, u.b, u.n); b_mem(&b, d.b, d.n); if (!late) b_mem(&b, u.b, u.n);
		int r = asm3(&b, A ? "-A" : 0, 0, 0);
		if (ms) { vp_assert(r >= 2, "a name that does not exist is diagnosed"); return; }
		vp_assert(k == 4 ? r <= 1 : r == 0, "a valid program assembles with exit status 0"); same(&e, ".show emits nothing");
		u8 *q; int m = vp_stdout(&q), hit = 0;
		for (int i = 0; i < m; i++) {   // a line that is the text, up to spaces
			int j = i, x = 0; if (i && q[i - 1] != '\n' && q[i - 1] != 'm') continue;
			for (; j < m && x < w.n; j++) { if (q[j] == ' ') continue; if (q[j] != w.b[x]) break; x++; }
			if (x == w.n && j < m && (q[j] == '\n' || q[j] == '\r')) hit = 1;
		}
		vp_assert(hit, ".show prints the definition"); vp_reach(".show prints the definition");
	} else {             // predefined names
		int c = vp_choose(9), k = vp_choose(4), m = vp_choose(3); vp_go(); vp_label("predefined names"); B i = mk(); int ln = 1;
		for (; ln < m * 8 + 1; ln++) b_s(&b, ln & 1 ? "\n" : "; x\n");
		const char *nm = k == 0 ? "__LINE" : k == 1 ? "__FILE" : k == 2 ? "SPASM" : "TRUE-FALSE"; const char *f = "a.asm"; u32 d;
		switch (c) {
		case 0: b_s(&b, " .db "); b_s(&b, nm); b_s(&b, "\n"); break;
		case 1: b_s(&b, " .db "); d = b_h(&b, "v", 2); b_c(&e, d); b_s(&b, "\\ .db "); b_s(&b, nm); b_s(&b, "\n"); break;
		case 2: if (k == 1) return; b_s(&b, "#include \"b.inc\"\n"); b_s(&i, "\n .db "); b_s(&i, nm); b_s(&i, "\n\n"); ln = 2; f = 0; break;
		case 3: b_s(&b, "#include \"b.inc\"\n .db "); b_s(&b, nm); b_s(&b, "\n"); b_s(&i, "\n nop\n\n\n"); b_c(&e, 0); ln++; break;
		case 4: b_s(&b, "#if 0\n bogus\n#else\n .db "); b_s(&b, nm); b_s(&b, "\n#endif\n"); ln += 3; break;
		case 5: b_s(&b, "#comment\n bogus\n\n#endcomment\n .db "); b_s(&b, nm); b_s(&b, "\n"); ln += 4; break;
		case 6: b_s(&b, "#define q "); b_s(&b, nm); b_s(&b, "\n\n .db q\n"); break; // the value is taken where it is defined
		case 7: b_s(&b, "#macro M(p)\n .db p\n#endmacro\n M("); b_s(&b, nm); b_s(&b, ")\n"); ln += 3; break;
		case 8: if (k == 1) return; b_s(&b, " .db fw+"); b_s(&b, nm); b_s(&b, "\nfw = "); d = b_h(&b, "v", 2); b_s(&b, "\n"); vp_assume(d < 200); b_c(&e, d + (k == 0 ? ln : 1)); break;
		}
		if (c == 7 && k == 1) return;
		if (i.n) vp_file("b.inc", i.b, i.n);
		if (c != 8) { if (k == 0) b_c(&e, ln); else if (k == 1) { if (!f) f = "b.inc"; b_s(&e, f); } else b_c(&e, 1); }
		good(&b, 0, &e, "predefined names");
	}
}
