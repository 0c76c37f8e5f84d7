// C09: addresses, labels and output length account for every emitted byte
#include "h.h"
static B src, img;          // program text, expected output
static u32 pc; static int at;   // model: address and write position
static int ez;
static void put(u32 v, int n) {   // emit n bytes, little-endian
	while (n--) { while (img.n <= at) b_c(&img, 0); img.b[at++] = v & 255; v >>= 8; pc++; }
}
static u32 lab[12]; static int nlab;
static void label(const char *t) {   // define label L<n> in one of the spellings
	b_c(&src, 'L'); b_c(&src, 'A' + nlab); b_s(&src, t); lab[nlab++] = pc;
}
enum { KDB, KDW, KDL, KFILL, KFILL1, KORG, KSEEK, KINS, KSTR, KPC, KMIX, KMACRO, KCOND, KFWD, KFINS, K };
static B post;              // definitions of forward symbols
static void stmt(int k, int i) {
	const char *nm = vp_name("s", i); u32 v, n; int T = vp_tier();
	switch (k) {
	case KDB: b_s(&src, " .db "); v = b_h(&src, nm, 2); put(v, 1); b_s(&src, ",7, $&255\n"); put(7, 1); put(pc & 255, 1); break;
	case KDW: b_s(&src, " .dw "); v = b_h(&src, nm, 4); put(v, 2); b_s(&src, "\n"); break;
	case KDL: b_s(&src, " .dl "); v = b_h(&src, nm, 4); put(v, 3); b_s(&src, ",3\n"); put(3, 3); break;
	case KFILL: b_s(&src, " .fill "); n = b_h(&src, nm, 1); if (!T) vp_assume(n < 6); b_s(&src, ","); v = b_h(&src, vp_name("f", i), 2); b_s(&src, "\n"); n = vp_concrete(n); for (int j = 0; j < (int) n; j++) put(v, 1); break;
	case KFILL1: b_s(&src, i & 1 ? " .block " : " .FILL "); n = b_h(&src, nm, 1); if (!T) vp_assume(n < 6); b_s(&src, "+1\n"); n = vp_concrete(n); for (int j = 0; j < (int) n + 1; j++) put(0, 1); break;
	case KORG: b_s(&src, " .org "); v = b_h(&src, nm, ez ? 6 : 4); b_s(&src, "\n"); vp_assume(v < (ez ? 0xFFFF00 : 0xFF00)); pc = v; break;
	case KSEEK: { u32 d = vp_choose(4); b_s(&src, " .seek $+"); b_u(&src, d); b_s(&src, "\n"); while (d--) { while (img.n <= at) b_c(&img, 0); at++; pc++; } b_s(&src, " .db 9\n .seek $-1\n"); put(9, 1); at--; pc--; b_s(&src, " .db "); v = b_h(&src, nm, 2); b_s(&src, "\n"); put(v, 1); break; }
	case KINS: b_s(&src, " ld hl,"); put(0x21, 1); v = b_h(&src, nm, 4); b_s(&src, "\n nop\\ djnz $\n"); put(v, ez ? 3 : 2); put(0, 1); put(0xFE10, 2); break;
	case KSTR: b_s(&src, " .db \"a;"); b_c(&src, v = vp_pick(nm, "0123456789abcdef")); b_s(&src, "\",5\n"); put('a', 1); put(';', 1); put(v, 1); put(5, 1); break;
	case KPC: put(pc, 3); b_s(&src, " .dl $\n"); break;
	case KMIX: b_c(&src, 'x'); b_u(&src, i); b_s(&src, " = "); b_h(&src, nm, 4); b_s(&src, " ; comment\n_\n .dl 0 ; $\n"); put(0, 3); break;
	case KMACRO: b_s(&src, " m("); v = b_h(&src, nm, 2); b_s(&src, ")\n"); put(v, 1); put(0xC3, 1); put((pc - 2) & (ez ? 0xFFFFFF : 0xFFFF), ez ? 3 : 2); break;
	case KFWD: case KFINS: {
		b_s(&post, "F"); b_u(&post, i); b_s(&post, " = "); v = b_h(&post, nm, 2); b_c(&post, '\n'); char f[3] = { 'F', '0' + i, 0 };
		const char *tx = k == KFWD ? " .db 1,@,2\n .dw @+1,@\n .dl @,3,@-1\n" : " ld a,@\n ld hl,@+2\n set 2,(ix+1)\n jp nz,@\n ld (iy+@&31),@\n";
		for (const char *q = tx; *q; q++) if (*q == '@') b_s(&src, f); else b_c(&src, *q);
		int w = ez ? 3 : 2;
		if (k == KFWD) { put(1, 1); put(v, 1); put(2, 1); put(v + 1, 2); put(v, 2); put(v, 3); put(3, 3); put(v - 1, 3); }
		else { put(0x3E, 1); put(v, 1); put(0x21, 1); put(v + 2, w); put(0xCBDD, 2); put(0xD601, 2); put(0xC2, 1); put(v, w); put(0x36FD, 2); put(v & 31, 1); put(v, 1); }
		break; }
	case KCOND: b_s(&src, "#if "); v = b_h(&src, nm, 1); b_s(&src, "\n .db 1\n#else\n .dw 2\n#endif\n"); if (vp_concrete(v != 0)) put(1, 1); else put(2, 2); break;
	}
}
void harness(void) {
	int mode = vp_choose(5); const char *opt[] = { 0, "-E", 0 };
	src = mk(); img = mk(); post = mk(); pc = 0; at = 0; nlab = 0;
	if (mode < 3) {
		int n = vp_tier() ? 3 : 2, k[3]; ez = mode == 1;
		for (int i = 0; i < n; i++) k[i] = vp_choose(K);
		vp_go(); vp_label(mode == 2 ? "with .org" : "sequence");
		b_s(&src, "#macro m(p)\n .db p\n jp $-1\n#endmacro\n");
		if (mode == 2) { ez = 0; b_s(&src, ".org "); u32 v = b_h(&src, "o", 4); vp_assume(v < 0xF000); b_s(&src, "\n"); pc = v; }
		for (int i = 0; i < n; i++) { label(i & 1 ? ":\n" : "\n"); stmt(k[i], i); }
		label(": "); b_s(&src, ".db $EE\n"); put(0xEE, 1);
		for (int i = 0; i < nlab; i++) { b_s(&src, " .dl L"); b_c(&src, 'A' + i); b_c(&src, '\n'); put(lab[i], 3); }
		b_mem(&src, post.b, post.n);
		good(&src, opt[mode], &img, "labels, $ and output account for every byte");
	} else if (mode == 3) {
		int dir = vp_choose(3), neg = vp_choose(2), sym = vp_choose(2); vp_go(); vp_label("negative sizes and origins");
		i32 v;
		if (sym) { b_s(&src, "S = "); v = b_sh(&src, "v", 4, neg); b_c(&src, '\n'); }
		b_s(&src, dir == 0 ? " .fill " : dir == 1 ? " .block " : " .org ");
		if (sym) b_s(&src, "S"); else v = b_sh(&src, "v", 4, neg);
		b_s(&src, dir == 0 ? ",3\n" : "\n");
		if (dir < 2) vp_assume(v < 4);
		if (vp_concrete(v < 0)) { bad(&src, 0, dir < 2 ? "SE108" : "SE107", "a negative size or origin is an error"); vp_assert(vp_out("a.bin", 0) < 0, "no output after a fatal error"); return; }
		if (dir < 2) { int n = vp_concrete(v); while (n--) put(dir ? 0 : 3, 1); } else pc = v;
		b_s(&src, " .dw $\n"); put(pc, 2);
		good(&src, 0, &img, "zero and positive sizes and origins are accepted");
	} else {
		int d = vp_choose(6); vp_go(); vp_label("values needed on the first pass");
		static const char *p[] = { " .fill F,1\n", " .fill 1,F\n", " .org F\n", " .seek F\n", "l .equ F\n", "l = F\n" };
		b_s(&src, p[d]); b_s(&src, " .db 1\nF = "); b_h(&src, "v", 2); b_c(&src, '\n');
		bad(&src, 0, "SE132", "a forward reference where the value is needed at once is diagnosed");
	}
}
