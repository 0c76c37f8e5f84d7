// C22: strings, escapes, .echo, and the built-in buffers
#include "h.h"
static u8 plain[256], escd[256]; static int np, ne;
static int nc;
static void doms(void) {
	np = ne = 0; nc = 0;
	for (int i = 1; i < 256; i++) {
		if (i == '\n' || i == '\r') continue;
		if (i != '"' && i != '\\') plain[np++] = i;
		if (i >= 32 && i < 127 && i != '#' && i != 'N' && i != 'R' && i != 'T') escd[ne++] = i;   // \N is \n, \# is random
	}
}
static u8 unesc(u8 c) { u8 r = c; r = c == 'n' ? 10 : r; r = c == 'r' ? 13 : r; r = c == 't' ? 9 : r; r = c == '0' ? 0 : r; return r; }
// a string of shape k: p a symbolic character, e a symbolic escape, anything else itself
static void str(B *s, B *e, const char *k) {
	for (; *k; k++) {
		if (*k == 'p') { u8 c = vp_byte(vp_name("c", nc++), plain, np); b_c(s, c); b_c(e, c); }
		else if (*k == 'e') { u8 c = vp_byte(vp_name("c", nc++), escd, ne); b_c(s, '\\'); b_c(s, c); b_c(e, unesc(c)); }
		else { b_c(s, *k); b_c(e, *k); }
	}
}
static const char *shape[] = {"", "p", "e", "pp", "ep", "pe", "ee", "p;p", "),p(", "ApB", "eA", ",pe,", "Ae", "' p", "ppp"};
enum { NS = sizeof shape / sizeof *shape };
static int keep(B *d, const char *f) { u8 *p; int n = vp_out(f, &p); if (n > 0) b_mem(d, p, n); return n; }
static void quoted(B *b, B *s) { b_c(b, '"'); b_mem(b, s->b, s->n); b_c(b, '"'); }
// what the program prints is exactly e
static void prints(B *b, B *e, const char *msg) {
	B w = mk(); b_s(&w, "Pass one... \nPass two... \n"); b_mem(&w, e->b, e->n); b_s(&w, "Assembly time");
	int r = asm3(b, "-N", 0, 0); vp_assert(r == 0, "a valid program assembles with exit status 0");
	u8 *p; int n = vp_stdout(&p); vp_assert(n > w.n, "everything is printed"); if (n > w.n) vp_assert_eq(p, w.b, w.n, msg); vp_reach(msg);
}
static void num(B *e, i32 v) { b_i(e, v); }
static const char *texts[] = {
	" .db 1\n", " ld a,5\n .dw $,FW\n", "LB: nop\n jr LB\n", "X = 7\n .db X\n", "#if 1\n .db 2\n#else\n .db 3\n#endif\n", "#define DD(P) P+1\n .db DD(4)\n", "#macro MM(P)\n .db P\n#endmacro\n MM(6)\n", "_: djnz -_\n", " .db 1\\ .db 2 ; c\n", "#import \"b.dat\"\n", " .fill 2,9\n .org $100\n .dw $\n", " .db 'x',';'\n", " bogus\n", " .db UND\n", "#include \"b.inc\"\n .db INC\n", " .dw $12345\n", "#comment\n junk\n#endcomment\n ret\n", " .echo 5+X\nX = 3\n", "LC\nLD .equ 4\n .db LD\n .dw LC\n"};
enum { NTX = sizeof texts / sizeof *texts };
void harness(void) {
	B b = mk(), e = mk(), s = mk(), w = mk(); u8 *p; int g = vp_choose(5), T = vp_tier(); doms();
	if (g == 0) {
		int k = vp_choose(NS), c = vp_choose(12), o = vp_choose(T ? 3 : 1); vp_go(); vp_label("strings"); if (!T && k == 14 && c % 4) return;
		str(&s, &w, shape[k]);
		switch (c) {
		case 0: b_s(&b, " .db "); quoted(&b, &s); b_mem(&e, w.b, w.n); break;
		case 1: b_s(&b, " .db 1,"); quoted(&b, &s); b_s(&b, ",2\n"); b_c(&e, 1); b_mem(&e, w.b, w.n); b_c(&e, 2); break;
		case 2: b_s(&b, " .dw $1234 , "); quoted(&b, &s); b_s(&b, " , FW\nFW:\n"); e_w(&e, 0x1234); b_mem(&e, w.b, w.n); e_w(&e, 4 + w.n); break;
		case 3: b_s(&b, "LA: .byte "); quoted(&b, &s); b_s(&b, " ; a \" quote\n .db FW-LA\nFW:\n"); b_mem(&e, w.b, w.n); b_c(&e, w.n + 1); break;
		case 4: b_s(&b, " nop\\ .db "); quoted(&b, &s); b_s(&b, "\\ ret\n"); b_c(&e, 0); b_mem(&e, w.b, w.n); b_c(&e, 0xC9); break;
		case 5: b_s(&b, "#define D "); quoted(&b, &s); b_s(&b, "\n .db D,7\n"); b_mem(&e, w.b, w.n); b_c(&e, 7); break;
		case 6: b_s(&b, "#macro M(P)\n .db P,8\n#endmacro\n M("); quoted(&b, &s); b_s(&b, ")\n"); b_mem(&e, w.b, w.n); b_c(&e, 8); break;
		case 7: b_s(&b, " .db "); quoted(&b, &s); b_c(&b, ','); quoted(&b, &s); b_s(&b, ",\"\"\n nop\n"); b_mem(&e, w.b, w.n); b_mem(&e, w.b, w.n); b_c(&e, 0); break;
		case 8: b_s(&b, "#if 1\n .dl "); quoted(&b, &s); b_s(&b, "\n#else\n .db "); quoted(&b, &s); b_s(&b, "\n ret\n#endif\n .db FW\nFW:\n"); b_mem(&e, w.b, w.n); b_c(&e, w.n + 1); break;
		case 9: b_s(&b, "#if 0\n .db "); quoted(&b, &s); b_s(&b, "\n#endif\n .db 9\n"); b_c(&e, 9); break;
		case 10: b_s(&b, "#define F(P,Q) P,Q\n .db F("); quoted(&b, &s); b_s(&b, ",5)\n"); b_mem(&e, w.b, w.n); b_c(&e, 5); break;
		case 11: b_s(&b, " .db "); quoted(&b, &s); b_s(&b, ",'a',';','\\'',\"\\\"\"\r\n ret"); b_mem(&e, w.b, w.n); b_s(&e, "a;'\""); b_c(&e, 0xC9); break;
		}
		good(&b, o == 1 ? "-E" : o == 2 ? "-T" : 0, &e, "a string emits exactly its characters");
	} else if (g == 1) {
		// character literals
		int k = vp_choose(2), c = vp_choose(6); vp_go(); vp_label("characters"); u8 ch, v;
		static u8 pl[256]; int m = 0; for (int i = 1; i < 128; i++) if (i != '\n' && i != '\r' && i != '\\') pl[m++] = i;
		B q = mk(); b_c(&q, '\''); if (k) { ch = vp_byte("c", escd, ne); b_c(&q, '\\'); v = unesc(ch); } else v = ch = vp_byte("c", pl, m); b_c(&q, ch); b_c(&q, '\'');
		switch (c) {
		case 0: b_s(&b, " .db "); b_mem(&b, q.b, q.n); b_s(&b, ",2\n"); b_c(&e, v); b_c(&e, 2); break;
		case 1: b_s(&b, " ld a,"); b_mem(&b, q.b, q.n); b_s(&b, " ; '\n"); b_c(&e, 0x3E); b_c(&e, v); break;
		case 2: b_s(&b, " cp "); b_mem(&b, q.b, q.n); b_s(&b, "\\ nop\n"); b_c(&e, 0xFE); b_c(&e, v); b_c(&e, 0); break;
		case 3: b_s(&b, "X = "); b_mem(&b, q.b, q.n); b_s(&b, "+1\n .dw X\n"); e_w(&e, v + 1); break;
		case 4: b_s(&b, "#if "); b_mem(&b, q.b, q.n); b_s(&b, "==65\n .db 1\n#else\n .db 2\n#endif\n"); b_c(&e, v == 65 ? 1 : 2); break;
		case 5: b_s(&b, "#define F(P) P*2\n .dw F("); b_mem(&b, q.b, q.n); b_s(&b, ")\n"); e_w(&e, v * 2); break;
		}
		good(&b, 0, &e, "a character literal is the code of its character");
	} else if (g == 2) {
		// .echo
		int k = vp_choose(NS), c = vp_choose(13); if (c > 9 && k > 2) return; vp_go(); vp_label("echo"); if (!T && k == 14) return;
		str(&s, &w, shape[k]); for (int i = 0; i < w.n; i++) vp_assume(w.b[i] != 0);
		u8 d = vp_byte("d", vp_nib, 16); i32 v = 0;
		switch (c) {
		case 0: b_s(&b, " .echo "); quoted(&b, &s); b_s(&b, "\n"); b_mem(&e, w.b, w.n); b_s(&e, "\n"); break;
		case 1: v = vp_concrete(d) * 7 - 50; b_s(&b, " .echo "); quoted(&b, &s); b_s(&b, ","); b_i(&b, v); b_s(&b, ",\" end\"\n nop\n"); b_mem(&e, w.b, w.n); num(&e, v); b_s(&e, " end\n"); break;
		case 2: v = vp_concrete(d) * 9999999; b_s(&b, " .echo "); quoted(&b, &s); b_s(&b, ",FW,"); quoted(&b, &s); b_s(&b, "\nFW = "); b_i(&b, v); b_s(&b, "\n .echo FW\n"); b_mem(&e, w.b, w.n); num(&e, v); b_mem(&e, w.b, w.n); b_s(&e, "\n"); num(&e, v); b_s(&e, "\n"); break;
		case 3: b_s(&b, " .echo "); quoted(&b, &s); b_s(&b, "\\ .echo 5 ; no\n .echo "); quoted(&b, &s); b_s(&b, ",\"\"\n"); b_mem(&e, w.b, w.n); b_s(&e, "\n5\n"); b_mem(&e, w.b, w.n); b_s(&e, "\n"); break;
		case 4: b_s(&b, "#macro M(P)\n .echo P,1\n#endmacro\n M("); quoted(&b, &s); b_s(&b, ")\n"); b_mem(&e, w.b, w.n); b_s(&e, "1\n"); break;
		case 5: b_s(&b, "#define D "); quoted(&b, &s); b_s(&b, "\nX = -3\n .echo D,X,D\n"); b_mem(&e, w.b, w.n); b_s(&e, "-3"); b_mem(&e, w.b, w.n); b_s(&e, "\n"); break;
		case 6: b_s(&b, " .org $12\n .echo $,"); quoted(&b, &s); b_s(&b, ",FW\n .fill 3\nFW: .echo FW,$\n"); b_s(&e, "18"); b_mem(&e, w.b, w.n); b_s(&e, "21\n2121\n"); break;
		case 7: b_s(&b, " .echo "); for (int i = 0; i < 30; i++) { b_s(&b, "XX,"); b_s(&e, "-2000000000"); } quoted(&b, &s); b = mk(); b_s(&b, "XX = -2000000000\n .echo "); for (int i = 0; i < 30; i++) b_s(&b, "XX,"); quoted(&b, &s); b_s(&b, "\n"); b_mem(&e, w.b, w.n); b_s(&e, "\n"); break;
		// defines around forward references are operands of their own
		case 9: v = vp_concrete(d); b_s(&b, "#define A B,"); quoted(&b, &s); b_s(&b, ",2*C\n#define B 7-C\n#define C 1+FW\n .echo A,\" \",3*B\nFW = "); b_i(&b, v); b_s(&b, "\n#define C 9\n"); num(&e, 6 - v); b_mem(&e, w.b, w.n); num(&e, 2 + 2 * v); b_s(&e, " "); num(&e, 18 - 3 * v); b_s(&e, "\n"); break;
		case 10: v = vp_concrete(d); b_s(&b, "#define F(x) x-FW\n .echo 9-F(8),\" \","); quoted(&b, &s); b_s(&b, ",F(F(20))\nFW = "); b_i(&b, v); b_s(&b, "\n"); num(&e, 1 + v); b_s(&e, " "); b_mem(&e, w.b, w.n); num(&e, 20 - 2 * v); b_s(&e, "\n"); break;
		case 11: v = vp_concrete(d); b_s(&b, " .org 4\n#define H $+FW\n#define X 3\n .echo 2*H,"); quoted(&b, &s); b_s(&b, ",X\n .org 50\n#define X 5\nFW = "); b_i(&b, v); b_s(&b, "\n .echo H\n"); num(&e, 8 + 2 * v); b_mem(&e, w.b, w.n); b_s(&e, "3\n"); num(&e, 50 + v); b_s(&e, "\n"); break;
		case 12: v = vp_concrete(d); b_s(&b, "#macro M(p)\n .echo 2*p,"); quoted(&b, &s); b_s(&b, ",p\n#endmacro\n M(1+FW)\nFW = "); b_i(&b, v); b_s(&b, "\n M(1+FW)\n"); for (int i = 0; i < 2; i++) { num(&e, 2 + 2 * v); b_mem(&e, w.b, w.n); num(&e, 1 + v); b_s(&e, "\n"); } break;
		}
		if (c == 8) { b_s(&b, " .echo "); quoted(&b, &s); b_s(&b, ",UND\n"); bad(&b, 0, "SE106", ".echo of an undefined symbol is diagnosed"); return; }
		prints(&b, &e, ".echo prints the characters and decimal values");
	} else if (g == 3) {
		// .echo > and >>
		int k = vp_choose(NS), c = vp_choose(6), old = vp_choose(2); vp_go(); vp_label("echo to a file"); if (!T && k >= 13) return;
		str(&s, &w, shape[k]); if (old) vp_file("out.txt", "old", 3);
		switch (c) {
		case 0: b_s(&b, " .echo > \"out.txt\" "); quoted(&b, &s); b_s(&b, "\n"); b_mem(&e, w.b, w.n); break;
		case 1: b_s(&b, " .echo > out.txt "); quoted(&b, &s); b_s(&b, ",5\n .echo >> \"out.txt\" "); quoted(&b, &s); b_s(&b, "\n"); b_mem(&e, w.b, w.n); b_s(&e, "5"); b_mem(&e, w.b, w.n); break;
		case 2: b_s(&b, "#define OUT \"out.txt\"\n .echo >> OUT "); quoted(&b, &s); b_s(&b, "\nX = 300\n .echo >> OUT X,\" \"\n nop\n"); if (old) b_s(&e, "old"); b_mem(&e, w.b, w.n); b_s(&e, "300 "); break;
		case 3: b_s(&b, " .echo >>out.txt "); quoted(&b, &s); b_s(&b, "\\ nop\n"); if (old) b_s(&e, "old"); b_mem(&e, w.b, w.n); break;
		case 4: b_s(&b, "#if 0\n .echo > \"out.txt\" \"no\"\n#endif\n .echo >> \"out.txt\" "); quoted(&b, &s); b_s(&b, "\n"); if (old) b_s(&e, "old"); b_mem(&e, w.b, w.n); break;
		case 5: b_s(&b, " .echo > \"out.txt\" \"x\"\n .echo > \"out.txt\" "); quoted(&b, &s); b_s(&b, ",\"\",-1 ; \"\n"); b_mem(&e, w.b, w.n); b_s(&e, "-1"); break;
		}
		int r = asm3(&b, 0, 0, 0); vp_assert(r == 0, "a valid program assembles with exit status 0");
		int n = vp_out("out.txt", &p); vp_assert(n == e.n, "length of the echoed file"); if (n == e.n && n) vp_assert_eq(p, e.b, n, ".echo > writes the characters and values to the file"); vp_reach(".echo > writes the characters and values to the file");
		int m = vp_stdout(&p); vp_assert(vp_count(p, m, "Pass two... \n") == 1, "messages");
	} else {
		// written and run lines against the lines themselves
		int k = vp_choose(NTX), k2 = vp_choose(T ? NTX : 4), how = vp_choose(6); vp_go(); vp_label("buffers"); if (!T) k2 = (k2 * 5 + k * 2 + how) % NTX;
		u32 v = 0; B t[2] = {mk(), mk()}, src = mk(), fin = mk(); const char *k_[2] = {texts[k], texts[k2]};
		if (k == k2) return;
		for (int i = 0; i < 2; i++) b_s(&t[i], k_[i]);
		B hx = mk(); b_s(&hx, " .db "); v = b_h(&hx, "v", 2); b_c(&hx, '\n'); b_mem(&t[1], hx.b, hx.n);
		b_s(&fin, "FW = 77\n");
		// direct
		if (how == 5) b_mem(&src, t[0].b, t[0].n); else { b_mem(&src, t[0].b, t[0].n); b_mem(&src, t[1].b, t[1].n); }
		if (how == 5) b_mem(&src, hx.b, hx.n);
		b_mem(&src, fin.b, fin.n);
		vp_file("b.dat", "DAT", 3); vp_file("b.inc", "INC = 9\n", 8);
		int r0 = asm0(&src), n0 = keep(&e, "a.bin"); int e0 = vp_said("error"), w0 = vp_said("warning");
		vp_clear(); vp_file("b.dat", "DAT", 3); vp_file("b.inc", "INC = 9\n", 8);
		for (int i = 0; i < 2; i++) {
			B *q = &t[i]; int j = 0; static const char *pre[2] = {" wr(\"", " WR(\""};
			if (how == 1 && i) b_s(&b, " run()\n");
			if (how == 2) b_s(&b, i ? " buf(3)\n" : " buf(2)\n");
			if (how == 5 && i) { b_s(&b, " wr(\"junk\")\n buf(1)\n clr()\\ buf(0)\n run()\n"); b = mk(); b_s(&b, " wr(\"junk\")\\ clr()\n"); q = &t[0]; }
			if (how == 5 && !i) continue;
			if (how == 3) { b_s(&b, pre[i]); }
			while (j < q->n) {
				if (how != 3) b_s(&b, pre[j & 1]);
				for (; j < q->n && (vp_issym(q->b[j]) || q->b[j] != '\n'); j++) { if (!vp_issym(q->b[j]) && (q->b[j] == '"' || q->b[j] == '\\')) b_c(&b, '\\'); b_c(&b, q->b[j]); }
				j++;
				if (how != 3) b_s(&b, how == 4 ? "\")\\" : "\")\n"); else if (j < q->n) b_s(&b, "\\n");
			}
			if (how == 3) b_s(&b, "\") ; c\n");
			if (how == 4) b_s(&b, " nop\\ run()\n");
		}
		if (how == 2) b_s(&b, " buf(2)\n run()\n buf(3)\n run()\n buf(0)\n"); else if (how != 4) b_s(&b, " run()\n");
		if (how == 5) { b_mem(&b, hx.b, hx.n); }
		b_mem(&b, fin.b, fin.n);
		int r1 = asm0(&b), e1 = vp_said("error"), w1 = vp_said("warning"); if (how == 4) return;
		vp_assert(r0 == r1, "run() has the status of the lines"); vp_assert(e0 == e1 && w0 == w1, "run() has the diagnostics of the lines");
		if (n0 < 0) vp_assert(vp_out("a.bin", &p) < 0, "no output as with the lines"); else same(&e, "run() assembles the written lines as if they stood in the source");
		vp_reach(r0 ? "run(), diagnosed" : "run()");
	}
}
