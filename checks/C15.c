// C15: diagnostics, exit status and the output file agree
#include "h.h"
enum { DIRECT, P1, P2, DIRECT2, POUT };
typedef struct { int grp, sev, line, file; const char *code; } D;
static D d[16]; static int nd; static B *cur, post, img; static int file, line, sure;
static void dg(int grp, int sev, const char *code) { D *p = d + nd++; p->grp = grp; p->sev = sev; p->line = line; p->file = file; p->code = code; }
static void e_c(u32 v) { b_c(&img, v & 255); }
enum { KDB, KLD, KFILL, KFW, KEXTRA, KDW, KPAREN, KOPC, KORG, KNFILL, KARGS, KBAD, KSYN, KDIV, KNOARG, KJR, KRST, KIX, KBIT, KERR, KDIG, KUND, KQUO, KFJR, KFRST, KFIX, KFDIV, KFSET, KMISS, KADD, KSHOW, KECHO, KOPTN, KEMPTY, KGOOD, K, KELSE = K, KPRE, KNOINC, KELIF, KMAC, KDEF, KK };
static void nl(void);
static u32 fdef(int i, const char *nm, int dig) { b_s(&post, nm); b_u(&post, i); b_s(&post, " = "); u32 v = b_h(&post, vp_name(nm, i), dig); b_c(&post, '\n'); return v; }
static void stmt(int k, int i) {   // one statement; its text, bytes and diagnostics
	const char *nm = vp_name("v", i); u32 v; B *c = cur;
	switch (k) {
	case KDB: b_s(c, " .db "); v = b_h(c, nm, 3); if (vp_concrete(v > 255)) dg(P1, 1, "warning SW800"); e_c(v); break;
	case KLD: b_s(c, " ld a,"); v = b_h(c, nm, 3); if (vp_concrete(v > 255)) dg(P1, 1, "warning SW800"); e_c(0x3E); e_c(v); break;
	case KFILL: b_s(c, " .fill 2,"); v = b_h(c, nm, 3); if (vp_concrete(v > 255)) dg(P1, 1, "warning SW800"); e_c(v); e_c(v); break;
	case KFW: b_s(c, " .db fw"); b_u(c, i); v = fdef(i, "fw", 3); if (vp_concrete(v > 255)) dg(P2, 1, "warning SW800"); e_c(v); break;
	case KEXTRA: b_s(c, " m(7,"); v = b_h(c, nm, 2); b_s(c, ")"); dg(P1, 1, "warning SW804"); e_c(7); break;
	case KDW: b_s(c, " .dw 429496729"); v = b_dec(c, nm, 1); if (vp_concrete(v > 5)) dg(P1, 3, "error SE204"); e_w(&img, 4294967290u + v); break;
	case KPAREN: b_s(c, " .db 2*(1+"); v = b_h(c, nm, 1); dg(DIRECT, 1, "warning: Missing 1"); e_c(2 * (1 + v)); break;
	case KOPC: b_s(c, " bogu"); b_c(c, vp_pick(nm, "s_9x")); b_s(c, " 1"); dg(P1, 3, "error SE113"); break;
	case KORG: b_s(c, " .org -"); v = b_h(c, nm, 4); vp_assume(v > 0); dg(P1, 3, "error SE107"); break;
	case KNFILL: b_s(c, " .fill -"); v = b_h(c, nm, 4); vp_assume(v > 0); dg(P1, 3, "error SE108"); break;
	case KARGS: b_s(c, " ld "); b_c(c, vp_pick(nm, "abchl")); dg(P1, 3, "error SE110"); break;
	case KBAD: b_s(c, " .db 4+$"); b_c(c, vp_pick(nm, "gpqz")); dg(P1, 3, "error SE103"); break;
	case KSYN: b_s(c, " .db 1"); b_c(c, vp_pick(nm, "+-*/&|^%")); dg(P1, 3, "error SE104"); break;
	case KDIV: b_s(c, " .db 100/"); v = b_h(c, nm, 2); if (vp_concrete(v == 0)) dg(P1, 3, "error SE203"); else e_c(100 / (v ? v : 1)); break;
	case KNOARG: { int l = line; b_s(c, " m()"); if (file == 0) line = 2; else { line = 2; } int f = file; file = 0; dg(P1, 3, "error SE102"); file = f; line = l; break; }
	case KJR: b_s(c, " jr $+2+"); v = b_h(c, nm, 2); if (vp_concrete(v > 127)) dg(P1, 3, "error SE120"); e_c(0x18); e_c(v); break;
	case KRST: b_s(c, " rst "); v = b_h(c, nm, 2); if (vp_concrete((v & ~0x38) != 0)) dg(P1, 3, "error SE127"); e_c(0xC7 | v); break;
	case KIX: b_s(c, " ld (ix+"); v = b_h(c, nm, 2); b_s(c, "),a"); if (vp_concrete(v > 127)) dg(P1, 3, "error SE121"); e_c(0xDD); e_c(0x77); e_c(v); break;
	case KBIT: b_s(c, " set "); v = b_h(c, nm, 1); b_s(c, ",a"); if (vp_concrete(v > 7)) { dg(DIRECT, 2, "error: Bit number"); sure = 0; } e_c(0xCB); e_c(0xC7 | v << 3); break;
	case KERR: b_s(c, " .error \"x"); b_c(c, vp_pick(nm, "abc")); b_s(c, "\""); dg(P1, 3, "error SE600"); break;
	case KDIG: b_s(c, " .db 1"); b_c(c, vp_pick(nm, "3579")); b_s(c, "0b"); dg(P1, 3, "error SE202"); break;
	case KUND: b_s(c, "x"); b_u(c, i); b_s(c, " = undef"); dg(P1, 3, "error SE132"); break;
	case KQUO: b_s(c, " .db \"a"); b_c(c, vp_pick(nm, "bc d")); dg(P1, 3, "error SE119"); break;
	case KFJR: b_s(c, " jr $+2+fj"); b_u(c, i); v = fdef(i, "fj", 2); if (vp_concrete(v > 127)) { dg(P2, 3, "error SE120"); sure = 0; } e_c(0x18); e_c(v); break;
	case KFRST: b_s(c, " rst fr"); b_u(c, i); v = fdef(i, "fr", 2); if (vp_concrete((v & ~0x38) != 0)) { dg(P2, 3, "error SE127"); sure = 0; } e_c(0xC7 | v); break;
	case KFIX: b_s(c, " inc (iy+fi"); b_u(c, i); b_s(c, ")"); v = fdef(i, "fi", 2); if (vp_concrete(v > 127)) { dg(P2, 3, "error SE121"); sure = 0; } e_c(0xFD); e_c(0x34); e_c(v); break;
	case KFDIV: b_s(c, " .db 100/fd"); b_u(c, i); v = fdef(i, "fd", 2); if (vp_concrete(v == 0)) { dg(P2, 3, "error SE203"); sure = 0; } e_c(100 / (v ? v : 1)); break;
	case KFSET: b_s(c, " set fs"); b_u(c, i); b_s(c, ",a"); v = fdef(i, "fs", 1); if (vp_concrete(v > 7)) { dg(DIRECT2, 2, "error: Bit number"); sure = 0; } e_c(0xCB); e_c(0xC7 | v << 3); break;
	case KMISS: b_s(c, " .dw none"); b_c(c, vp_pick(nm, "abc")); dg(P2, 2, "error SE106"); sure = 0; break;
	case KSHOW: b_s(c, " .show none"); b_c(c, vp_pick(nm, "abc")); dg(POUT, 2, "error SE106"); sure = 0; break;
	case KECHO: b_s(c, " .echo \"x\",none"); b_c(c, vp_pick(nm, "abc")); dg(POUT, 2, "error SE106"); sure = 0; break;
	case KOPTN: b_s(c, " .option "); b_c(c, vp_pick(nm, "57_$")); b_s(c, "x=1"); dg(P1, 3, "error SE125"); break;
	case KEMPTY: b_s(c, vp_pick(nm, "ab") == 'a' ? " .db" : " .fill"); dg(P1, 3, "error SE104"); break;
	case KADD: b_s(c, " .addinstr foo"); dg(P1, 3, "error SE126"); break;
	case KGOOD: b_s(c, " ld b,"); v = b_h(c, nm, 2); e_c(6); e_c(v); break;
	case KELSE: b_s(c, "#else"); dg(P1, 3, "error SE117"); break;
	case KPRE: b_s(c, "#bogus"); dg(P1, 3, "error SE111"); break;
	case KNOINC: b_s(c, "#include \"nofile\""); dg(P1, 3, "error SE001"); break;
	case KMAC: case KDEF: b_s(c, k == KMAC ? "#macro lq(x)" : "#define lq 5"); dg(DIRECT, 2, "error: conflicting"); { int l = line, f = file; line = 4; file = 0; dg(DIRECT, 2, "error: previous"); line = l; file = f; }
		if (k == KMAC) { nl(); b_s(c, " bogus "); b_c(c, vp_pick(nm, "xyz")); nl(); b_s(c, "#endmacro"); } break;
	case KELIF: b_s(c, "#elif 1"); dg(P1, 3, "error SE124"); break;
	}
}
static void nl(void) { b_c(cur, '\n'); line++; }
// is the text of s at p
static int at(const u8 *p, const u8 *e, const char *s) { while (*s) { if (p >= e || *p != (u8) *s) return 0; p++; s++; } return 1; }
void harness(void) {
	B src = mk(), inc = mk(); post = mk(); img = mk(); nd = 0; sure = 1; cur = &src; file = 0; line = 1; int T = vp_tier();
	int line0 = 0, k0 = vp_choose(KK), k1 = vp_choose(KK), p0, p1, pre[2];
	if (T) { p0 = vp_choose(5); p1 = vp_choose(5); } else { int x = (k0 * 7 + k1 * 3) % 5; p0 = x; p1 = (x + 1 + (k0 + k1) % 4) % 5; }
	if (p0 == 3 && p1 == 3) p1 = 0;
	if (k0 >= K && (p0 == 2 || p0 == 1 || p0 == 4)) p0 = 0;      // directives: plain or in a file
	if (k1 >= K && (p1 == 2 || p1 == 1 || p1 == 4)) p1 = 0;
	if (T) { pre[0] = vp_choose(8); pre[1] = (pre[0] + 1 + k1) % 8; } else { pre[0] = (k0 + k1) % 8; pre[1] = (k0 * 3 + k1 * 5 + 1) % 8; }
	vp_go(); vp_label("diagnostics");
	b_s(cur, "#macro m(p)"); nl(); b_s(cur, " .db p"); nl(); b_s(cur, "#endmacro"); nl(); b_s(cur, "lq:"); nl();
	for (int i = 0; i < 2; i++) {
		switch (pre[i]) {         // something that takes several lines
		case 1: b_s(cur, "#comment"); nl(); b_s(cur, " bogus"); nl(); b_s(cur, "#endcomment"); nl(); break;
		case 2: b_s(cur, "#if 0"); nl(); b_s(cur, " bogus"); nl(); nl(); b_s(cur, "#endif"); nl(); break;
		case 3: b_s(cur, " m(3)\r"); e_c(3); nl(); b_s(cur, "\r"); nl(); break;
		case 4: b_s(cur, "#include \"c.inc\""); nl(); e_c(9); break;
		case 5: b_s(cur, "#define dd 1"); nl(); b_s(cur, "#defcont +1"); nl(); b_s(cur, " .db dd"); e_c(2); nl(); break;
		case 6: b_s(cur, " clr()\\ wr(\" nop\")\\ wr(\" .db 1\")\\ run()"); e_c(0); e_c(1); nl(); break;
		case 7: b_s(cur, "lab"); b_u(cur, i); b_s(cur, ": .db 1,2 ; \"'bogus"); e_c(1); e_c(2); nl(); break;
		}
		int k = i ? k1 : k0, p = i ? p1 : p0;
		int at0 = nd; switch (p) {
		case 0: stmt(k, i); nl(); break;
		case 1: b_s(cur, " nop\\"); e_c(0); stmt(k, i); if (k != KQUO && k != KPAREN) { b_s(cur, "\\ ret"); e_c(0xC9); } nl(); break;
		case 2: b_s(cur, "#macro mm"); b_u(cur, i); b_s(cur, "()"); nl(); b_s(cur, " nop"); e_c(0); nl(); stmt(k, i); nl(); b_s(cur, "#endmacro"); nl(); b_s(cur, " mm"); b_u(cur, i); b_s(cur, "()"); nl(); break;
		case 3: { b_s(cur, "#include \"b.inc\""); int ol = line; cur = &inc; file = 1; line = 1; b_s(cur, " nop"); e_c(0); nl(); if (i && (k0 + k1) % 3) while (line < line0) nl(); stmt(k, i); nl(); cur = &src; file = 0; line = ol; nl(); break; }
		case 4: b_s(cur, "#if 1"); nl(); stmt(k, i); nl(); b_s(cur, "#else"); nl(); b_s(cur, " bogus"); nl(); b_s(cur, "#endif"); nl(); break;
		}
		if (!i && nd > at0) line0 = d[at0].line;    // a statement of the file may stand on the same line
		b_s(cur, " .db 5"); e_c(5); nl();
	}
	b_mem(&src, post.b, post.n);
	vp_file("c.inc", "\n .db 9\n\n", 10); if (inc.n) vp_file("b.inc", inc.b, inc.n);
	int r = asm3(&src, "-N", 0, 0);
	int sev = 0, f1 = 0; for (int i = 0; i < nd; i++) { if (d[i].sev > sev) sev = d[i].sev; if ((d[i].grp == P1 || d[i].grp == DIRECT) && d[i].sev == 3) f1 = 1; }
	u8 *o; int n = vp_out("a.bin", &o);
	if (f1) { vp_assert(r == 2 || r == 3, "an error gives exit status 2 or 3"); vp_assert(n < 0, "no output after a first-pass fatal error"); vp_reach("fatal"); }
	else if (sev >= 2) { vp_assert(r == 2 || r == 3, "an error gives exit status 2 or 3"); vp_reach("error"); }
	else { vp_assert(r == (sev == 1), sev ? "only warnings give exit status 1" : "no diagnostic gives exit status 0"); same(&img, "the complete output is written"); vp_reach(sev ? "warning" : "clean"); }
	// the messages
	n = vp_stdout(&o); u8 *e = o + n; int used[5] = { 0, 0, 0, 0, 0 }, tot[5] = { 0, 0, 0, 0, 0 };
	for (int i = 0; i < nd; i++) if (d[i].grp < P2 || !f1) tot[d[i].grp]++;
	int pass = P1;
	for (u8 *p = o; p < e;) {
		u8 *q = p; while (q < e && *q != '\n') q++;
		u8 *s = p; int fl = -1;
		if (at(s, q, "a.asm:")) { fl = 0; s += 6; } else { u8 *t = s; while (t < q && *t != ':') t++; if (t - p >= 5 && at(t - 5, q, "b.inc:")) { fl = 1; s = t + 1; } }
		if (fl >= 0) {
			int ln = 0; while (s < q && *s >= '0' && *s <= '9') ln = ln * 10 + *s++ - '0';
			int err = at(s, q, ": error"), wrn = at(s, q, ": warning");
			if ((err || wrn) && !at(s, q, ": warning: Suggest")) {
				s += 2; int direct = at(s, q, "error: ") || at(s, q, "warning: ");
				int g = direct ? (used[DIRECT] < tot[DIRECT] ? DIRECT : DIRECT2) : used[P1] < tot[P1] ? P1 : used[P2] < tot[P2] ? P2 : POUT, j = -1, c = 0;
				for (int i = 0; i < nd; i++) if (d[i].grp == g && c++ == used[g]) { j = i; break; }
				if (j >= 0 && g >= P2 && f1) j = -1;
				vp_assert(j >= 0, "only offending statements are reported, each once");
				if (j >= 0) { used[g]++; vp_assert(at(s, q, d[j].code), "the diagnostic of a statement"); vp_assert(d[j].line == ln && d[j].file == fl, "a diagnostic names its file and line, in source order"); }
			}
		} else vp_assert(!at(p, q, "error") && !at(p, q, "warning"), "a diagnostic names its file and line, in source order");
		p = q + 1;
	}
	for (int g = 0; g < 5; g++) vp_assert(used[g] == tot[g], "every offending statement is reported");
}
