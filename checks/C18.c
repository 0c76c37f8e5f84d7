// C18: reusable labels denote the n-th nearest anonymous label in each direction
#include "h.h"
static B *cur, img; static u32 at[12]; static int nat; static u32 pc; static B fix; // addresses of the anonymous labels in order
static void w(u32 v, int n) { while (n--) { b_c(&img, v & 255); v >>= 8; pc++; } }
static void lab(int form, int i) {
	static const char *t[6] = {"_\n", "_:\n", "_ nop\n", "_: ret\n", "_:  \n", "_\t.db 9\n"};
	at[nat++] = pc; b_s(cur, t[form]);
	if (form == 2) w(0, 1); if (form == 3) w(0xC9, 1); if (form == 5) w(9, 1);
}
static void ref(B *b, int k, int plus) { if (k > 1) while (k--) b_c(b, '+'); else if (k == 1) { if (plus) b_c(b, '+'); } else while (k++) b_c(b, '-'); b_c(b, '_'); }
enum { RDW, RDB, RJP, RLD, RCALL, RADD, RPAR, RMAC, RFUN, RDEF, RINC, RRUN, RDIFF, RMEM, RTWO, RJR, RDJ, RLST, RECHO, REQU, RIF, R };
static void name(int i) { b_s(cur, "t"); b_u(cur, i); b_s(cur, " = $\n"); }   // another name of the label that follows
void harness(void) {
	B src = mk(), inc = mk(); img = mk(); nat = 0; pc = 0; cur = &src; int T = vp_tier();
	int b = vp_choose(4), a = vp_choose(4), k = vp_choose(8), c = vp_choose(R), f, plus, ez;
	k = k < 4 ? k - 4 : k - 3;
	int x = b * 5 + a * 3 + k + 4 + c * 7;
	if (T) { f = vp_choose(6); plus = vp_choose(2); ez = vp_choose(2); } else { f = x % 6; plus = x % 2; ez = x / 2 % 2; }
	vp_go(); vp_label("reusable labels");
	int near = c == RJR || c == RDJ, W = ez ? 3 : 2, t;
	b_s(cur, "#macro m(p)\n .dw p\n nop\n#endmacro\n#define fn(p) p+3\n#define dd "); ref(cur, k, plus); b_s(cur, "\n");
	b_s(cur, " .org "); pc = b_h(cur, "o", 4); vp_assume(pc < 0xFE00); b_c(cur, '\n');
	for (int i = 0; i < b; i++) {
		if (!near) { b_s(cur, " .org "); pc = b_h(cur, vp_name("b", i), 4); vp_assume(pc < 0xFE00); b_c(cur, '\n'); } else { b_s(cur, " ld a,b\n"); w(0x78, 1); }
		if (c == RECHO || c == RIF) name(nat);
		lab((f + i) % 6, i);
	}
	b_s(cur, " .dw later\n"); int fx = img.n; w(0, 2);
	int ix = k < 0 ? nat + k : nat + k - 1, rp; B *o = cur;   // the label meant
	if (c == RINC) { b_s(cur, "#include \"b.inc\"\n"); cur = &inc; }
	B r = mk(); ref(&r, k, plus); r.b[r.n] = 0; b_c(&r, 0); const char *rs = (const char *) r.b;
	rp = img.n; u32 pr = pc; int second = nat;
	switch (c) {
	case RDW: b_s(cur, " .dw 1,"); b_s(cur, rs); b_s(cur, "\n"); w(1, 2); w(0, 2); break;
	case RDB: b_s(cur, " .db "); b_s(cur, rs); b_s(cur, "&255,5\n"); w(0, 1); w(5, 1); break;
	case RJP: b_s(cur, " jp "); b_s(cur, rs); b_s(cur, "\\ nop\n"); w(0xC3, 1); w(0, W); w(0, 1); break;
	case RLD: b_s(cur, " ld hl,"); b_s(cur, rs); b_s(cur, "\n"); w(0x21, 1); w(0, W); break;
	case RCALL: b_s(cur, " call nz,"); b_s(cur, rs); b_s(cur, " ; _ text\n"); w(0xC4, 1); w(0, W); break;
	case RADD: b_s(cur, " .dl "); b_s(cur, rs); b_s(cur, "+2\n"); w(0, 3); break;
	case RPAR: b_s(cur, " .dl 2*("); b_s(cur, rs); b_s(cur, ")\n"); w(0, 3); break;
	case RMAC: b_s(cur, " m("); b_s(cur, rs); b_s(cur, ")\n"); w(0, 2); w(0, 1); break;
	case RFUN: b_s(cur, " .dw fn("); b_s(cur, rs); b_s(cur, ")\n"); w(0, 2); break;
	case RDEF: b_s(cur, " .dw dd\n"); w(0, 2); break;
	case RINC: b_s(cur, " .dw "); b_s(cur, rs); b_s(cur, "\n"); w(0, 2); break;
	case RRUN: b_s(cur, " clr()\\ wr(\" .dw "); b_s(cur, rs); b_s(cur, "\")\\ run()\n"); w(0, 2); break;
	case RDIFF: b_s(cur, " .dl "); b_s(cur, rs); b_s(cur, "-$\n"); w(0, 3); break;
	case RMEM: b_s(cur, " ld ("); b_s(cur, rs); b_s(cur, "),a\n"); w(0x32, 1); w(0, W); break;
	case RTWO: b_s(cur, " .dw "); b_s(cur, rs); b_s(cur, "\n_ .dw "); at[nat++] = pc + 2; b_s(cur, rs); b_s(cur, "\n"); w(0, 2); w(0, 2); break;
	case RJR: b_s(cur, " jr c,"); b_s(cur, rs); b_s(cur, "\n"); w(0x38, 1); w(0, 1); break;
	case RDJ: b_s(cur, " djnz "); b_s(cur, rs); b_s(cur, "\n"); w(0x10, 1); w(0, 1); break;
	case RECHO: b_s(cur, " .echo ("); b_s(cur, rs); b_s(cur, ")==t"); b_u(cur, ix < 0 ? 0 : ix); b_s(cur, ",\",\",later==later\n"); break;
	case REQU: b_s(cur, "xx = "); b_s(cur, rs); b_s(cur, "+1\n .dw xx\n"); w(0, 2); break;
	case RIF: if (k > 0) return; b_s(cur, "#if ("); b_s(cur, rs); b_s(cur, ")==t"); b_u(cur, ix < 0 ? 0 : ix); b_s(cur, "\n .dw "); b_s(cur, rs); b_s(cur, "\n#else\n ret\n#endif\n"); w(0, 2); break;
	case RLST: b_s(cur, "#if 0\n_ nop\n#else\n .dw "); b_s(cur, rs); b_s(cur, "\n#endif\n#comment\n_ nop\n#endcomment\n"); w(0, 2); break;
	}
	cur = o;
	for (int i = 0; i < a; i++) {
		if (!near) { b_s(cur, " .org "); pc = b_h(cur, vp_name("a", i), 4); vp_assume(pc < 0xFE00); b_c(cur, '\n'); } else { b_s(cur, " ld a,b\n"); w(0x78, 1); }
		if (c == RECHO || c == RIF) name(nat);
		lab((f + i * 2 + 1) % 6, i);
	}
	b_s(cur, "later: .db 7\n"); { u32 q = pc; w(7, 1); img.b[fx] = q; img.b[fx + 1] = q >> 8; }
	b_s(cur, " .dw fin\nfin = 5\n"); w(5, 2);
	if (inc.n) vp_file("b.inc", inc.b, inc.n);
	int r0 = asm3(&src, ez ? "-E" : "-N", 0, 0), two = c == RTWO, ix2 = k < 0 ? second + 1 + k : second + k;
	if (c == REQU && k > 0) { vp_assert(r0 >= 2, "a value that is not known yet is diagnosed"); return; }
	if (ix < 0 || ix >= nat || (two && (ix2 < 0 || ix2 >= nat))) {
		vp_assert(r0 >= 2, "a reference to a label that does not exist is diagnosed"); vp_reach("missing label"); return;
	}
	u32 v = at[ix]; int p = rp, n = 2;
	switch (c) {
	case RDW: p += 2; break; case RDB: v &= 255; n = 1; break; case RJP: case RLD: case RCALL: case RMEM: p++; n = W; break;
	case RADD: v += 2; n = 3; break; case RPAR: v *= 2; n = 3; break; case RFUN: v += 3; break; case REQU: v++; break; case RECHO: n = 0; break; case RDIFF: v -= pr; n = 3; break;
	case RJR: case RDJ: p++; n = 1; v = v - pr - 2; break;
	}
	for (int i = 0; i < n; i++) img.b[p + i] = v >> 8 * i;
	if (two) { v = at[ix2]; img.b[p + 2] = v; img.b[p + 3] = v >> 8; }
	vp_assert(r0 == 0, "a valid program assembles with exit status 0");
	if (c == RECHO) { u8 *q; int m = vp_stdout(&q), hit = 0; for (int i = 0; i + 4 < m; i++) if ((q[i] == '\n' || q[i] == 'm') && q[i + 1] == '1' && q[i + 2] == ',' && q[i + 3] == '1' && q[i + 4] == '\n') hit = 1; vp_assert(hit, ".echo prints the address of the n-th nearest anonymous label"); }
	same(&img, "a reference denotes the n-th nearest anonymous label");
	vp_reach(k < 0 ? "backward" : "forward");
}
