// C23: layout, comments and separators
#include "h.h"
// programs: \x01 a place for optional blanks, \x02 a place for blanks, \x03 \x04 symbolic numbers of 2 and 4 digits,
// \x05 joins two statements that may stand on separate lines
static const char *prog[] = {
	"\x02.org\x02\x04\x01\nLA:\x01.db\x02\x03\x01,\x01\x03\x01,\x01'x'\x01\n\x02.dw\x02LA\x01+\x01\x04\x01,\x01(\x01LA\x01)\x01*\x01" "2\x01\n",
	"\x02ld\x02" "a\x01,\x01\x03\x01\n\x02ld\x02(\x01ix\x01+\x01" "5\x01)\x01,\x01\x03\x01\x05\x02push\x02hl\x01\x05\x02ret\x01\nLB:\x01" "djnz\x02LB\x01\n\x02nop\x01\n\x02" "ex\x02" "af\x01,\x01" "af'\x01\n",
	"X\x01=\x01\x04\x01\nY\x02.equ\x02X\x01-\x01" "3\x01\n\x02.dw\x02X\x01,\x01Y\x01&\x01$FF\x01,\x01-\x01" "5\x01,\x01~\x01Y\x01\n\x02jp\x02nz\x01,\x01" "FW\x01\nFW:\x01\n",
	"#define\x02" "DD\x02\x03\x01\n\x02.db\x02" "DD\x01+\x01" "1\x01\n#ifdef\x02" "DD\x01\n\x02ret\x01\n#else\x01\n\x02nop\x01\n#endif\x01\n#define\x02" "FF(A\x01,\x01" "B)\x02" "A\x01-\x01" "B\x01\n\x02.db\x02" "FF(\x01" "9\x01,\x01\x03\x01)\x01&\x01$7F\x01\n",
	"#macro\x02MM(\x01P\x01,\x01Q\x01)\x01\n\x02ld\x02" "a\x01,\x01P\x01\n\x02.dw\x02Q\x01\n#endmacro\x01\n\x02MM(\x01\x03\x01,\x01" "FW\x01)\x01\n\x02nop\x01\nFW:\x01ret\x01\n",
	"X\x01=\x01\x03\x01\n#if\x02X\x01==\x01" "5\x01\n\x02.db\x02" "5\x01\n#elif\x02X\x01<\x01" "9\x01\n\x02.db\x02" "9\x01\n#else\x01\n\x02.db\x02\"a  b\"\x01,\x01X\x01\n#endif\x01\n\x02.fill\x02" "3\x01,\x01X\x01\n",
	"\x02.db\x02\"x;y\"\x01,\x01';'\x01,\x01\x03\x01\n#include\x02\"b.inc\"\x01\n\x02.dw\x02INC\x01,\x01\x04\x01\n#import\x02\"b.dat\"\x01\n\x02.block\x02" "2\x01\n\x02.db\x02$\x01,\x01" "7\x01\n",
	"_:\x01" "djnz\x02-_\x01\n\x02jr\x02+_\x01\n\x02.db\x02\x03\x01\n_:\x01" "bit\x02" "3\x01,\x01(\x01iy\x01-\x01" "1\x01)\x01\n\x02in\x02" "a\x01,\x01(\x01\x03\x01)\x01\x05\x02" "out\x02(\x01" "c\x01)\x01,\x01" "b\x01\n",
	"#define\x02STR\x02\"q\\\";\",\x01" "1\x01\n\x02.db\x02STR\x01\n\x02wr(\x01\".db 4\"\x01)\x01\n\x02.seek\x02" "4\x01\n\x02.db\x02\x03\x01\n\x02.nolist\x01\n\x02.list\x01\n\x02rst\x02" "8\x01\n\x02.echo\x02\"z\"\x01,\x01" "3\x01\n",
	"LL\x01\n\x02.db\x02\x03\x01\nLM\x02.db\x02" "2\x01\x05\x02.db\x02" "3\x01\x05\x02.dw\x02LL\x01,\x01LM\x01\n#undef\x02LQ\x01\n\x02.addinstr\x02" "foo\x02*\x02" "CB\x02" "2\x02NOP\x02" "1\x01\n\x02" "foo\x02\x03\x01\n\x02.option\x02OO=5\x01\n\x02.db\x02__OO\x01\n",
};
enum { NP = sizeof prog / sizeof *prog };
static int nv, nbl; static u32 val[64];
static u8 blanks[2] = {' ', '\t'};
static u8 nonl[256]; static int nn;
static void blank(B *b) { b_c(b, vp_byte(vp_name("s", nbl++), blanks, 2)); }
static int anyat = -1, anyn;
static void any(B *b, int k) { if (anyat >= 0 && anyn++ != anyat) { while (k--) b_c(b, 'q'); return; } while (k--) b_c(b, vp_byte(vp_name("k", nbl++), nonl, nn)); }
// one symbolic byte and text that would matter outside a comment
static const char *com[] = {";", "; x", ";\"", ";'", ";(", "; \\ ret", ";#if 1", "; .db 1,", ";)", "\t;;"};
enum { NC = sizeof com / sizeof *com };
struct lay { int opt, man, join, eol, com, lines, at; };
// the layout of program k; at: the number of the only place that varies, -1 for all
static int line_starts(const char *s, const char *p) { return p == s || p[-1] == '\n'; }
static void render(B *b, const char *s, struct lay *L) {
	int place = 0, line = 0, skip = 0; nv = 0;
	for (const char *p = s; *p; p++) {
		int c = *p;
		if (c == 1 || c == 2) {
			int here = L->at < 0 || L->at == place; place++;
			if (c == 2) { if (here && L->man) { for (int i = 0; i < L->man; i++) blank(b); } else b_c(b, ' '); }
			else if (here) for (int i = 0; i < L->opt; i++) blank(b);
		} else if (c == 3) { b_h(b, vp_name("v", nv++), 2); }
		else if (c == 4) { b_h(b, vp_name("v", nv++), 4); }
		else if (c == 5) { if (L->join) b_c(b, '\\'); else b_s(b, "\n"); }
		else if (c == '\n') {
			int here = L->at < 0 || L->at == line; line++;
			if (here && L->com >= 0) { if (L->com < NC) { b_s(b, com[L->com]); any(b, L->at < 0 ? 1 : 2); } else { b_s(b, " ;"); any(b, 2); } }
			if (here && L->eol == 1) b_c(b, '\r');
			if (here && L->eol == 2 && !p[1]) continue;
			b_c(b, '\n');
			if (here && L->lines) {
				switch (L->lines) {
				case 1: b_s(b, "\n"); break;
				case 2: b_s(b, "  \t\r\n\n"); break;
				case 3: b_s(b, ";"); any(b, 2); b_s(b, "\n"); break;
				case 4: b_s(b, "#comment\n .db 1\n#else\n\"x\n#endcomment\n"); break;
				case 5: b_s(b, "#comment x\n"); any(b, 1); b_s(b, " y\n #endcomment\n"); break;
				case 6: b_s(b, "#region\n"); break;
				case 7: b_s(b, "\t;"); any(b, 1); b_s(b, "\r\n\\\n"); break;
				}
			}
		} else b_c(b, c);
	}
	(void) skip;
}
static int inputs(void) { vp_file("b.inc", "INC = 7\n .db 9\n", 15); vp_file("b.dat", "QRS", 3); return 0; }
void harness(void) {
	B b = mk(), e = mk(), s = mk(); u8 *p; int g = vp_choose(6), T = vp_tier(), k = vp_choose(NP); nbl = 0;
	nn = 0; for (int i = 1; i < 256; i++) if (i != '\n' && i != '\r') nonl[nn++] = i;
	struct lay base = {0, 1, 0, 0, -1, 0, -1}, L = base; int bom = 0, ez = 0; const char *msg;
	if (g == 0) { // blanks
		int o = vp_choose(3), at = vp_choose(40); L.opt = o == 0 ? 1 : o == 1 ? 0 : 2; L.man = o == 2 ? 3 : 2; L.at = at - 1; msg = "blanks between tokens"; int n = 0; for (const char *q = prog[k]; *q; q++) n += *q == 1 || *q == 2; if (at - 1 >= n) return; ez = o == 1; }
	else if (g == 1) { int c = vp_choose(NC + 1), at = vp_choose(12); L.com = c; L.at = at - 1; msg = "comments"; int n = 0; for (const char *q = prog[k]; *q; q++) n += *q == '\n'; if (at - 1 >= n) return; }
	else if (g == 2) { L.eol = 1 + vp_choose(2); int at = vp_choose(2); bom = vp_choose(2); ez = vp_choose(2); if (at) { int n = 0; for (const char *q = prog[k]; *q; q++) n += *q == '\n'; L.at = n - 1; } msg = "line ends, byte order mark, final newline"; }
	else if (g == 3) { L.lines = 1 + vp_choose(7); int at = vp_choose(12); L.at = at - 1; msg = "blank lines, comment lines and comment blocks"; int n = 0; for (const char *q = prog[k]; *q; q++) n += *q == '\n'; if (at - 1 >= n) return; if (k == 4 && (L.lines == 4 || L.lines == 5)) { if (at < 0 || !at || at - 1 < 3) return; } }
	else if (g == 4) { L.join = 1; int w = vp_choose(3); L.opt = w; L.man = 1 + w; ez = vp_choose(2); msg = "statements joined by \\"; }
	else { // everything at once
		int w = vp_choose(T ? 210 : 30); L.opt = w % 2; L.man = 1 + w % 3; L.join = w % 2; L.eol = w % 2; L.com = (w * 3 + k) % NC; L.lines = k == 4 ? 1 + w % 3 : 1 + (w + k) % 7; bom = w & 1; ez = w >> 1 & 1; msg = "layout"; }
	if (L.at < 0 && (g == 1 || g == 3 || g == 5)) anyat = T ? vp_choose(12) : (L.com + L.lines + k + 2) % 8;
	vp_go(); vp_label(msg);
	render(&s, prog[k], &base); if (ez) { B t = mk(); b_s(&t, " .assume adl=0\n"); b_mem(&t, s.b, s.n); s = t; }
	inputs(); int r0 = asm3(&s, ez ? "-E" : "-N", 0, 0), n0 = vp_out("a.bin", &p); if (n0 > 0) b_mem(&e, p, n0);
	vp_assert(n0 > 0, "the program assembles");
	if (bom) b_s(&b, "\xef\xbb\xbf"); if (ez) b_s(&b, " .assume adl=0\n");
	render(&b, prog[k], &L);
	vp_clear(); inputs(); int r1 = asm3(&b, ez ? "-E" : "-N", 0, 0);
	vp_assert(r0 == r1, "layout does not change the exit status"); same(&e, msg); vp_reach(msg);
}
