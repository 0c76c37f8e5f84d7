// C21: #include and #import
#include "h.h"
static int nv;
static void h(B *b, int k) { b_h(b, vp_name("v", nv++), k); }
// \x01..\x04: a symbolic number of that many hexadecimal digits
static void put(B *b, const char *s) { for (; *s; s++) if (*s >= 1 && *s <= 4) h(b, *s); else b_c(b, *s); }
static int keep(B *d, const char *f) { u8 *p; int n = vp_out(f, &p); if (n > 0) b_mem(d, p, n); return n; }
static const char *inner[] = {
	" .db \x02\n", " .db \x02", "Lb: ld a,\x02\r\n jr Lb\r\n", "", "; comment", "\n\n", "X1 = \x04\n", "Lb:", "Lb", " .dw Fwd,\x04\\ nop\n", "#define D1 \x02\n .db D1",
	"#macro M1(P)\n .db P,\x02\n#endmacro\n M1(3)", "#if 1\n ret\n#else\n .db \x02\n#endif", "#if 0\n bogus\n#else\n .db \x02\n#endif\n", " .fill 2,\x02\n .org $2000\nLb: .dw $\n", "_ djnz -_\n", " wr(\" .db \x02\")\\ run()\n", "#comment\nx\n#endcomment\n .db \x02\n",
	"#include \"c.inc\"\n .db \x02", "\xef\xbb\xbf .db \x02\n", "#ifndef G1\n#define G1\n .db \x02\n#endif\n", " .db \"a;b\",'c',\x02 ; no newline", "#import \"d.dat\"\n .db \x02", " ld hl,Fwd\\ ld (ix+\x01),\x02\\ call Lz\nLz:\n", " .seek 0\n .db \x02\n .block 1\n", "#define D2(Q) Q*2\n#undef D1\n .db D2(\x01)\n", " .db \x02\n .nolist\n .db 2\n .list\n", "  \t .db \x02 \\ \\ nop\\\n", "#define D1 \x01\n#defcont +\x01\n .db D1\n", " jp Fwd\n#region\n ret\n#endregion", " .echo \"in\"\n .db \x02", " .assume adl=0\n ld hl,\x04\n", " ld de,\x04\\ .assume adl=1\n call Fwd", " clr()\n wr(\" ld hl,\x04\")\n wr(\" .assume adl=0\")\n run()\n",
	// diagnosed
	" .db Und\n .db \x02\n", " bogus\n .db \x02\n", " .dw $12345,\x04\n", "#else\n .db \x02\n", "#include \"none\"\n nop\n", " .error \"x\"\n .db \x02\n", " bit \x01,a\n nop\n", " .db \x03\n"};
enum { NI = sizeof inner / sizeof *inner };
// before and after the directive; a '@' in it stands for the file
static const char *outer[] = {"@", " nop\n@\n .dw $,Fwd\nFwd = \x04\n", "#if \x01<20\n@\n#else\n ret\n#endif\n .db \x02\n", "#macro MO(P)\n@\n .db P\n#endmacro\n MO(\x02)\n ret\n", "#if 0\n@\n#endif\n .db \x02\n@\n .db 5\n", "Lo: nop\n@\n@\n .db Lo-Fwd\nFwd:", "#ifdef G1\n .db 1\n#else\n@\n#endif\n#ifdef G1\n .db 2\n#endif\n", "#define D1 7\n@\n .db D1\n jr Fwd\nFwd: ret\n", " .assume adl=0\n ld hl,\x04\n@\n ld hl,\x04\n call Fwd\n push.lil hl\nFwd:", " ld hl,\x04\n@\n ld hl,\x04\n jp Fwd\nFwd: ret\n"};
enum { NO = sizeof outer / sizeof *outer };
static u8 any[256];
static int idiags(int *e) { u8 *p; int n = vp_stdout(&p), c = 0; *e = vp_count(p, n, "warning"); return vp_count(p, n, "error"); }
void harness(void) {
	B b = mk(), f = mk(), e = mk(), s = mk(); u8 *p; int g = vp_choose(4), T = vp_tier(); nv = 0; for (int i = 0; i < 256; i++) any[i] = i;
	if (g == 0) {
		// against the spliced text
		int k = vp_choose(NI), o = vp_choose(NO), how = T ? vp_choose(6) : (k * 5 + o) % 6, opt = T ? vp_choose(3) : o >= 8 ? 1 : (k + o * 5) % 3; vp_go(); vp_label("include");
		// inside a macro or repeated: text without definitions or directives of its own
		put(&f, inner[k]); int hasdef = 0, hash = 0; for (const char *q = inner[k]; *q; q++) { if (*q == '#') hash = 1; if (*q == 'L' || *q == '=' || *q == '_') hasdef = 1; }
		if (o == 3 && (hash || hasdef)) return; if (o == 5 && (hasdef || k == 10 || k == 11)) return; if (o == 5 && k == 28) return;
		static const char *form[6] = {"#include \"b.inc\"", "  #include b.inc", "#INCLUDE \"b.inc\" ; why", "#include\t\"sub/b.inc\"", "#include \"./b.inc\"", " #Include \"sub\\b.inc\""};
		const char *fn = how == 3 || how == 5 ? "sub/b.inc" : "b.inc";
		const u8 *fb = f.b; int fl = f.n; if (fl > 3 && k == 19) { fb += 3; fl -= 3; }
		B all = mk(); put(&all, outer[o]);
		for (int i = 0; i < all.n; i++) { if (!vp_issym(all.b[i]) && all.b[i] == '@') { b_s(&b, form[how]); b_mem(&s, fb, fl); if (fl && fb[fl - 1] != '\n' && i + 1 < all.n) ; if (!fl) b_s(&s, ""); } else { b_c(&b, all.b[i]); b_c(&s, all.b[i]); } }
		vp_file("c.inc", " .db 1\n#include \"d.inc\"\n .db 3", 30); vp_file("d.inc", "Y1 .equ 2\n .db 2", 16); vp_file("d.dat", "DAT", 3);
		static const char *opts[3] = {0, "-E", "-T"};
		int r0 = asm3(&s, opts[opt], 0, 0), n0 = keep(&e, "a.bin"), w0, w1, e0 = idiags(&w0);
		vp_clear(); vp_file("c.inc", " .db 1\n#include \"d.inc\"\n .db 3", 30); vp_file("d.inc", "Y1 .equ 2\n .db 2", 16); vp_file("d.dat", "DAT", 3); vp_file(fn, f.b, f.n);
		int r1 = asm3(&b, opts[opt], 0, 0), e1 = idiags(&w1);
		vp_assert(r0 == r1, "#include has the status of the text in its place"); vp_assert(e0 == e1 && w0 == w1, "#include has the diagnostics of the text in its place");
		if (n0 < 0) vp_assert(vp_out("a.bin", &p) < 0, "no output as with the text in its place"); else same(&e, "#include assembles the text as if it stood in its place");
		vp_reach(r0 ? "include, diagnosed" : "include");
	} else if (g == 1) {
		// #import: the bytes, the address after them, and what follows
		int n = vp_choose(6), pre = vp_choose(4), form = vp_choose(4), opt = vp_choose(3), tw = vp_choose(2); vp_go(); vp_label("import");
		static const int szs[6] = {0, 1, 2, 4, 9, 300}; int sz = szs[n] + (n == 5 && T ? 5000 : 0);
		for (int i = 0; i < sz; i++) b_c(&f, i < 4 || i == sz - 1 ? vp_byte(vp_name("b", i < 4 ? i : 4), any, 256) : i * 7);
		vp_file("dat/x.dat", f.b, f.n);
		u32 org = 0, at;
		if (pre == 1) { org = vp_u("o", 4); b_s(&b, " .org $"); b = mk(); b_s(&b, " .org "); nv = 0; org = b_h(&b, "o", 4); b_s(&b, "\n"); vp_assume(org < 0xE000); }
		if (pre == 2) { b_s(&b, " .db "); u32 v = b_h(&b, "v", 2); b_s(&b, "\n"); b_c(&e, v); }
		if (pre == 3) { b_s(&b, "#if 1\n ld bc,Fwd\n"); b_c(&e, 1); int q = 3 + sz * (1 + tw) + 2 + 2; e_w(&e, q); }
		static const char *forms[4] = {"#import \"dat/x.dat\"", " #IMPORT dat/x.dat", "#import \"dat\\x.dat\" ; c", "#import\t\"dat/x.dat\""};
		at = org + e.n;
		for (int i = 0; i <= tw; i++) { b_s(&b, forms[form]); b_s(&b, "\n"); b_mem(&e, f.b, f.n); at += sz; }
		b_s(&b, "Lb: .dw $,Lb\n"); e_w(&e, at); e_w(&e, at);
		if (pre == 3) b_s(&b, "#endif\n"); b_s(&b, "Fwd: ret\n"); b_c(&e, 0xC9);
		static const char *opts[3] = {0, "-T", "-S"};
		good(&b, opts[opt], &e, "#import emits exactly the bytes of the file");
	} else if (g == 2) {
		// which of several files of the name is taken
		int have = vp_choose(8), dirs = vp_choose(4), imp = vp_choose(2), where = vp_choose(3), abs_ = vp_choose(2); vp_go(); vp_label("search");
		if (!T && ((have + dirs + where) & 1) != imp) return;
		static const char *path[3] = {"x.inc", "d1/x.inc", "d2/x.inc"}; u8 val[3];
		for (int i = 0; i < 3; i++) { val[i] = vp_byte(vp_name("x", i), any, 256); if (have >> i & 1) { B t = mk(); if (imp) b_c(&t, val[i]); else { vp_assume(1); val[i] = (u8) b_hex((b_s(&t, " .db $"), &t), vp_name("h", i), 2); b_s(&t, "\n"); } vp_file(path[i], t.b, t.n); } }
		vp_file("d1/z", "", 0); vp_file("d2/z", "", 0);
		const char *line = imp ? "#import \"x.inc\"\n" : "#include \"x.inc\"\n";
		// the directive stands in the main file, in one included from a directory, or in the main file of another directory
		if (where == 1) { vp_file("d2/y.inc", line, vp_slen(line)); b_s(&b, "#include \"d2/y.inc\"\n .db 7\n"); } else { b_s(&b, line); b_s(&b, " .db 7\n"); }
		vp_file(where == 2 ? "d2/a.asm" : "a.asm", b.b, b.n);
		static const char *o1[4] = {"-Id1", "-Id2", "-Id1", 0}, *o2[4] = {"-Id2", "-Id1", 0, 0};
		if (o1[dirs]) vp_arg(o1[dirs]); if (o2[dirs]) vp_arg(o2[dirs]);
		vp_arg(where == 2 ? "d2/a.asm" : "a.asm"); vp_arg("a.bin"); int r = vp_run();
		int ord[3] = {0, dirs == 1 ? 2 : 1, dirs == 1 ? 1 : 2}, nd = dirs == 3 ? 1 : dirs == 2 ? 2 : 3, got = -1;
		for (int i = 0; i < nd && got < 0; i++) if (have >> ord[i] & 1) got = ord[i];
		if (abs_) return;
		if (got < 0) { vp_assert(r >= 2 && vp_said("error") > 0, "a missing file is diagnosed"); vp_reach("a missing file is diagnosed"); }
		else { b_c(&e, val[got]); b_c(&e, 7); vp_assert(r == 0, "a valid program assembles with exit status 0"); same(&e, "files are searched in the working directory, then in the -I directories in order"); vp_reach("files are searched in the working directory, then in the -I directories in order"); }
	} else {
		// missing and malformed
		static const char *bads[] = {"#include", "#include \"no\"", "#include no.inc", "#import", "#import \"no\"", "#import no", "#import \"\"", "#include \"\"", "#include x.in", "#include \"X.INC\"", "#import x.inc2", "#include \"d1/x.inc/y\"", "#include \"d1\"", "#include ; x.inc", "#import \\ nop"};
		int k = vp_choose(sizeof bads / sizeof *bads), pl = vp_choose(3); vp_go(); vp_label("missing");
		vp_file("x.inc", " nop\n", 5); vp_file("d1/x.inc", " nop\n", 5);
		if (pl == 1) b_s(&b, "#if 1\n"); if (pl == 2) b_s(&b, " .db 1\n");
		b_s(&b, bads[k]); b_s(&b, "\n .db "); h(&b, 2); b_s(&b, "\n"); if (pl == 1) b_s(&b, "#endif\n");
		int r = asm3(&b, "-Id1", 0, 0); vp_assert(r >= 2 && vp_said("error") > 0, "a missing or unnamed file is diagnosed"); vp_assert(vp_said(pl ? "a.asm:2: error" : "a.asm:1: error") > 0, "the line of the directive is reported"); vp_reach("a missing or unnamed file is diagnosed");
	}
}
