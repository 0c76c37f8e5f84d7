// C07: data directives emit every value little-endian in full, truncation is warned
#include "h.h"
static const char *dirs[] = {".db ", ".byte ", ".dw ", ".word ", ".dl ", ".long "};
void harness(void) {
	B b = mk(), e = mk(); int T = vp_tier();
	int g = vp_choose(5);
	if (g == 0) {        // three values of every size, one given by a later label
		int k = vp_choose(6), ez = vp_choose(2), n1 = vp_choose(2), how = vp_choose(3), w = k / 2 + 1; vp_go();
		int dg = ez ? (w == 1 ? 2 : w == 2 ? 4 : 6) : w == 1 ? 2 : 6;
		// chosen so that every value fits: -128..255, -32768..65535 (with -E), anything
		B d = mk(); i32 v = b_sh(&d, "v", dg, n1);
		if (w == 1) vp_assume(v >= -128 && v <= 255);
		if (w == 2 && ez) vp_assume(v >= -32768 && v <= 65535);
		if (how == 1) { b_s(&b, "sym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
		b_c(&b, ' '); b_s(&b, dirs[k]);
		i32 a = (i32) b_h(&b, "a", 2); b_s(&b, how & 1 ? "," : " , ");
		if (how) b_s(&b, "sym"); else b_mem(&b, d.b, d.n);
		b_s(&b, ", "); i32 c = (i32) b_h(&b, "c", 2); b_s(&b, "\n .db $5A\n");
		if (how == 2) { b_s(&b, "sym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
		for (int i = 0; i < 3; i++) { i32 x = i == 0 ? a : i == 1 ? v : c; for (int j = 0; j < w; j++) b_c(&e, (x >> (8 * j)) & 255); }
		b_c(&e, 0x5A); vp_label(dirs[k]);
		good(&b, ez ? "-E" : 0, &e, "values are emitted little-endian in order");
	} else if (g == 1) { // strings, mixed with values
		int k = vp_choose(6), n = vp_choose(T ? 7 : 4), w = k / 2 + 1; vp_go();
		b_c(&b, ' '); b_s(&b, dirs[k]); u8 dom[95]; int m = 0;
		for (int c = 32; c < 127; c++) if (c != '\\' && c != '"') dom[m++] = c;
		b_c(&b, '"');
		for (int i = 0; i < n; i++) { u8 c = vp_byte(vp_name("s", i), dom, m); b_c(&b, c); b_c(&e, c); }
		b_s(&b, "\","); u32 v = b_h(&b, "v", 2); b_s(&b, ",\"x;(,\",1\n");
		for (int j = 0; j < w; j++) b_c(&e, j ? 0 : v);
		b_s(&e, "x;(,"); for (int j = 0; j < w; j++) b_c(&e, j ? 0 : 1);
		vp_label(dirs[k]);
		good(&b, 0, &e, "strings are emitted one byte per character");
	} else if (g == 2) { // truncation warnings
		int k = vp_choose(5), how = vp_choose(3), neg = vp_choose(2), ez = vp_choose(2); vp_go();
		B d = mk(); i32 v = b_sh(&d, "v", k == 1 ? 6 : 4, neg);
		if (how == 1) { b_s(&b, "sym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
		static const char *pre[] = {" .db ", " .dw ", " ld a,", " .fill 2,", " cp "};
		b_s(&b, pre[k]); if (how) b_s(&b, "sym"); else b_mem(&b, d.b, d.n); b_s(&b, "\n .db $5A\n");
		if (how == 2) { b_s(&b, "sym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n'); }
		if (k == 3 && how == 2) { vp_reach("skipped"); return; }
		int in = k == 1 ? !ez || (v >= -32768 && v <= 65535) : v >= -128 && v <= 255;
		if (k == 2) b_c(&e, 0x3E); if (k == 4) b_c(&e, 0xFE);
		b_c(&e, v & 255); if (k == 1) b_c(&e, (v >> 8) & 255); if (k == 3) b_c(&e, v & 255); b_c(&e, 0x5A);
		vp_label(pre[k]);
		const char *code = k == 1 ? "warning SW801" : "warning SW800";
		int r = asm3(&b, ez ? "-E" : 0, 0, 0);
		vp_assert(r == 0 || r == 1, "a truncated value is not an error");
		vp_assert((vp_said(code) > 0) == !in, "the truncation warning appears exactly for values out of range");
		vp_assert(vp_said("warning") == !in, "no other warning appears");
		same(&e, "the value modulo its width is emitted");
		if (in) vp_reach("in range"); else vp_reach("truncated");
	} else if (g == 3) { // 24-bit values never warn; 16-bit never without -E
		int k = vp_choose(2), how = vp_choose(2), ez = vp_choose(2); vp_go();
		B d = mk(); u32 v = b_h(&d, "v", 8);
		if (!k && ez) { vp_reach("skipped"); return; }
		b_s(&b, k ? " .dl " : " .dw "); if (how) b_s(&b, "sym\nsym = "); b_mem(&b, d.b, d.n); b_c(&b, '\n');
		if (k) e_l(&e, v); else e_w(&e, v); vp_label(k ? ".dl" : ".dw");
		good(&b, ez ? "-E" : 0, &e, "wide values are emitted modulo the directive's width");
	} else {             // a value after a string, expressions with commas inside parentheses and quotes
		int f = vp_choose(3); vp_go();
		b_s(&b, f == 0 ? " .db 'a',$" : f == 1 ? " .dw ($" : " .dl 1+($"); u32 v = b_hex(&b, "v", 2);
		if (f == 0) { b_s(&b, ",',',\",\",';'\n"); b_c(&e, 'a'); b_c(&e, v); b_s(&e, ",,;"); }
		if (f == 1) { b_s(&b, "+1)*2,$-1\n"); e_w(&e, (v + 1) * 2); e_w(&e, 1); }
		if (f == 2) { b_s(&b, "*3),-1\n"); e_l(&e, 1 + v * 3); e_l(&e, 0xffffff); }
		vp_label("lists");
		good(&b, 0, &e, "lists of expressions");
	}
}
