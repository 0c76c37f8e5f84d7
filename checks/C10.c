// C10: conditional assembly emits exactly the selected branches
#include "h.h"
static B src, img; static int line, style, uid;
static void nl(void) { if (style == 3) { b_s(&src, " \\ "); return; } if (style == 2) b_s(&src, " ; #endif #else\r"); b_c(&src, '\n'); line++; }
static void pre(const char *s) {   // a preprocessor word in the style
	if (style == 1) b_s(&src, "\t ");
	b_c(&src, '#');
	for (; *s; s++) b_c(&src, style == 1 && *s >= 'a' && *s <= 'z' ? *s - 32 : *s);
}
static void junk(void) {   // must take no effect
	if (style == 3) { b_s(&src, ".bogus 1 \\ foo \\ .db nope"); nl(); return; }
	static const char *j[] = { " foo bar", "#bogus", " .db nope", "U = 7", "same:", "#define D1", "#undef D0", " .org -1", "#include \"no\"", "#define X() 1", " .fill -1", " .echo \"junk\"", "@@" };
	for (int i = 0; i < 13; i++) { b_s(&src, j[i]); nl(); }
}
static void byte(int act) {
	if (!act) { junk(); return; }
	if (style != 3) { b_s(&src, "l"); b_u(&src, uid); b_s(&src, ":"); nl(); }
	b_s(&src, " .db $"); b_c(&img, b_hex(&src, vp_name("b", uid), 2)); nl();
	if (style != 3) { b_s(&src, " .dw l"); b_u(&src, uid); nl(); e_w(&img, img.n - 1); }
	uid++;
}
static int cond(const char *word, int kind, int act) {   // writes the directive, returns whether the condition holds
	int c, sym = 0; u32 v;
	switch (kind) {
	case 0: pre(word); b_s(&src, " "); if (act) { v = b_h(&src, vp_name("c", uid++), 1); sym = v != 0; } else b_s(&src, "nope"); break;
	case 1: pre(word); b_s(&src, " S == "); if (act) { v = b_h(&src, vp_name("c", uid++), 1); sym = v == 3; } else b_s(&src, "1"); break;
	case 2: pre("ifdef"); b_s(&src, " D0"); sym = 1; break;
	case 3: pre("ifdef"); b_s(&src, " D1"); sym = 0; break;
	case 4: pre("ifndef"); b_s(&src, " D0"); sym = 0; break;
	case 5: pre("ifndef"); b_s(&src, " D1"); sym = 1; break;
	case 6: pre(word); b_s(&src, " -("); if (act) { v = b_h(&src, vp_name("c", uid++), 1); sym = v < 5; } else b_s(&src, "nope"); b_s(&src, "<5)"); break;
	}
	c = act ? vp_concrete(sym) : 0; nl();
	return c;
}
static int kinds[3], shapes[3], pos[3], nlev;
static void block(int lev, int act) {
	int shape = shapes[lev], nb = 0, taken = 0, p = pos[lev];
	// branches: if, elif*, else
	int nelif = shape == 2 || shape == 3 ? 1 : shape == 4 ? 2 : 0, els = shape == 1 || shape >= 3;
	int sel = cond("if", kinds[lev], act);
	for (int i = 0; ; i++) {
		int on = act && sel && !taken;
		if (on) taken = 1;
		byte(on); if (lev + 1 < nlev && p == i) { block(lev + 1, on); if (on) byte(1); }
		if (i < nelif) { sel = cond("elif", i ? 6 : kinds[lev] & 1, act && !taken); }
		else if (i == nelif && els) { pre("else"); nl(); sel = 1; }
		else break;
	}
	pre("endif"); nl();
}
static void begin(void) {
	src = mk(); img = mk(); line = 1; uid = 0; int s = style; style = 0;
	b_s(&src, "#define D0 5"); nl(); b_s(&src, "S = 3"); nl(); b_s(&src, "same = 1"); nl(); b_s(&src, "U = 8"); nl();
	style = s;
}
static void tail(int err) {
	if (style == 3) { b_s(&src, ".db 99\n"); b_c(&img, 99); line++; }
	if (style != 3) { b_s(&src, " .db U,same,D0\n"); b_c(&img, 8); b_c(&img, 1); b_c(&img, 5); line++; b_s(&src, "#ifdef D1\n .db 44\n#endif\n"); line += 3; }
	if (!err) { good(&src, 0, &img, "exactly the selected branches take effect"); vp_assert(vp_said("junk") == 0, "nothing is echoed from skipped code"); return; }
	b_s(&src, " foo\n");
	int r = asm0(&src);
	B m = mk(); b_s(&m, "a.asm:"); b_u(&m, line); b_s(&m, ": error SE113"); b_c(&m, 0);
	vp_assert(r >= 2 && vp_said((char *) m.b) == 1 && vp_said("error SE") == 1, "line numbers stay right after conditional blocks, and nothing in skipped code is diagnosed");
	vp_reach("line numbers after conditional blocks");
}
static void one(int kind, int shape) { kinds[0] = kind; shapes[0] = shape; pos[0] = -1; nlev = 1; }
void harness(void) {
	int what = vp_choose(4);
	if (what == 0) {   // single blocks, all styles, twice in a row
		style = vp_choose(4); int kd = vp_choose(7), sh = vp_choose(5); one(kd, sh); int err = style == 3 ? 0 : vp_choose(2); vp_go(); vp_label("single");
		begin(); block(0, 1); byte(1); if (vp_tier()) block(0, 1); tail(err);
	} else if (what == 1) {   // nested
		int T = vp_tier(); nlev = T ? 3 : 2;
		static const u8 ks[] = { 0, 3, 5, 6 };
		for (int i = 0; i < nlev; i++) { kinds[i] = ks[vp_choose(i == 2 ? 2 : 4)]; shapes[i] = vp_choose(5); pos[i] = 0; if (i + 1 < nlev) pos[i] = vp_choose(shapes[i] == 0 ? 1 : shapes[i] < 3 ? 2 : shapes[i] == 3 ? 3 : 4); }
		style = 0; vp_go(); vp_label("nested");
		begin(); block(0, 1); byte(1); tail(0);
	} else if (what == 2) {   // stray #else, #elif, #endif
		int k = vp_choose(3), kd = vp_choose(7), sh = vp_choose(6), nest = vp_choose(2); vp_go(); vp_label("stray");
		style = 0; begin();
		if (sh < 5) { one(kd, sh); block(0, 1); }
		if (nest) { b_s(&src, "#if 1\n#if 0\n junk\n#else\n .db 1\n#endif\n#endif\n"); line += 7; }
		b_s(&src, k == 0 ? "#else\n" : k == 1 ? "#elif 1\n" : "#endif\n");
		int r = asm0(&src);
		B m = mk(); b_s(&m, "a.asm:"); b_u(&m, line); b_s(&m, k == 1 ? ": error SE124" : ": error SE117"); b_c(&m, 0);
		vp_assert(r >= 2 && vp_said((char *) m.b) == 1, "a stray #else, #elif or #endif is reported at its line");
		vp_reach("stray directive reported");
	} else {   // missing #endif
		int kd = vp_choose(7), sh = vp_choose(5), lev = vp_choose(3), where = vp_choose(2); vp_go(); vp_label("missing");
		style = 0; begin();
		int l0 = line;
		one(kd, sh);
		if (where == 0) block(0, 1);
		int n = lev + 1;
		l0 = line;
		for (int i = 0; i < n; i++) { kinds[0] = kd; cond("if", kd, 1); }
		b_s(&src, " .db 1\n"); if (where) b_s(&src, "#if 1\n#else\n#endif\n");
		for (int i = 1; i < n; i++) b_s(&src, "#endif\n");
		int r = asm0(&src);
		B m = mk(); b_s(&m, "a.asm:"); b_u(&m, l0); b_s(&m, ": error SE116"); b_c(&m, 0);
		vp_assert(r >= 2 && vp_said((char *) m.b) == 1 && vp_said("SE116") == 1, "a missing #endif is SE116 at its #if");
		vp_reach("missing #endif reported");
	}
}
