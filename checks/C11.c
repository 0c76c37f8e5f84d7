// C11: defines and macros substitute arguments faithfully
#include "h.h"
static B src, img, post; static u32 pc; static int nu, dig = 2;
static void w16(u32 v) { e_w(&img, v); pc += 2; }
static void w8(u32 v) { b_c(&img, v & 255); pc++; }
// an argument: writes its text to t, returns its value at address pc (forward symbols are defined in post)
enum { ALIT, AKNOWN, AFWD, AEXPR, AFEXPR, ANEST, APC, ACHR, ANEG, ADEF, NARG };
static u32 arg(B *t, int k) {
	int id = nu++; u32 v; const char *nm = vp_name("v", id);
	switch (k) {
	case ALIT: return b_h(t, nm, dig);
	case AKNOWN: b_s(t, "kn"); return 0x1234;
	case AFWD: b_s(t, "fwd"); b_u(t, id); b_s(&post, "fwd"); b_u(&post, id); b_s(&post, " = "); v = b_h(&post, nm, dig); b_c(&post, '\n'); return v;
	case AEXPR: b_s(t, "kn - "); v = b_h(t, nm, dig); b_s(t, " "); return 0x1234 - v;
	case AFEXPR: b_s(t, "3+fwd"); b_u(t, id); b_s(&post, "fwd"); b_u(&post, id); b_s(&post, " .equ "); v = b_h(&post, nm, dig); b_c(&post, '\n'); return 3 + v;
	case ANEST: b_s(t, "g("); v = b_h(t, nm, dig); b_s(t, ",2)"); return v - 2;
	case APC: b_s(t, "$+1"); return pc + 1;
	case ACHR: b_s(t, "'"); v = vp_pick(nm, "azAZ09,()+ \"$"); b_c(t, v); b_s(t, "'"); return v;
	case ANEG: b_s(t, "-"); return -b_h(t, nm, dig);
	case ADEF: b_s(t, "dd"); return 0x40;
	}
	return 0;
}
static void prelude(void) {
	b_s(&src, "kn = $1234\n#define dd 30+34\n#define g(y,x) y-x\n#define sq(x) x*x\n");
}
static u32 body(int f, u32 x, u32 y) {
	switch (f) {
	case 0: return x + y; case 1: return x * y; case 2: return y - x; case 3: return x; case 4: return 7;
	case 5: return -x + y; case 6: return x << 1 | y; case 7: return y - x - 1; case 8: return (10 - (x - y)) * 2; case 9: return y * y - x; case 10: return x - (y - x) - y;
	}
	return 0;
}
static const char *bodies[] = { "x+y", "x*y", "y - x", " x ; y", "7", "-x+y", "(x<<1)|y", "g(y,x)-1", "10-g(x,y)*2", "sq(y)-x", "x-h(y,x)-y" };
enum { NB = sizeof bodies / sizeof *bodies };
static void finish(const char *msg) { b_mem(&src, post.b, post.n); good(&src, 0, &img, msg); }
void harness(void) {
	src = mk(); img = mk(); post = mk(); pc = 0; nu = 0;
	int what = vp_choose(5), T = vp_tier();
	if (what == 0) {   // values
		int f = vp_choose(NB), k1 = vp_choose(NARG), k2, ctx;
		if (T) { k2 = vp_choose(NARG); ctx = vp_choose(5); } else { int z = vp_choose(2); k2 = z ? (k1 * 3 + f) % NARG : (k1 + f * 3 + 5) % NARG; ctx = (f + k1 + 2 * k2 + z) % 5; }
		vp_go(); vp_label("expression macro");
		dig = f == 1 || f == 9 ? 1 : 2;
		prelude(); b_s(&src, "#define h(x,y) x-y\n#define f(x,y) "); b_s(&src, bodies[f]); b_s(&src, "\n.org $100\n"); pc = 0x100;
		B t = mk(); b_s(&t, "f("); int p1 = ctx == 2; pc += p1 ? 2 : 0; u32 a = arg(&t, k1); b_c(&t, ','); u32 b = arg(&t, k2); pc -= p1 ? 2 : 0; b_c(&t, ')'); b_c(&t, 0);
		u32 v = body(f, a, b);
		const char *pr[] = { " .dw ", " .dw 3-", " .dw 1, 5*", " ld hl,(", " .dl " }, *po[] = { "\n", "*2\n", "+1,9\n", ")\n", "-1\n" };
		b_s(&src, pr[ctx]); b_s(&src, (char *) t.b); b_s(&src, po[ctx]);
		switch (ctx) {
		case 0: w16(v); break;
		case 1: w16((3 - v) * 2); break;
		case 2: w16(1); w16(5 * v + 1); w16(9); break;
		case 3: w8(0x2A); w16(v); break;
		case 4: e_l(&img, v - 1); pc += 3; break;
		}
		finish("a macro in an expression is its body with the arguments as values");
	} else if (what == 1) {   // statements
		int k1 = vp_choose(NARG), k2, outer;
		if (T) { k2 = vp_choose(NARG); outer = vp_choose(4); } else { k2 = vp_choose(3); k2 = (k1 * 3 + k2 * 4 + 1) % NARG; outer = (k1 + k2) % 4; }
		vp_go();
		if (!T) dig = 1; vp_label("statement macro");
		prelude(); u32 ov = 0x77;
		b_s(&src, "#macro inner(p,q)\n .dw p-q,$\n#endmacro\n#macro m(p,q)\n .dw q, p*2\n ld hl,p\n ld (q-1),a\n inner(q,2*p)\n#if p == q\n .db 1\n#else\n .db 2\n#endif\n .dw g(p,q),5-p\n#define loc p\n .dw loc+kn\n inner( p , $ )\n#endmacro\n");
		if (outer == 0) b_s(&src, "p = $77\n"); else if (outer == 1) b_s(&src, "#define p $77\n");
		b_s(&src, ".org $200\n"); pc = 0x200;
		// only arguments known at once decide #if as written; forward ones compare unequal there
		int fw = k1 == AFWD || k1 == AFEXPR || k2 == AFWD || k2 == AFEXPR;
		for (int i = 0; i < 2; i++) {
			b_s(&src, i ? "lab m( " : " m("); u32 a = arg(&src, k1); b_s(&src, i ? " , " : ","); u32 b = arg(&src, k2); b_s(&src, i ? " ) ; x\n" : ")\n");
			w16(b); w16(a * 2); w8(0x21); w16(a); w8(0x32); w16(b - 1); w16(b - 2 * a); w16(pc);
			w8(!fw && vp_concrete((a == b)) ? 1 : 2);
			w16(a - b); w16(5 - a); w16(a + 0x1234); u32 here = pc; w16(a - here); w16(pc);
			if (fw) break;   // loc keeps a forward value
		}
		if (outer == 0) { b_s(&src, " .dw p\n"); w16(0x77); } else if (outer == 1) { b_s(&src, " .dw p+1\n"); w16(0x78); }
		else if (outer == 2) { b_s(&src, " .dw p\np = $3132\n"); w16(0x3132); }
		else {
			b_s(&src, " .dw q\n"); b_mem(&src, post.b, post.n);
			int r = asm0(&src);
			vp_assert(r == 2 && vp_said("SE106") == 1 && vp_said("'q'") == 1, "a parameter is not known outside the invocation"); vp_reach("parameters do not leak"); return;
		}
		finish("invoking a macro assembles its body with the parameters bound");
	} else if (what == 2) {   // redefinition, #undef, eval, concat
		int k = vp_choose(10), a1 = vp_choose(4); vp_go(); vp_label("definitions");
		static const int ak[] = { ALIT, AEXPR, ANEG, ANEST };
		prelude(); u32 v, w;
		switch (k) {
		case 0: b_s(&src, "#define x "); v = arg(&src, ak[a1]); b_s(&src, "\n .dw x\n#define x "); w = arg(&src, ak[a1]); b_s(&src, "\n .dw x, 2*x\n"); w16(v); w16(w); w16(2 * w); break;
		case 1: b_s(&src, "#define x "); v = b_h(&src, "a", 2); b_s(&src, "\n .dw x\n#define x x+1\n .dw x\n#define x 2*(x)\n .dw x\n"); w16(v); w16(v + 1); w16(2 * (v + 1)); break;
		case 2: b_s(&src, "#define x "); v = b_h(&src, "a", 2); b_s(&src, "\n .dw x\n#undef X\n#ifdef x\n .db 1\n#endif\nx = "); w = b_h(&src, "b", 2); b_s(&src, "\n .dw x\n"); w16(v); w16(w); break;
		case 3: b_s(&src, "y = "); v = b_h(&src, "a", 2); b_s(&src, "\n#define x eval(y*2-1)\n#define z y*2-1\ny = 3\n .dw x,z\n"); w16(v * 2 - 1); w16(5); 
			b_mem(&src, post.b, post.n); { int r = asm0(&src); vp_assert(r <= 1, "redefining a label is only warned about"); same(&img, "eval() fixes the value"); vp_reach("eval() fixes the value"); } return;
		case 4: b_s(&src, " .db 1,2\n#define x eval($+"); v = b_h(&src, "a", 2); b_s(&src, ")\n .db 3\n .dw x\n"); w8(1); w8(2); w8(3); w16(2 + v); break;
		case 5: b_s(&src, "n = "); { u32 d = b_hex(&src, "a", 1); vp_assume(d < 4); b_s(&src, "\n#define x concat(\"l\",n)\nl0 = 11\nl1 = 12\nl2 = 13\nl3 = 14\n .dw x\n"); w16(11 + vp_concrete(d)); } break;
		case 6: b_s(&src, "n = "); v = b_h(&src, "a", 1); b_s(&src, "\n#define x concat(n,\"+\",n,\"*2\")\n .dw x,1+x\n"); w16(v * 4); w16(1 + v * 4); break;
		case 7: b_s(&src, "#define x\n#define y z\n#define z "); v = b_h(&src, "a", 2); b_s(&src, "\n .dw x,y\n#define z 9\n .dw y\n"); w16(1); w16(v); w16(9); break;
		case 8: b_s(&src, "#macro x(a)\n .db a\n#endmacro\n x("); v = b_h(&src, "a", 2); b_s(&src, ")\n#macro x(a,b)\n .db b,a\n#endmacro\n x("); w = b_h(&src, "b", 2); b_s(&src, ",5)\n#undefine x\n#define x(q) q+1\n .db x(6)\n"); w8(v); w8(5); w8(w); w8(7); break;
		case 9: b_s(&src, "#define s \"q,\"\n#define li 1,s,"); v = b_h(&src, "a", 2); b_s(&src, "\n#define lf(x) x,\"-\",x+1\n .db li,lf(8)\n .dw lf("); w = b_h(&src, "b", 2); b_s(&src, ")\n"); w8(1); w8('q'); w8(','); w8(v); w8(8); w8('-'); w8(9); w16(w); w8('-'); w16(w + 1); break;
		}
		finish("definitions take effect for later uses only");
	} else if (what == 3) {   // argument counts
		int np = vp_choose(4), na = vp_choose(5), kind = vp_choose(3); vp_go(); vp_label("argument count");
		b_s(&src, kind == 0 ? "#macro m(" : "#define m("); for (int i = 0; i < np; i++) { if (i) b_c(&src, ','); b_c(&src, 'p'); b_u(&src, i); } b_s(&src, kind == 0 ? ")\n .db 1" : ") 1");
		if (kind == 2 && np) b_s(&src, "+0"); for (int i = 0; i < np; i++) { b_s(&src, kind == 0 ? "\n .db p" : "+p"); b_u(&src, i); } if (kind == 0) b_s(&src, "\n#endmacro");
		b_s(&src, kind == 0 ? "\n m(" : kind == 1 ? "\n .db m(" : "\n ld a,m("); u32 sum = 1; if (kind == 2) w8(0x3E); if (kind == 0) w8(1);
		for (int i = 0; i < na; i++) { if (i) b_c(&src, ','); u32 v = b_h(&src, vp_name("a", i), 1); if (i < np) { sum += v; if (kind == 0) w8(v); } }
		if (kind) w8(sum);
		b_s(&src, ")\n");
		if (na < np) bad(&src, 0, "SE102", "a missing argument is diagnosed");
		else if (na > np) { int r = asm0(&src); vp_assert(r == 1 && vp_said("SW804") > 0, "a surplus argument is warned about"); same(&img, "surplus argument"); vp_reach("surplus argument"); }
		else finish("matching argument count");
	} else {   // recursion is bounded by conditionals; arguments rebind at each level
		int n = vp_choose(T ? 8 : 4); vp_go(); vp_label("recursive macro");
		b_s(&src, "#macro r(n,v)\n#if n > 0\n .db v\n r(n-1,v+n)\n .db n\n#endif\n#endmacro\n r("); b_u(&src, n); b_c(&src, ','); u32 v = b_h(&src, "v", 2); b_s(&src, ")\n");
		vp_assume(v < 200);
		for (int i = n; i > 0; i--) { w8(v); v += i; } for (int i = 1; i <= n; i++) w8(i);
		finish("recursive macros rebind their parameters");
	}
}
