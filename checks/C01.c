// C01: expressions evaluate strictly left to right in 32-bit arithmetic
#include "vp.h"
static const char *ops[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "=", "!=", "&&", "||"};
enum { NOPS = 19 };
static int div0, ovf, shoob;
static u32 ap(int op, u32 a, u32 b) {
	i32 x = (i32) a, y = (i32) b;
	switch (op) {
	case 0: return a + b; case 1: return a - b; case 2: return a * b;
	case 3: case 4:
		if (b == 0) { div0 = 1; return 0; }
		if (a == 0x80000000u && b == 0xffffffffu) { ovf = 1; return 0; }
		return op == 3 ? (u32) (x / y) : (u32) (x % y);
	case 5: return a & b; case 6: return a | b; case 7: return a ^ b;
	case 8: vp_assume(b < 32); return a << b;
	case 9: vp_assume(b < 32); return (u32) (x >> b);
	case 10: return x < y; case 11: return x > y; case 12: return x <= y; case 13: return x >= y;
	case 14: case 15: return a == b; case 16: return a != b;
	case 17: return (a != 0) & (b != 0); case 18: return (a != 0) | (b != 0);
	}
	return 0;
}
static u32 un(int u, u32 v) { return u == 1 ? 0u - v : u == 2 ? ~v : v; }
static const char *uns[] = {"", "-", "~", "+"};
static void finish(B *b, u32 want, const char *msg) {
	b_s(b, "\n .dl v\n .db (v>>24)&255\n .db $5A\n");
	vp_file("a.asm", b->b, b->n);
	vp_arg("a.asm"); vp_arg("a.bin");
	int r = vp_run();
	if (div0) { vp_reach("division by zero"); vp_assert(r >= 2 && vp_said("SE203") > 0, "division by zero is reported as SE203 with a failing exit status"); return; }
	if (ovf) { vp_reach("INT_MIN / -1"); vp_assert(r >= 2 && vp_said("SE205") > 0, "INT_MIN / -1 is reported as SE205 with a failing exit status"); return; }
	vp_assert(r == 0, "a valid expression assembles without diagnostics");
	u8 *o; int n = vp_out("a.bin", &o);
	vp_assert(n == 5, "five bytes are emitted");
	u8 e[5] = {want, want >> 8, want >> 16, want >> 24, 0x5A};
	vp_assert_eq(o, e, 5, msg);
	vp_reach(msg);
}
static u32 num(B *b, const char *name, int form) {
	u32 v;
	switch (form) {
	case 0: b_c(b, '$'); return b_hex(b, name, 8);
	case 1: b_c(b, '$'); return b_hex(b, name, 4);
	case 2: b_c(b, '$'); return b_hex(b, name, 2);
	case 3: return b_dec(b, name, 3);
	case 4: b_c(b, '$'); return b_hex(b, name, 1);
	case 5: b_c(b, '%'); return b_bin(b, name, 5);
	}
	return 0;
}
void harness(void) {
	B b; b_init(&b); u32 v, x, y, z; int T = vp_tier();
	b_s(&b, "v = ");
	int g = vp_choose(5);
	if (g == 0) {        // one operator, full width operands
		int op = vp_choose(NOPS), sp = vp_choose(2); vp_label(ops[op]); vp_go();
		x = num(&b, "x", 0); if (sp) b_c(&b, ' '); b_s(&b, ops[op]); if (sp) b_c(&b, ' ');
		if (op == 8 || op == 9) { b_c(&b, '%'); y = b_bin(&b, "y", 5); } else y = num(&b, "y", 0);
		finish(&b, ap(op, x, y), "binary operator on 32-bit operands");
	} else if (g == 1) { // two operators, strictly left to right
		int op = vp_choose(NOPS), op2 = vp_choose(NOPS); vp_label(ops[op]); vp_go();
		int f = T ? 0 : 1;
		x = num(&b, "x", f); b_s(&b, ops[op]);
		y = num(&b, "y", (op == 8 || op == 9) ? 5 : f); b_s(&b, ops[op2]);
		z = num(&b, "z", (op2 == 8 || op2 == 9) ? 5 : f);
		finish(&b, ap(op2, ap(op, x, y), z), "two operators are applied left to right");
	} else if (g == 2) { // parentheses first
		int op = vp_choose(NOPS), op2 = vp_choose(NOPS); vp_label(ops[op]); vp_go();
		int f = T ? 1 : 2;
		x = num(&b, "x", 1); b_s(&b, ops[op]); b_c(&b, '(');
		y = num(&b, "y", f); b_s(&b, ops[op2]);
		z = num(&b, "z", op2 == 8 || op2 == 9 ? 5 : f); b_c(&b, ')');
		u32 r = ap(op2, y, z);
		finish(&b, ap(op, x, r), "parentheses are evaluated first");
	} else if (g == 3) { // prefix operators bind to the operand that follows
		int u1 = vp_choose(4), u2 = vp_choose(4), op = vp_choose(NOPS), par = vp_choose(2); vp_label(ops[op]); vp_go();
		b_s(&b, uns[u1]); x = un(u1, num(&b, "x", 1)); b_s(&b, ops[op]);
		b_s(&b, uns[u2]);
		if (par) b_c(&b, '(');
		y = num(&b, "y", op == 8 || op == 9 ? 5 : 1);
		if (par) { b_c(&b, '+'); b_s(&b, "$1)"); y += 1; }
		y = un(u2, y);
		finish(&b, ap(op, x, y), "prefix operators bind to the operand that follows");
	} else {             // operands taken from symbols, nested parentheses, three operators
		int op = vp_choose(NOPS), op2 = vp_choose(T ? NOPS : 6), op3 = vp_choose(3); vp_label(ops[op]); vp_go();
		b.n = 0; b_s(&b, "lx = $"); x = b_hex(&b, "x", 8); b_s(&b, "\nly .equ $"); y = b_hex(&b, "y", 4);
		if (op == 8 || op == 9) vp_assume(y < 32);
		if (op2 == 8 || op2 == 9) vp_assume(y < 32);
		b_s(&b, "\n#define lz $"); z = b_hex(&b, "z", 4);
		b_s(&b, "\nv = ((lx) "); b_s(&b, ops[op]); b_s(&b, " ly"); b_s(&b, ops[op2]); b_s(&b, "ly) "); b_s(&b, ops[op3]); b_s(&b, " lz");
		finish(&b, ap(op3, ap(op2, ap(op, x, y), y), z), "symbol operands and nesting");
	}
}
