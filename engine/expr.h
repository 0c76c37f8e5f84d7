// Symbolic expression DAG (hash-consed bit-vector terms, width 1..64) and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <time.h>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64) v : ((i64) (v << (64 - w))) >> (64 - w); }

enum EOp : u8 { E_CONST, E_TAB, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
	E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_NOT };
static const char *eop_name[] = {"const","tab","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor",
	"shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","not"};

struct Expr {
	EOp op; u8 w; u32 id;
	int var;               // single support variable, -1 none (const), -2 several
	u64 c;                 // const value / extract offset
	const Expr *k[3];
	u64 lo, hi;            // unsigned range
	u64 *tab;              // E_TAB: value per index of the variable's base domain
	const std::vector<int> *sup;
	mutable Z3_ast z;
	mutable u32 mark; mutable u64 val;   // memo for evaluation
};
typedef const Expr *E;

struct Var { std::string name; std::vector<u8> dom; int kind; Z3_ast z; };
extern std::vector<Var> vars;

struct DomMask { u64 m[4]; };
static inline bool dm_get(const DomMask &d, int i) { return d.m[i >> 6] >> (i & 63) & 1; }
static inline int dm_count(const DomMask &d) { return __builtin_popcountll(d.m[0]) + __builtin_popcountll(d.m[1]) + __builtin_popcountll(d.m[2]) + __builtin_popcountll(d.m[3]); }
static inline bool dm_empty(const DomMask &d) { return !(d.m[0] | d.m[1] | d.m[2] | d.m[3]); }

std::vector<Var> vars;
static std::map<std::pair<std::string, std::string>, int> var_index;

static u64 n_exprs = 0;
static std::unordered_multimap<u64, const Expr *> cons;
static std::vector<const std::vector<int> *> sup_pool;
static std::map<std::vector<int>, const std::vector<int> *> sup_index;
static const std::vector<int> sup_empty;

static const std::vector<int> *intern_sup(std::vector<int> v) {
	auto it = sup_index.find(v);
	if (it != sup_index.end()) return it->second;
	auto *p = new std::vector<int>(v);
	sup_index[v] = p;
	return p;
}

static u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static E mkConst(u64 v, unsigned w);
static E mkTab(int var, unsigned w, const u64 *vals);
static E mkBin(EOp op, E a, E b);
static E mkExtract(E a, unsigned off, unsigned w);
static E mkConcat(E hi, E lo);
static E mkZext(E a, unsigned w);
static E mkSext(E a, unsigned w);
static E mkIte(E c, E a, E b);
static E mkNot(E a);

static E new_expr(Expr &t) {
	u64 h = mix(mix(mix(t.op, t.w), t.c), t.var);
	if (t.op == E_TAB) { for (size_t i = 0; i < vars[t.var].dom.size(); i++) h = mix(h, t.tab[i]); }
	for (int i = 0; i < 3; i++) h = mix(h, t.k[i] ? t.k[i]->id + 1 : 0);
	auto r = cons.equal_range(h);
	for (auto it = r.first; it != r.second; ++it) {
		E e = it->second;
		if (e->op != t.op || e->w != t.w || e->c != t.c || e->var != t.var) continue;
		if (e->k[0] != t.k[0] || e->k[1] != t.k[1] || e->k[2] != t.k[2]) continue;
		if (t.op == E_TAB && memcmp(e->tab, t.tab, vars[t.var].dom.size() * 8)) continue;
		return e;
	}
	Expr *e = new Expr(t);
	e->id = ++n_exprs; e->z = nullptr; e->mark = 0;
	if (t.op == E_TAB) {
		size_t n = vars[t.var].dom.size();
		e->tab = (u64 *) malloc(n * 8);
		memcpy(e->tab, t.tab, n * 8);
	}
	if (t.op != E_CONST && t.op != E_TAB) {
		std::vector<int> s;
		for (int i = 0; i < 3; i++) if (t.k[i]) { std::vector<int> o; std::set_union(s.begin(), s.end(), t.k[i]->sup->begin(), t.k[i]->sup->end(), std::back_inserter(o)); s.swap(o); }
		e->sup = intern_sup(s);
	} else if (t.op == E_TAB) e->sup = intern_sup({t.var});
	else e->sup = &sup_empty;
	cons.emplace(h, e);
	return e;
}

static E mkConst(u64 v, unsigned w) {
	Expr t{}; t.op = E_CONST; t.w = w; t.var = -1; t.c = v & maskw(w); t.lo = t.hi = t.c;
	return new_expr(t);
}
static E mkTab(int var, unsigned w, const u64 *vals) {
	size_t n = vars[var].dom.size();
	u64 lo = vals[0], hi = vals[0]; bool same = true;
	for (size_t i = 1; i < n; i++) { if (vals[i] != vals[0]) same = false; if (vals[i] < lo) lo = vals[i]; if (vals[i] > hi) hi = vals[i]; }
	if (same) return mkConst(vals[0], w);
	Expr t{}; t.op = E_TAB; t.w = w; t.var = var; t.tab = (u64 *) vals; t.lo = lo; t.hi = hi;
	return new_expr(t);
}
static E mkVar(const std::string &name, const std::vector<u8> &dom, int kind) {
	std::string d((const char *) dom.data(), dom.size());
	auto key = std::make_pair(name, d);
	auto it = var_index.find(key);
	int v;
	if (it != var_index.end()) v = it->second;
	else {
		v = vars.size();
		vars.push_back(Var{name, dom, kind, nullptr});
		var_index[key] = v;
	}
	u64 t[256];
	for (size_t i = 0; i < dom.size(); i++) t[i] = dom[i];
	return mkTab(v, 8, t);
}

static u64 op_eval(EOp op, unsigned w, u64 a, u64 b) {
	u64 m = maskw(w); a &= m; b &= m;
	switch (op) {
	case E_ADD: return (a + b) & m;
	case E_SUB: return (a - b) & m;
	case E_MUL: return (a * b) & m;
	case E_UDIV: return b ? a / b : m;
	case E_UREM: return b ? a % b : a;
	case E_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64) (x / y) & m; }
	case E_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64) (x % y) & m; }
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_SHL: return b >= w ? 0 : (a << b) & m;
	case E_LSHR: return b >= w ? 0 : a >> b;
	case E_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64) (sx(a, w) >> b) & m;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, w) < sx(b, w);
	case E_SLE: return sx(a, w) <= sx(b, w);
	default: abort();
	}
}
static inline bool is_cmp(EOp op) { return op >= E_EQ && op <= E_SLE; }
static inline bool isC(E e) { return e->op == E_CONST; }
static inline bool isC(E e, u64 v) { return e->op == E_CONST && e->c == v; }
static inline int single_var(E a, E b) { // var id if both depend on at most one common variable
	int v = -1;
	for (E e : {a, b}) {
		if (e->op == E_CONST) continue;
		if (e->op != E_TAB) return -2;
		if (v == -1) v = e->var; else if (v != e->var) return -2;
	}
	return v;
}
static inline u64 tabval(E e, size_t i) { return e->op == E_CONST ? e->c : e->tab[i]; }

static E raw(EOp op, unsigned w, E a, E b, E c, u64 k, u64 lo, u64 hi) {
	Expr t{}; t.op = op; t.w = w; t.var = -2; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = k; t.lo = lo; t.hi = hi;
	return new_expr(t);
}

static E mkNot(E a) { // w==1
	if (isC(a)) return mkConst(!a->c, 1);
	if (a->op == E_TAB) { u64 t[256]; for (size_t i = 0; i < vars[a->var].dom.size(); i++) t[i] = !a->tab[i]; return mkTab(a->var, 1, t); }
	if (a->op == E_NOT) return a->k[0];
	if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
	if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
	if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
	if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
	return raw(E_NOT, 1, a, nullptr, nullptr, 0, 0, 1);
}

static E mkZext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return mkConst(a->c, w);
	if (a->op == E_TAB) return mkTab(a->var, w, a->tab);
	if (a->op == E_ZEXT) return mkZext(a->k[0], w);
	if (a->op == E_EXTRACT && a->c == 0 && a->k[0]->hi <= maskw(a->w)) // the extract drops only zero bits
		return a->k[0]->w <= w ? mkZext(a->k[0], w) : mkExtract(a->k[0], 0, w);
	return raw(E_ZEXT, w, a, nullptr, nullptr, 0, a->lo, a->hi);
}
static E mkSext(E a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return mkConst((u64) sx(a->c, a->w), w);
	if (a->op == E_TAB) { u64 t[256]; for (size_t i = 0; i < vars[a->var].dom.size(); i++) t[i] = (u64) sx(a->tab[i], a->w) & maskw(w); return mkTab(a->var, w, t); }
	if (a->hi < (1ull << (a->w - 1))) return mkZext(a, w);
	if (a->op == E_SEXT) return mkSext(a->k[0], w);
	return raw(E_SEXT, w, a, nullptr, nullptr, 0, 0, maskw(w));
}
// number of trailing bits known to be zero
static unsigned tz_of(E e) {
	switch (e->op) {
	case E_CONST: return e->c ? std::min<unsigned>(__builtin_ctzll(e->c), e->w) : e->w;
	case E_TAB: { u64 o = 0; for (size_t i = 0; i < vars[e->var].dom.size(); i++) o |= e->tab[i]; return o ? __builtin_ctzll(o) : e->w; }
	case E_CONCAT: { unsigned t = tz_of(e->k[1]); return t < e->k[1]->w ? t : t + tz_of(e->k[0]); }
	case E_ZEXT: { unsigned t = tz_of(e->k[0]); return t < e->k[0]->w ? t : e->w; }
	default: return 0;
	}
}
static E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return mkConst(hi->c << lo->w | lo->c, w);
	if (hi->op == E_TAB && hi->hi <= maskw(hi->w - 1)) { // drop known-zero leading bits
		unsigned k = hi->hi ? 64 - __builtin_clzll(hi->hi) : 1;
		if (k < hi->w) return mkZext(mkConcat(mkExtract(hi, 0, k), lo), w);
	}
	int v = single_var(hi, lo);
	if (v >= 0) { u64 t[256]; for (size_t i = 0; i < vars[v].dom.size(); i++) t[i] = tabval(hi, i) << lo->w | tabval(lo, i); return mkTab(v, w, t); }
	if (isC(hi, 0)) return mkZext(lo, w);
	if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && lo->c + lo->w == hi->c) return mkExtract(hi->k[0], lo->c, w);
	// zext(x) shifted above: concat(zext(x), lo) = zext(concat(x, lo))
	if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
	if (hi->op == E_CONCAT && hi->k[1]->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[1]->k[0] == lo->k[0] && lo->c + lo->w == hi->k[1]->c)
		return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->c, lo->w + hi->k[1]->w));
	if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
	if (hi->op == E_SEXT && lo == hi->k[0] ) return raw(E_CONCAT, w, hi, lo, nullptr, 0, 0, maskw(w));
	if (lo->op == E_CONCAT && single_var(hi, lo->k[0]) >= -1) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
	// right-assoc normal form: concat(concat(a,b),c) -> concat(a,concat(b,c))
	if (hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
	// sign bits: concat(extract of sext upper part, ...) handled by extract merge
	return raw(E_CONCAT, w, hi, lo, nullptr, 0, (hi->lo << lo->w) | lo->lo, (hi->hi << lo->w) | lo->hi);
}
static E mkExtract(E a, unsigned off, unsigned w) {
	if (off == 0 && w == a->w) return a;
	if (isC(a)) return mkConst(a->c >> off, w);
	if (a->op == E_TAB) { u64 t[256]; for (size_t i = 0; i < vars[a->var].dom.size(); i++) t[i] = (a->tab[i] >> off) & maskw(w); return mkTab(a->var, w, t); }
	if (off < 64 && (a->hi >> off) == 0) return mkConst(0, w);
	switch (a->op) {
	case E_EXTRACT: return mkExtract(a->k[0], a->c + off, w);
	case E_ZEXT: {
		unsigned kw = a->k[0]->w;
		if (off >= kw) return mkConst(0, w);
		if (off + w <= kw) return mkExtract(a->k[0], off, w);
		return mkZext(mkExtract(a->k[0], off, kw - off), w);
	}
	case E_SEXT: {
		unsigned kw = a->k[0]->w;
		if (off + w <= kw) return mkExtract(a->k[0], off, w);
		if (off < kw) return mkSext(mkExtract(a->k[0], off, kw - off), w);
		return mkSext(mkExtract(a->k[0], kw - 1, 1), w);
	}
	case E_CONCAT: {
		unsigned lw = a->k[1]->w;
		if (off + w <= lw) return mkExtract(a->k[1], off, w);
		if (off >= lw) return mkExtract(a->k[0], off - lw, w);
		return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
	}
	// byte-sized pieces of a computed value stay plain extracts, so that a value stored and reloaded is the same term again
	case E_AND: case E_OR: case E_XOR:
		if (w >= 32 || w == 1 || (isC(a->k[1]) && a->op != E_XOR)) return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
		break;
	case E_ADD: case E_SUB: case E_MUL:
		if (off == 0 && (w >= 32 || w == 1)) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		break;
	case E_ITE:
		if (w >= 32 || w == 1 || (isC(a->k[1]) && isC(a->k[2]))) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
		break;
	default: break;
	}
	u64 lo = 0, hi = maskw(w);
	if (off == 0 && a->hi <= hi) { lo = a->lo; hi = a->hi; }
	else if (off + w == a->w || (a->hi >> off) <= hi) { lo = a->lo >> off; hi = a->hi >> off; }
	return raw(E_EXTRACT, w, a, nullptr, nullptr, off, lo, hi);
}
static E mkIte(E c, E a, E b) {
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (c->op == E_TAB && (isC(a) || (a->op == E_TAB && a->var == c->var)) && (isC(b) || (b->op == E_TAB && b->var == c->var))) {
		u64 t[256];
		for (size_t i = 0; i < vars[c->var].dom.size(); i++) t[i] = c->tab[i] ? tabval(a, i) : tabval(b, i);
		return mkTab(c->var, a->w, t);
	}
	if (a->w == 1) {
		if (isC(a, 1) && isC(b, 0)) return c;
		if (isC(a, 0) && isC(b, 1)) return mkNot(c);
		if (isC(a, 1)) return mkBin(E_OR, c, b);
		if (isC(b, 0)) return mkBin(E_AND, c, a);
		if (isC(a, 0)) return mkBin(E_AND, mkNot(c), b);
		if (isC(b, 1)) return mkBin(E_OR, mkNot(c), a);
	}
	if (isC(a, 1) && isC(b, 0)) return mkZext(c, a->w);
	if (isC(a, 0) && isC(b, 1)) return mkZext(mkNot(c), a->w);
	return raw(E_ITE, a->w, c, a, b, 0, std::min(a->lo, b->lo), std::max(a->hi, b->hi));
}

static E mkBin(EOp op, E a, E b) {
	unsigned w = a->w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch %s %d %d\n", eop_name[op], a->w, b->w); abort(); }
	unsigned rw = is_cmp(op) ? 1 : w;
	if (isC(a) && isC(b)) return mkConst(op_eval(op, w, a->c, b->c), rw);
	int v = single_var(a, b);
	if (v >= 0) { u64 t[256]; for (size_t i = 0; i < vars[v].dom.size(); i++) t[i] = op_eval(op, w, tabval(a, i), tabval(b, i)); return mkTab(v, rw, t); }
	u64 m = maskw(w);
	// constants to the right for commutative operators
	if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ)) {
		if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
	}
	u64 lo = 0, hi = rw == 1 ? 1 : m;
	switch (op) {
	case E_ADD:
		if (isC(b, 0)) return a;
		if (isC(b) && a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
		if (isC(b) && a->op == E_SUB && isC(a->k[0])) return mkBin(E_SUB, mkConst(a->k[0]->c + b->c, w), a->k[1]);
		if (isC(b) && a->op == E_XOR && isC(a->k[1], m)) return mkBin(E_SUB, mkConst(b->c - 1, w), a->k[0]);
		// disjoint low part
		for (int s = 0; s < 2; s++) {
			E x = s ? b : a, y = s ? a : b;
			unsigned t = tz_of(x);
			if (t && t < w && y->hi <= maskw(t)) return mkConcat(mkExtract(x, t, w - t), mkExtract(y, 0, t));
		}
		if (b->op == E_SUB && isC(b->k[0], 0)) return mkBin(E_SUB, a, b->k[1]);
		if (a->op == E_SUB && isC(a->k[0], 0)) return mkBin(E_SUB, b, a->k[1]);
		if (!isC(b) && a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
		if (!isC(b) && b->op == E_ADD && isC(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
		if (a->hi + b->hi >= a->hi && a->hi + b->hi <= m) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
		break;
	case E_SUB:
		if (a == b) return mkConst(0, w);
		if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->c, w));
		if (a->op == E_ADD && isC(a->k[1]) && !(b->op == E_ADD && isC(b->k[1]))) {
			if (a->k[0] == b) return a->k[1];
		}
		if (b->op == E_ADD && isC(b->k[1])) {
			E x = mkBin(E_SUB, a, b->k[0]);
			return mkBin(E_ADD, x, mkConst(0 - b->k[1]->c, w));
		}
		if (a->op == E_ADD && !isC(a)) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
		if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
		break;
	case E_MUL:
		if (isC(b, 0)) return b;
		if (isC(b, 1)) return a;
		if (isC(b) && (b->c & (b->c - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(b->c), w));
		if (isC(b, m)) return mkBin(E_SUB, mkConst(0, w), a);
		if (!b->hi || a->hi <= m / b->hi) { lo = a->lo * b->lo; hi = a->hi * b->hi; }
		break;
	case E_UDIV:
		if (isC(b, 1)) return a;
		if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(b->c), w));
		if (isC(b) && b->c) { lo = a->lo / b->c; hi = a->hi / b->c; if (lo == hi) return mkConst(lo, w); }
		break;
	case E_UREM:
		if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_AND, a, mkConst(b->c - 1, w));
		if (isC(b) && b->c) { if (a->hi < b->c) return a; hi = b->c - 1; }
		break;
	case E_SDIV:
		if (isC(b, 1)) return a;
		if (a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1)) && b->lo > 0) return mkBin(E_UDIV, a, b);
		break;
	case E_SREM:
		if (a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1)) && b->lo > 0) return mkBin(E_UREM, a, b);
		break;
	case E_AND:
		if (a == b) return a;
		if (isC(b, 0)) return b;
		if (isC(b, m)) return a;
		if (isC(b)) {
			u64 c = b->c;
			if ((c & (c + 1)) == 0) { // low mask
				unsigned kb = __builtin_popcountll(c);
				return mkZext(mkExtract(a, 0, kb), w);
			}
			// clear bits above the operand's range
			unsigned hb = a->hi ? 64 - __builtin_clzll(a->hi) : 0;
			if (hb < w && (c & maskw(hb)) != c) return mkBin(E_AND, a, mkConst(c & maskw(hb), w));
			unsigned tz = __builtin_ctzll(c), hb2 = 64 - __builtin_clzll(c);
			if (w > 1 && c == (maskw(hb2) & ~maskw(tz)) && tz > 0)  // contiguous field
				return mkZext(mkConcat(mkExtract(a, tz, hb2 - tz), mkConst(0, tz)), w);
		}
		if (a->op == E_AND && isC(a->k[1]) && isC(b)) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
		if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
		hi = std::min(a->hi, b->hi);
		break;
	case E_OR: case E_XOR:
		if (a == b) return op == E_OR ? a : mkConst(0, w);
		if (isC(b, 0)) return a;
		if (op == E_OR && isC(b, m)) return b;
		if (op == E_XOR && w == 1 && isC(b, 1)) return mkNot(a);
		for (int s = 0; s < 2; s++) {
			E x = s ? b : a, y = s ? a : b;
			unsigned t = tz_of(x);
			if (t && t < w && y->hi <= maskw(t)) return mkConcat(mkExtract(x, t, w - t), mkExtract(y, 0, t));
		}
		{ u64 t = a->hi | b->hi; hi = t ? (maskw(64 - __builtin_clzll(t))) : 0; if (op == E_OR) lo = std::max(a->lo, b->lo); }
		break;
	case E_SHL:
		if (isC(b, 0)) return a;
		if (isC(b)) { if (b->c >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c)); }
		break;
	case E_LSHR:
		if (isC(b, 0)) return a;
		if (isC(b)) { if (b->c >= w) return mkConst(0, w); return mkZext(mkExtract(a, b->c, w - b->c), w); }
		hi = a->hi;
		break;
	case E_ASHR:
		if (isC(b, 0)) return a;
		if (isC(b)) { unsigned s = b->c >= w ? w - 1 : b->c; return mkSext(mkExtract(a, s, w - s), w); }
		break;
	case E_EQ:
		if (a == b) return mkConst(1, 1);
		if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
		if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
		if (isC(b)) {
			if (a->op == E_ZEXT) return b->c > maskw(a->k[0]->w) ? mkConst(0, 1) : mkBin(E_EQ, a->k[0], mkConst(b->c, a->k[0]->w));
			if (a->op == E_SEXT) { u64 t = b->c & maskw(a->k[0]->w); return ((u64) sx(t, a->k[0]->w) & m) != b->c ? mkConst(0, 1) : mkBin(E_EQ, a->k[0], mkConst(t, a->k[0]->w)); }
			if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
			if (a->op == E_ITE) {
				if (isC(a->k[1]) && isC(a->k[2])) {
					bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
					if (t && !f) return a->k[0]; if (!t && f) return mkNot(a->k[0]); if (!t && !f) return mkConst(0, 1);
				}
				if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkBin(E_EQ, a->k[1], b), mkBin(E_EQ, a->k[2], b));
			}
			if (a->op == E_CONCAT) {
				unsigned lw = a->k[1]->w;
				return mkBin(E_AND, mkBin(E_EQ, a->k[0], mkConst(b->c >> lw, w - lw)), mkBin(E_EQ, a->k[1], mkConst(b->c, lw)));
			}
		}
		if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
		break;
	case E_ULT:
		if (a == b) return mkConst(0, 1);
		if (a->hi < b->lo) return mkConst(1, 1);
		if (a->lo >= b->hi) return mkConst(0, 1);
		if (isC(b, 1)) return mkBin(E_EQ, a, mkConst(0, w));
		break;
	case E_ULE:
		if (a == b) return mkConst(1, 1);
		if (a->hi <= b->lo) return mkConst(1, 1);
		if (a->lo > b->hi) return mkConst(0, 1);
		if (isC(b, 0)) return mkBin(E_EQ, a, b);
		break;
	case E_SLT: case E_SLE: {
		if (a == b) return mkConst(op == E_SLE, 1);
		u64 h = 1ull << (w - 1);
		if (a->hi < h && b->hi < h) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
		if (a->lo >= h && b->lo >= h) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
		if (a->lo >= h && b->hi < h) return mkConst(1, 1);
		if (a->hi < h && b->lo >= h) return mkConst(0, 1);
		if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
		if (a->op == E_SEXT && isC(b)) {
			unsigned kw = a->k[0]->w; i64 bv = sx(b->c, w), mn = -(1ll << (kw - 1)), mx = (1ll << (kw - 1)) - 1;
			if (bv >= mn && bv <= mx) return mkBin(op, a->k[0], mkConst(b->c, kw));
			return mkConst(bv > mx, 1);
		}
		if (b->op == E_SEXT && isC(a)) {
			unsigned kw = b->k[0]->w; i64 av = sx(a->c, w), mn = -(1ll << (kw - 1)), mx = (1ll << (kw - 1)) - 1;
			if (av >= mn && av <= mx) return mkBin(op, mkConst(a->c, kw), b->k[0]);
			return mkConst(av < mn, 1);
		}
		break;
	}
	default: break;
	}
	return raw(op, rw, a, b, nullptr, 0, lo, hi);
}

// ---------------------------------------------------------------- evaluation under an assignment
static u32 eval_mark = 0;
static u64 eval_rec(E e, const std::vector<u8> &model) {
	if (e->op == E_CONST) return e->c;
	if (e->op == E_TAB) return e->tab[(size_t) e->var < model.size() ? model[e->var] : 0];
	if (e->mark == eval_mark) return e->val;
	u64 r;
	switch (e->op) {
	case E_ITE: r = eval_rec(e->k[0], model) ? eval_rec(e->k[1], model) : eval_rec(e->k[2], model); break;
	case E_NOT: r = !eval_rec(e->k[0], model); break;
	case E_ZEXT: r = eval_rec(e->k[0], model); break;
	case E_SEXT: r = (u64) sx(eval_rec(e->k[0], model), e->k[0]->w) & maskw(e->w); break;
	case E_EXTRACT: r = (eval_rec(e->k[0], model) >> e->c) & maskw(e->w); break;
	case E_CONCAT: r = eval_rec(e->k[0], model) << e->k[1]->w | eval_rec(e->k[1], model); break;
	default: { u64 a = eval_rec(e->k[0], model), b = eval_rec(e->k[1], model); r = op_eval(e->op, e->k[0]->w, a, b); }
	}
	e->mark = eval_mark; e->val = r;
	return r;
}
static u64 evalE(E e, const std::vector<u8> &model) { if (e->op == E_CONST) return e->c; eval_mark++; return eval_rec(e, model); }

static void exprStr(E e, std::string &o, int depth = 0) {
	char b[64];
	if (e->op == E_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long) e->c, e->w); o += b; return; }
	if (e->op == E_TAB) { o += "f(" + vars[e->var].name + ")"; return; }
	if (depth > 6) { o += "..."; return; }
	o += "("; o += eop_name[e->op];
	for (int i = 0; i < 3; i++) if (e->k[i]) { o += " "; exprStr(e->k[i], o, depth + 1); }
	if (e->op == E_EXTRACT) { snprintf(b, 64, " @%d:%d", (int) e->c, e->w); o += b; }
	o += ")";
}

// ---------------------------------------------------------------- Z3
static Z3_context zc = nullptr;
static Z3_solver zs = nullptr;
static Z3_symbol zsym_timeout;
static unsigned z_timeout_ms = 10000;
static u64 st_queries = 0, st_sat = 0, st_unsat = 0, st_unknown = 0, st_cached = 0;
static double st_solver_s = 0;
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void z_err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void z_init() {
	if (zc) return;
	Z3_config cfg = Z3_mk_config();
	zc = Z3_mk_context_rc(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(zc, z_err);
	zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
	Z3_solver_inc_ref(zc, zs);
	Z3_params p = Z3_mk_params(zc);
	Z3_params_inc_ref(zc, p);
	Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), z_timeout_ms);
	Z3_solver_set_params(zc, zs, p);
	Z3_params_dec_ref(zc, p);
}
static Z3_ast zkeep(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_ast z_num(u64 v, unsigned w) { return zkeep(Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, w))); }
static Z3_ast z_var(int v) {
	if (!vars[v].z) {
		char n[32]; snprintf(n, 32, "v%d", v);
		vars[v].z = zkeep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), Z3_mk_bv_sort(zc, 8)));
	}
	return vars[v].z;
}
static Z3_ast z_bool(Z3_ast b) { return zkeep(Z3_mk_ite(zc, b, z_num(1, 1), z_num(0, 1))); }
// x in set (given as sorted byte values) as ranges
static Z3_ast z_inset(Z3_ast x, const std::vector<u8> &s) {
	std::vector<Z3_ast> or_;
	for (size_t i = 0; i < s.size();) {
		size_t j = i; while (j + 1 < s.size() && s[j + 1] == s[j] + 1) j++;
		if (s[i] == s[j]) or_.push_back(zkeep(Z3_mk_eq(zc, x, z_num(s[i], 8))));
		else { Z3_ast a[2] = {zkeep(Z3_mk_bvule(zc, z_num(s[i], 8), x)), zkeep(Z3_mk_bvule(zc, x, z_num(s[j], 8)))}; or_.push_back(zkeep(Z3_mk_and(zc, 2, a))); }
		i = j + 1;
	}
	if (or_.empty()) return zkeep(Z3_mk_false(zc));
	if (or_.size() == 1) return or_[0];
	return zkeep(Z3_mk_or(zc, or_.size(), or_.data()));
}
static Z3_ast z_tab(E e) {
	const Var &V = vars[e->var];
	Z3_ast x = z_var(e->var);
	// sort domain by value
	std::vector<std::pair<u8, u64>> t;
	for (size_t i = 0; i < V.dom.size(); i++) t.push_back({V.dom[i], e->tab[i]});
	std::sort(t.begin(), t.end());
	if (e->w == 1) {
		std::vector<u8> s; for (auto &p : t) if (p.second) s.push_back(p.first);
		return z_bool(z_inset(x, s));
	}
	// piecewise affine: value = base + k*x (mod 2^w)
	u64 m = maskw(e->w);
	Z3_ast xw = e->w == 8 ? x : e->w > 8 ? zkeep(Z3_mk_zero_ext(zc, e->w - 8, x)) : zkeep(Z3_mk_extract(zc, e->w - 1, 0, x));
	struct Seg { u8 a, b; u64 base, k; };
	std::vector<Seg> segs;
	for (size_t i = 0; i < t.size();) {
		size_t j = i; u64 k = 0;
		if (i + 1 < t.size()) {
			u64 dx = t[i + 1].first - t[i].first, dy = (t[i + 1].second - t[i].second) & m;
			if (dy == 0) k = 0; else if (dx == 1) k = dy; else k = (dy == dx) ? 1 : (u64) -1; 
			if (k != (u64) -1 || dy == ((0 - dx) & m)) {
				while (j + 1 < t.size() && ((t[j + 1].second - t[i].second) & m) == ((k * (t[j + 1].first - t[i].first)) & m)) j++;
			}
			if (j == i) k = 0;
		}
		segs.push_back({t[i].first, t[j].first, (t[i].second - k * t[i].first) & m, k & m});
		i = j + 1;
	}
	Z3_ast r = nullptr;
	for (int i = (int) segs.size() - 1; i >= 0; i--) {
		Z3_ast v;
		if (segs[i].k == 0) v = z_num(segs[i].base, e->w);
		else {
			v = xw;
			if (segs[i].k != 1) v = zkeep(Z3_mk_bvmul(zc, v, z_num(segs[i].k, e->w)));
			if (segs[i].base) v = zkeep(Z3_mk_bvadd(zc, v, z_num(segs[i].base, e->w)));
		}
		if (!r) r = v;
		else r = zkeep(Z3_mk_ite(zc, zkeep(Z3_mk_bvule(zc, x, z_num(segs[i].b, 8))), v, r));
	}
	return r;
}
static Z3_ast z_of(E e) {
	if (e->z) return e->z;
	Z3_ast a = nullptr, b = nullptr, r = nullptr;
	if (e->op == E_CONST) r = z_num(e->c, e->w);
	else if (e->op == E_TAB) r = z_tab(e);
	else {
		a = z_of(e->k[0]);
		if (e->k[1]) b = z_of(e->k[1]);
		switch (e->op) {
		case E_ADD: r = Z3_mk_bvadd(zc, a, b); break;
		case E_SUB: r = Z3_mk_bvsub(zc, a, b); break;
		case E_MUL: r = Z3_mk_bvmul(zc, a, b); break;
		case E_UDIV: r = Z3_mk_bvudiv(zc, a, b); break;
		case E_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
		case E_UREM: r = Z3_mk_bvurem(zc, a, b); break;
		case E_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
		case E_AND: r = Z3_mk_bvand(zc, a, b); break;
		case E_OR: r = Z3_mk_bvor(zc, a, b); break;
		case E_XOR: r = Z3_mk_bvxor(zc, a, b); break;
		case E_SHL: r = Z3_mk_bvshl(zc, a, b); break;
		case E_LSHR: r = Z3_mk_bvlshr(zc, a, b); break;
		case E_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
		case E_EQ: r = z_bool(zkeep(Z3_mk_eq(zc, a, b))); break;
		case E_ULT: r = z_bool(zkeep(Z3_mk_bvult(zc, a, b))); break;
		case E_ULE: r = z_bool(zkeep(Z3_mk_bvule(zc, a, b))); break;
		case E_SLT: r = z_bool(zkeep(Z3_mk_bvslt(zc, a, b))); break;
		case E_SLE: r = z_bool(zkeep(Z3_mk_bvsle(zc, a, b))); break;
		case E_NOT: r = Z3_mk_bvnot(zc, a); break;
		case E_ITE: r = Z3_mk_ite(zc, zkeep(Z3_mk_eq(zc, a, z_num(1, 1))), b, z_of(e->k[2])); break;
		case E_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->k[0]->w, a); break;
		case E_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->k[0]->w, a); break;
		case E_EXTRACT: r = Z3_mk_extract(zc, e->c + e->w - 1, e->c, a); break;
		case E_CONCAT: r = Z3_mk_concat(zc, a, b); break;
		default: abort();
		}
		zkeep(r);
	}
	e->z = r;
	return r;
}
