// sse: a symbolic executor for LLVM IR, deciding assertions with Z3.
// usage: sse PROGRAM.bc HARNESS.bc OUT.json [-t tier] [-j jobs] [-T deadline_s] [-k path_instr_limit] [-v] [-u]
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <time.h>
#include <math.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <set>
#include <signal.h>
#include <ctype.h>
#include <string.h>
#include <functional>
#include <unordered_set>
#include "expr.h"

using namespace llvm;

// ================================================================ decoded program
struct Val { u64 c; E e; };
static Expr undef_marker;
#define UNDEF_E ((E) &undef_marker)

enum Opc : u8 { O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BIN, O_ICMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_CALL, O_BR,
	O_CBR, O_SWITCH, O_RET, O_UNREACH, O_INSV, O_FP, O_FCMP, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPCONV, O_NOP, O_FSHL };

struct Edge { int target; std::vector<std::array<int, 2>> copies; };
struct Fn;
struct Inst {
	Opc op; u8 sub = 0; u16 w = 0, w2 = 0;
	int dst = -1; int n = 1;
	int a = 0, b = 0, c = 0;
	u64 imm = 0;
	std::vector<int> x; std::vector<u64> y;
	u32 line = 0;
	Fn *callee = nullptr; int hook = -1;
	// static name for diagnostics
};
struct Fn {
	std::string name; int nregs = 0; int nargslots = 0; bool vararg = false, program = false, defined = false;
	std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges;
	std::vector<std::pair<int, std::vector<std::array<int, 2>>>> joins; // join pc, phi registers there with their widths
	std::unordered_map<int, std::array<u32, 2>> mstat; // per branch: merge attempts, successes
	std::vector<u16> argw;
	int retn = 0;
	bool executed = false; u32 objid = 0; std::string file;
	int hook = -1;
};

static LLVMContext ctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fn_of;
static std::vector<Fn *> fns;
static std::vector<Fn *> fn_by_obj;
static std::unordered_map<const GlobalVariable *, u32> glob_id;
static std::vector<u8> glob_program; // per object id
static std::vector<std::string> glob_name;

#define BASE 0x10000000ull
static inline u64 mkAddr(u32 id, u64 off = 0) { return ((u64) id << 32) + BASE + off; }

// ================================================================ memory
struct Page {
	int rc; u32 n; u8 *d; E *sym; u8 *un; // un: 1 = uninitialised
};
static Page *page_new(u32 n, bool uninit) {
	Page *p = new Page; p->rc = 1; p->n = n; p->d = (u8 *) calloc(1, n ? n : 1); p->sym = nullptr; p->un = nullptr;
	if (uninit) { p->un = (u8 *) malloc(n ? n : 1); memset(p->un, 1, n); }
	return p;
}
static void page_rel(Page *p) { if (p && --p->rc == 0) { free(p->d); free(p->sym); free(p->un); delete p; } }
static Page *page_own(Page *&p) {
	if (p->rc == 1) return p;
	Page *q = new Page; q->rc = 1; q->n = p->n; q->d = (u8 *) malloc(p->n ? p->n : 1); memcpy(q->d, p->d, p->n); q->sym = nullptr; q->un = nullptr;
	if (p->sym) { q->sym = (E *) malloc(p->n * sizeof(E)); memcpy(q->sym, p->sym, p->n * sizeof(E)); }
	if (p->un) { q->un = (u8 *) malloc(p->n); memcpy(q->un, p->un, p->n); }
	p->rc--; p = q;
	return q;
}
#define PGB 12
#define PGS (1u << PGB)
enum { K_GLOBAL, K_HEAP, K_STACK, K_FUNC, K_CONST };
struct Obj {
	int rc; u64 size; u8 kind; bool freed; bool zero; // zero: lazily created pages are zero, else uninitialised
	std::vector<Page *> pg; const char *where; u32 line;
};
static void obj_rel(Obj *o) { if (o && --o->rc == 0) { for (auto p : o->pg) page_rel(p); delete o; } }
static Obj *obj_new(u64 size, u8 kind, bool zero) {
	Obj *o = new Obj; o->rc = 1; o->size = size; o->kind = kind; o->freed = false; o->zero = zero; o->where = ""; o->line = 0;
	o->pg.assign((size + PGS - 1) >> PGB, nullptr);
	return o;
}
#define CHB 5
#define CHN 32
struct Chunk { int rc; Obj *o[CHN]; };
static void chunk_rel(Chunk *c) { if (c && --c->rc == 0) { for (int i = 0; i < CHN; i++) obj_rel(c->o[i]); delete c; } }
struct Objs {
	std::vector<Chunk *> ch; u32 n = 0;
	Objs() {}
	Objs(const Objs &o) : ch(o.ch), n(o.n) { for (auto c : ch) if (c) c->rc++; }
	Objs &operator=(const Objs &o) { if (this != &o) { for (auto c : o.ch) if (c) c->rc++; for (auto c : ch) chunk_rel(c); ch = o.ch; n = o.n; } return *this; }
	~Objs() { for (auto c : ch) chunk_rel(c); }
	Obj *get(u32 id) const { return id < n ? ch[id >> CHB]->o[id & (CHN - 1)] : nullptr; }
	Obj *&slot(u32 id) {
		Chunk *&c = ch[id >> CHB];
		if (c->rc > 1) { Chunk *q = new Chunk; q->rc = 1; for (int i = 0; i < CHN; i++) { q->o[i] = c->o[i]; if (q->o[i]) q->o[i]->rc++; } c->rc--; c = q; }
		return c->o[id & (CHN - 1)];
	}
	Obj *own(u32 id) {
		Obj *&o = slot(id);
		if (o->rc > 1) { Obj *q = new Obj(*o); q->rc = 1; for (auto p : q->pg) if (p) p->rc++; o->rc--; o = q; }
		return o;
	}
	u32 add(Obj *o) {
		u32 id = n++;
		if ((id >> CHB) >= ch.size()) { Chunk *c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
		slot(id) = o;
		return id;
	}
	void set(u32 id, Obj *o) { Obj *&s = slot(id); obj_rel(s); s = o; }
};

// ================================================================ state
struct Frame { Fn *f; int pc; int base; int abase; int retdst; bool barrier; u64 vaobj; };
struct CNode { E e; std::shared_ptr<CNode> next; };
struct Art { std::string name; std::vector<Val> bytes; };
struct State {
	std::vector<Frame> fr; std::vector<Val> regs; std::vector<u32> allocas; Objs objs;
	std::vector<DomMask> dom; std::vector<u8> ent; std::vector<u8> model;
	std::shared_ptr<CNode> cons; int ncons = 0;
	std::vector<std::pair<E, u64>> eqs;
	std::vector<int> choices; std::string label;
	std::vector<std::shared_ptr<Art>> arts;
	u64 icount = 0, icount_limit = 0; u32 uninit_ctr = 0; u64 stack_bytes = 0;
	bool queued = false; bool in_run = false;
	std::shared_ptr<std::vector<std::string>> reach;
	std::string note;
};

static Objs initial_globals;
static u32 n_globals;
static std::vector<State *> work;
static bool parent_phase = true;
static std::vector<State *> cases;
static int opt_tier = 0, opt_verbose = 0, opt_uninit = 0;
static std::vector<int> opt_only;
static u64 opt_icount = 400000000ull;
static double t_start, opt_deadline = 1e18;
static int opt_maxpaths = 1 << 30;

// results
struct Viol { std::string kind, msg, where, label, inputs; };
static std::vector<Viol> viols;
static std::map<std::string, int> viol_count;
static std::map<std::string, std::array<u64, 3>> asserts; // msg -> total, solver, folded
static std::map<std::string, u64> reach_count;
static std::map<std::string, u64> incomplete;
static std::vector<std::string> samples;
static u64 st_paths = 0, st_forks = 0, st_instrs = 0, st_asserts = 0;
static std::vector<std::string> uninit_events;

enum Status { S_OK, S_END, S_KILLED };
struct PathEnd { std::string why; };      // abandon path: incomplete
struct MemErr { std::string kind; };      // memory error
struct SpecAbort {};                       // speculation abandoned: fork instead
static int spec = 0; static int spec_left = 0; static u64 st_merges = 0; static int opt_nomerge = 0;
struct Restart {};                         // state replaced / killed by infeasibility

static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}
static std::string where(State &s) {
	std::string o;
	int shown = 0;
	for (int i = (int) s.fr.size() - 1; i >= 0 && shown < 3; i--) {
		Fn *f = s.fr[i].f;
		if (!f->program && !(shown == 0 && i == (int) s.fr.size() - 1)) continue;
		char b[512]; snprintf(b, 512, "%s%s:%u", o.empty() ? "" : " < ", f->name.c_str(), s.fr[i].pc < (int) f->code.size() ? f->code[s.fr[i].pc].line : 0);
		o += b; shown++;
	}
	return o;
}
static std::string inputs_json(State &s, const std::vector<u8> &model) {
	std::string o = "{\"tier\":" + std::to_string(opt_tier) + ",\"choices\":[";
	for (size_t i = 0; i < s.choices.size(); i++) { if (i) o += ","; o += std::to_string(s.choices[i]); }
	o += "],\"label\":\"" + jesc(s.label) + "\",\"bytes\":{";
	bool first = true;
	for (size_t v = 0; v < s.dom.size() && v < vars.size(); v++) {
		if (vars[v].kind == 1) continue;
		if (dm_empty(s.dom[v])) continue;
		int idx = v < model.size() ? model[v] : 0;
		if (!first) o += ","; first = false;
		o += "\"" + jesc(vars[v].name) + "\":" + std::to_string(vars[v].dom[idx]);
	}
	o += "}}";
	return o;
}

// ---------------------------------------------------------------- variables & constraints
static bool is_uninit_var(int v) { return vars[v].kind == 1; }
static bool has_uninit(E e) { for (int v : *e->sup) if (is_uninit_var(v)) return true; return false; }

static void touch_var(State &s, int v) {
	if ((int) s.dom.size() <= v) { s.dom.resize(v + 1, DomMask{{0, 0, 0, 0}}); s.ent.resize(v + 1, 0); s.model.resize(v + 1, 0); }
	if (dm_empty(s.dom[v])) {
		size_t n = vars[v].dom.size();
		for (size_t i = 0; i < n; i++) s.dom[v].m[i >> 6] |= 1ull << (i & 63);
		s.model[v] = 0;
	}
}
static void touch_expr(State &s, E e) { for (int v : *e->sup) if ((int) s.dom.size() <= v || dm_empty(s.dom[v])) touch_var(s, v); }

static std::map<std::pair<int, std::array<u64, 4>>, Z3_ast> dom_ast;
static Z3_ast z_dom(int v, const DomMask &d) {
	std::array<u64, 4> k = {d.m[0], d.m[1], d.m[2], d.m[3]};
	auto it = dom_ast.find({v, k});
	if (it != dom_ast.end()) return it->second;
	std::vector<u8> t;
	for (size_t i = 0; i < vars[v].dom.size(); i++) if (dm_get(d, i)) t.push_back(vars[v].dom[i]);
	std::sort(t.begin(), t.end());
	Z3_ast a = z_inset(z_var(v), t);
	dom_ast[{v, k}] = a;
	return a;
}

struct QRes { int r; std::vector<std::pair<int, u8>> m; }; // r: 1 sat 0 unsat -1 unknown
static std::unordered_map<std::string, QRes> qcache;

// satisfiability of the path condition together with extra (each entry: expression of width 1 required true)
static QRes query(State &s, const std::vector<E> &extra) {
	std::vector<int> vs; std::vector<u8> in(vars.size(), 0);
	auto addv = [&](E e) { for (int v : *e->sup) if (!in[v]) { in[v] = 1; vs.push_back(v); } };
	for (E e : extra) { touch_expr(s, e); addv(e); }
	if (in.size() < vars.size()) in.resize(vars.size(), 0);
	std::vector<E> cs;
	std::vector<E> all;
	for (CNode *c = s.cons.get(); c; c = c->next.get()) all.push_back(c->e);
	std::vector<u8> used(all.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < all.size(); i++) if (!used[i]) {
			bool hit = false;
			for (int v : *all[i]->sup) if (in[v]) { hit = true; break; }
			if (hit) { used[i] = 1; cs.push_back(all[i]); addv(all[i]); ch = true; }
		}
	}
	std::sort(vs.begin(), vs.end());
	std::vector<u32> ids;
	for (E e : cs) ids.push_back(e->id);
	for (E e : extra) ids.push_back(e->id);
	std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
	std::string key((char *) ids.data(), ids.size() * 4);
	for (int v : vs) { key.append((char *) &v, 4); key.append((char *) &s.dom[v], sizeof(DomMask)); }
	auto it = qcache.find(key);
	if (it != qcache.end()) { st_cached++; return it->second; }
	z_init();
	double t0 = now_s();
	Z3_solver_reset(zc, zs);
	Z3_ast one = nullptr; if (!one) one = z_num(1, 1);
	for (int v : vs) Z3_solver_assert(zc, zs, z_dom(v, s.dom[v]));
	for (E e : cs) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, z_of(e), one));
	for (E e : extra) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, z_of(e), one));
	Z3_lbool r = Z3_solver_check(zc, zs);
	QRes q; q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
	st_queries++;
	if (r == Z3_L_TRUE) {
		st_sat++;
		Z3_model m = Z3_solver_get_model(zc, zs);
		Z3_model_inc_ref(zc, m);
		for (int v : vs) {
			Z3_ast o = nullptr; unsigned val = 0;
			Z3_model_eval(zc, m, z_var(v), true, &o);
			zkeep(o);
			Z3_get_numeral_uint(zc, o, &val);
			int idx = -1;
			for (size_t i = 0; i < vars[v].dom.size(); i++) if (vars[v].dom[i] == val && dm_get(s.dom[v], i)) { idx = i; break; }
			if (idx < 0) { fprintf(stderr, "model outside domain\n"); abort(); }
			q.m.push_back({v, (u8) idx});
		}
		Z3_model_dec_ref(zc, m);
		// the model must satisfy the query when evaluated by the engine's own semantics
		std::vector<u8> mm = s.model; if (mm.size() < vars.size()) mm.resize(vars.size(), 0);
		for (auto &p : q.m) mm[p.first] = p.second;
		for (E e : cs) if (!evalE(e, mm)) { fprintf(stderr, "encoding mismatch (constraint)\n"); abort(); }
		for (E e : extra) if (!evalE(e, mm)) { fprintf(stderr, "encoding mismatch (query)\n"); abort(); }
	} else if (r == Z3_L_FALSE) st_unsat++; else st_unknown++;
	st_solver_s += now_s() - t0;
	qcache[key] = q;
	return q;
}
static void apply_model(State &s, const QRes &q) { for (auto &p : q.m) s.model[p.first] = p.second; }

static void entangle(State &s, E e) { touch_expr(s, e); for (int v : *e->sup) s.ent[v] = 1; }
static void push_cons(State &s, E e) {
	if (isC(e)) return;
	touch_expr(s, e);
	if (e->op == E_TAB) {
		DomMask &d = s.dom[e->var];
		for (size_t i = 0; i < vars[e->var].dom.size(); i++) if (!e->tab[i]) d.m[i >> 6] &= ~(1ull << (i & 63));
		return;
	}
	if (e->op == E_AND) { push_cons(s, e->k[0]); push_cons(s, e->k[1]); return; }
	if (e->op == E_NOT && e->k[0]->op == E_OR) { push_cons(s, mkNot(e->k[0]->k[0])); push_cons(s, mkNot(e->k[0]->k[1])); return; }
	for (CNode *c = s.cons.get(); c; c = c->next.get()) if (c->e == e) return;
	s.cons = std::make_shared<CNode>(CNode{e, s.cons}); s.ncons++;
	entangle(s, e);
}
// restrict e by the current domains: variables with a single remaining value become constants
static std::unordered_map<E, E> subst_memo;
static E subst(State &s, E e, const std::vector<u8> &one) {
	if (isC(e)) return e;
	if (e->op == E_TAB) {
		if (!one[e->var]) return e;
		const DomMask &d = s.dom[e->var];
		for (size_t i = 0; i < vars[e->var].dom.size(); i++) if (dm_get(d, i)) return mkConst(e->tab[i], e->w);
		return e;
	}
	bool any = false;
	for (int v : *e->sup) if (one[v]) { any = true; break; }
	if (!any) return e;
	auto it = subst_memo.find(e);
	if (it != subst_memo.end()) return it->second;
	E a = subst(s, e->k[0], one), b = e->k[1] ? subst(s, e->k[1], one) : nullptr, c = e->k[2] ? subst(s, e->k[2], one) : nullptr, r;
	switch (e->op) {
	case E_NOT: r = mkNot(a); break;
	case E_ZEXT: r = mkZext(a, e->w); break;
	case E_SEXT: r = mkSext(a, e->w); break;
	case E_EXTRACT: r = mkExtract(a, e->c, e->w); break;
	case E_CONCAT: r = mkConcat(a, b); break;
	case E_ITE: r = mkIte(a, b, c); break;
	default: r = mkBin(e->op, a, b);
	}
	subst_memo[e] = r;
	return r;
}
static E simp(State &s, E e) {
	if (isC(e)) return e;
	if (e->op == E_TAB) {
		int v = e->var;
		if ((int) s.dom.size() <= v || dm_empty(s.dom[v])) return e;
		const DomMask &d = s.dom[v];
		bool have = false; u64 val = 0;
		for (size_t i = 0; i < vars[v].dom.size(); i++) if (dm_get(d, i)) { if (!have) { have = true; val = e->tab[i]; } else if (e->tab[i] != val) return e; }
		return mkConst(val, e->w);
	}
	std::vector<u8> one(vars.size(), 0); bool any = false;
	for (int v : *e->sup) if ((int) s.dom.size() > v && dm_count(s.dom[v]) == 1) one[v] = 1, any = true;
	if (!any) return e;
	subst_memo.clear();
	E r = subst(s, e, one);
	return r->op == E_TAB ? simp(s, r) : r;
}
// feasibility of cond==true and cond==false; returns bit0: true feasible, bit1: false feasible. Fills models.
static int decide(State &s, E cond, QRes &qt, QRes &qf) {
	touch_expr(s, cond);
	cond = simp(s, cond);
	if (isC(cond)) return cond->c ? 1 : 2;
	for (CNode *c = s.cons.get(); c; c = c->next.get()) { if (c->e == cond) return 1; }
	E nc = mkNot(cond);
	for (CNode *c = s.cons.get(); c; c = c->next.get()) { if (c->e == nc) return 2; }
	qt.r = qf.r = 2; qt.m.clear(); qf.m.clear();
	u64 mv = evalE(cond, s.model);
	if (cond->op == E_TAB && !s.ent[cond->var]) {
		int v = cond->var; const DomMask &d = s.dom[v];
		int it = -1, iff = -1;
		for (size_t i = 0; i < vars[v].dom.size(); i++) if (dm_get(d, i)) { if (cond->tab[i]) { if (it < 0) it = i; } else if (iff < 0) iff = i; }
		if (it >= 0) { qt.r = 1; if (!mv) qt.m.push_back({v, (u8) it}); }
		if (iff >= 0) { qf.r = 1; if (mv) qf.m.push_back({v, (u8) iff}); }
		return (it >= 0 ? 1 : 0) | (iff >= 0 ? 2 : 0);
	}
	int r = 0;
	if (mv) { qt.r = 1; r |= 1; qf = query(s, {nc}); if (qf.r == 1) r |= 2; else if (qf.r < 0) incomplete["solver timeout"]++; }
	else { qf.r = 1; r |= 2; qt = query(s, {cond}); if (qt.r == 1) r |= 1; else if (qt.r < 0) incomplete["solver timeout"]++; }
	return r;
}

static std::string where(State &s);
static std::map<std::string, u64> fork_sites; static int opt_fsites = 0;
static State *clone(State &s) { State *n = new State(s); st_forks++; if (opt_fsites) fork_sites[where(s)]++; return n; }

static void note_uninit(State &s, E cond, const char *what) {
	if (!opt_uninit || !has_uninit(cond)) return;
	std::string w = where(s), key = std::string("uninit ") + what + " " + w;
	if (viol_count[key]++) return;
	viols.push_back({"uninit", what, w, s.label, inputs_json(s, s.model)});
}

// fork on a condition; current state continues with the returned value
static bool branch(State &s, E cond) {
	if (isC(cond)) return cond->c;
	note_uninit(s, cond, "branch");
	QRes qt, qf;
	int r = decide(s, cond, qt, qf);
	if (r == 1) return true;
	if (r == 2) return false;
	if (r == 0) throw PathEnd{"infeasible"};
	if (spec) throw SpecAbort{};
	bool mv = evalE(cond, s.model);
	State *n = clone(s);
	// s keeps the side of its model; n gets the other
	push_cons(*n, mv ? mkNot(cond) : cond);
	apply_model(*n, mv ? qf : qt);
	push_cons(s, mv ? cond : mkNot(cond));
	work.push_back(n); // re-executes the branching instruction; the condition is now decided
	return mv;
}

// a concrete value for e, forking over its feasible values (others re-execute the current instruction)
static u64 concrete(State &s, Val v, unsigned w, int limit = 260) {
	if (!v.e) return v.c;
	E e = simp(s, v.e);
	if (isC(e)) return e->c;
	for (auto &p : s.eqs) if (p.first == e) return p.second;
	note_uninit(s, e, "value");
	touch_expr(s, e);
	u64 mv = evalE(e, s.model);
	// each alternative
	std::vector<u64> vals;
	std::vector<State *> ns;
	if (e->op == E_TAB && !s.ent[e->var]) {
		std::map<u64, int> seen;
		const DomMask &d = s.dom[e->var];
		for (size_t i = 0; i < vars[e->var].dom.size(); i++) if (dm_get(d, i)) { if (!seen.count(e->tab[i])) seen[e->tab[i]] = i; }
		for (auto &p : seen) if (p.first != mv) {
			if (spec) throw SpecAbort{};
			State *n = clone(s);
			push_cons(*n, mkBin(E_EQ, e, mkConst(p.first, e->w)));
			n->model[e->var] = p.second;
			ns.push_back(n);
		}
	} else {
		std::vector<E> ex = {mkNot(mkBin(E_EQ, e, mkConst(mv, e->w)))};
		for (;;) {
			QRes q = query(s, ex);
			if (q.r < 0) { incomplete["solver timeout"]++; break; }
			if (q.r == 0) break;
			if (spec) throw SpecAbort{};
			if ((int) ns.size() >= limit) { incomplete["concretisation limit at " + where(s)]++; break; }
			State *n = clone(s);
			apply_model(*n, q);
			u64 x = evalE(e, n->model);
			push_cons(*n, mkBin(E_EQ, e, mkConst(x, e->w)));
			n->eqs.push_back({e, x});
			ns.push_back(n);
			ex.push_back(mkNot(mkBin(E_EQ, e, mkConst(x, e->w))));
		}
	}
	for (State *n : ns) work.push_back(n);
	push_cons(s, mkBin(E_EQ, e, mkConst(mv, e->w)));
	if (e->op != E_TAB) s.eqs.push_back({e, mv});
	else if (s.ent[e->var]) s.eqs.push_back({e, mv});
	return mv;
}

static E asE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val ofE(E e) { if (isC(e)) return Val{e->c, nullptr}; return Val{0, e}; }

static Val fresh(State &s, unsigned w) {
	E r = nullptr;
	static std::vector<u8> full; if (full.empty()) for (int i = 0; i < 256; i++) full.push_back(i);
	for (unsigned b = 0; b < w; b += 8) {
		E x = mkVar("u#" + std::to_string(s.uninit_ctr++), full, 1);
		touch_expr(s, x);
		r = r ? mkConcat(x, r) : x;
	}
	if (w % 8) r = mkExtract(r, 0, w);
	return Val{0, r};
}

// ---------------------------------------------------------------- memory access
static Obj *resolve(State &s, u64 addr, u64 n, u64 &off, const char *what) {
	u32 id = addr >> 32;
	Obj *o = s.objs.get(id);
	i64 of = (i64) (addr & 0xffffffffu) - (i64) BASE;
	if (!o || id == 0) throw MemErr{std::string(what) + (addr < 0x10000 ? " through a null pointer" : " through a wild pointer")};
	if (o->freed) throw MemErr{std::string(what) + (o->kind == K_STACK ? " of a dead stack object" : " of freed memory")};
	if (o->kind == K_FUNC) throw MemErr{std::string(what) + " of a function"};
	if (of < 0 || (u64) of + n > o->size) {
		char b[128]; snprintf(b, 128, " out of bounds (%s object of %llu bytes, offset %lld, %llu bytes)", o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global",
			(unsigned long long) o->size, (long long) of, (unsigned long long) n);
		throw MemErr{what + std::string(b)};
	}
	off = of;
	return o;
}
static u32 page_size(Obj *o, size_t pi) { u64 st = (u64) pi << PGB; return std::min<u64>(PGS, o->size - st); }
static Page *rpage(State &s, Obj *o, size_t pi) { return o->pg[pi]; }
static Page *wpage(State &s, u32 id, size_t pi) {
	Obj *o = s.objs.own(id);
	Page *&p = o->pg[pi];
	if (!p) p = page_new(page_size(o, pi), !o->zero);
	return page_own(p);
}
static Val rbyte(State &s, u32 id, Obj *o, u64 off) {
	Page *p = o->pg[off >> PGB]; u32 q = off & (PGS - 1);
	if (!p) {
		if (o->zero) return Val{0, nullptr};
		p = wpage(s, id, off >> PGB);
	}
	if (p->un && p->un[q]) {
		p = wpage(s, id, off >> PGB);
		Val f = fresh(s, 8);
		if (!p->sym) p->sym = (E *) calloc(p->n, sizeof(E));
		p->sym[q] = f.e; p->un[q] = 0;
		return f;
	}
	if (p->sym && p->sym[q]) { E e = simp(s, p->sym[q]); return ofE(e); }
	return Val{p->d[q], nullptr};
}
static Val mload(State &s, u64 addr, unsigned w) {
	unsigned n = (w + 7) / 8; u64 off;
	Obj *o = resolve(s, addr, n, off, "read");
	u32 q = off & (PGS - 1); size_t pi = off >> PGB;
	Page *p = o->pg[pi];
	if (p && !p->un && !p->sym && q + n <= p->n) {
		u64 v = 0; memcpy(&v, p->d + q, n);
		return Val{v & maskw(w), nullptr};
	}
	u32 id = addr >> 32;
	Val b[8]; bool sym = false;
	for (unsigned i = 0; i < n; i++) { b[i] = rbyte(s, id, s.objs.get(id), off + i); if (b[i].e) sym = true; }
	if (!sym) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= b[i].c << (8 * i); return Val{v & maskw(w), nullptr}; }
	E r = asE(b[n - 1], 8);
	for (int i = (int) n - 2; i >= 0; i--) r = mkConcat(r, asE(b[i], 8));
	if (w % 8) r = mkExtract(r, 0, w);
	return ofE(r);
}
static void wbyte(Page *p, u32 q, Val v) {
	if (v.e) {
		if (!p->sym) p->sym = (E *) calloc(p->n, sizeof(E));
		p->sym[q] = v.e;
	} else { p->d[q] = v.c; if (p->sym) p->sym[q] = nullptr; }
	if (p->un) p->un[q] = 0;
}
static void mstore(State &s, u64 addr, unsigned w, Val v) {
	unsigned n = (w + 7) / 8; u64 off;
	Obj *o = resolve(s, addr, n, off, "write");
	if (o->kind == K_CONST) throw MemErr{"write to constant memory"};
	u32 id = addr >> 32;
	if (!v.e) {
		if ((off & (PGS - 1)) + n <= PGS) {
			Page *p = wpage(s, id, off >> PGB); u32 q = off & (PGS - 1);
			memcpy(p->d + q, &v.c, n);
			if (p->sym) for (unsigned i = 0; i < n; i++) p->sym[q + i] = nullptr;
			if (p->un) memset(p->un + q, 0, n);
		} else for (unsigned i = 0; i < n; i++) wbyte(wpage(s, id, (off + i) >> PGB), (off + i) & (PGS - 1), Val{(v.c >> (8 * i)) & 255, nullptr});
		return;
	}
	E e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
	for (unsigned i = 0; i < n; i++) wbyte(wpage(s, id, (off + i) >> PGB), (off + i) & (PGS - 1), ofE(mkExtract(e, 8 * i, 8)));
}
// raw byte copy that preserves uninitialised and symbolic contents
static void mcopy(State &s, u64 dst, u64 src, u64 n, bool may_overlap) {
	if (!n) return;
	u64 so, dof;
	Obj *o = resolve(s, src, n, so, "read"); Obj *d = resolve(s, dst, n, dof, "write");
	if (d->kind == K_CONST) throw MemErr{"write to constant memory"};
	u32 sid = src >> 32, did = dst >> 32;
	if (sid == did && !may_overlap && so != dof && so < dof + n && dof < so + n) throw MemErr{"overlapping copy"};
	std::vector<u8> bd(n), bu(n, 0); std::vector<E> bs; bool anyu = false;
	for (u64 i = 0; i < n;) {
		size_t pi = (so + i) >> PGB; u32 q = (so + i) & (PGS - 1); u64 m = std::min<u64>(n - i, PGS - q);
		Page *p = o->pg[pi];
		if (!p) { if (!o->zero) { memset(&bu[i], 1, m); anyu = true; } }
		else {
			memcpy(&bd[i], p->d + q, m);
			if (p->un) { memcpy(&bu[i], p->un + q, m); anyu = true; }
			if (p->sym) { if (bs.empty()) bs.assign(n, nullptr); memcpy(&bs[i], p->sym + q, m * sizeof(E)); }
		}
		i += m;
	}
	for (u64 i = 0; i < n;) {
		size_t pi = (dof + i) >> PGB; u32 q = (dof + i) & (PGS - 1); u64 m = std::min<u64>(n - i, PGS - q);
		Page *p = wpage(s, did, pi);
		memcpy(p->d + q, &bd[i], m);
		if (!bs.empty()) { if (!p->sym) p->sym = (E *) calloc(p->n, sizeof(E)); memcpy(p->sym + q, &bs[i], m * sizeof(E)); }
		else if (p->sym) memset(p->sym + q, 0, m * sizeof(E));
		if (anyu) { if (!p->un) p->un = (u8 *) calloc(1, p->n); memcpy(p->un + q, &bu[i], m); }
		else if (p->un) memset(p->un + q, 0, m);
		i += m;
	}
}
static void mset(State &s, u64 dst, Val v, u64 n) {
	if (!n) return;
	u64 off; Obj *o = resolve(s, dst, n, off, "write");
	if (o->kind == K_CONST) throw MemErr{"write to constant memory"};
	u32 id = dst >> 32;
	for (u64 i = 0; i < n;) {
		size_t pi = (off + i) >> PGB; u32 q = (off + i) & (PGS - 1); u64 m = std::min<u64>(n - i, PGS - q);
		Page *p = wpage(s, id, pi);
		if (v.e) { for (u64 k = 0; k < m; k++) wbyte(p, q + k, v); }
		else {
			memset(p->d + q, v.c, m);
			if (p->sym) memset(p->sym + q, 0, m * sizeof(E));
			if (p->un) memset(p->un + q, 0, m);
		}
		i += m;
	}
}
static std::string cstr(State &s, u64 addr) {
	std::string o;
	for (;;) {
		u64 off; Obj *ob = resolve(s, addr, 1, off, "read");
		Val v = rbyte(s, addr >> 32, ob, off);
		u64 c = v.e ? evalE(v.e, s.model) : v.c;
		if (!c) return o;
		o += (char) c; addr++;
		if (o.size() > 100000) return o;
	}
}
// load through a symbolic address
static bool load_sym(State &s, E ae, unsigned w, Val &out) {
	ae = simp(s, ae);
	if (isC(ae)) { out = mload(s, ae->c, w); return true; }
	for (auto &p : s.eqs) if (p.first == ae) { out = mload(s, p.second, w); return true; }
	touch_expr(s, ae);
	note_uninit(s, ae, "address");
	if (ae->op == E_TAB) {
		int v = ae->var; const DomMask d = s.dom[v];
		std::vector<u64> t(256, 0); std::vector<Val> vals(256); bool allc = true; bool bad = false; std::vector<size_t> badi;
		for (size_t i = 0; i < vars[v].dom.size(); i++) if (dm_get(d, i)) {
			try { vals[i] = mload(s, ae->tab[i], w); } catch (MemErr &) { bad = true; badi.push_back(i); }
			if (vals[i].e) allc = false;
		}
		if (bad) return false; // handled by forking on the address
		if (!allc) {
			std::vector<u64> ads; for (size_t i = 0; i < vars[v].dom.size(); i++) if (dm_get(d, i) && std::find(ads.begin(), ads.end(), (u64) ae->tab[i]) == ads.end()) ads.push_back(ae->tab[i]);
			if (ads.size() > 16) return false;
			E r = nullptr;
			for (u64 ad : ads) {
				Val x; std::vector<u64> t1(256, 0);
				for (size_t i = 0; i < vars[v].dom.size(); i++) if (dm_get(d, i) && ae->tab[i] == ad) { x = vals[i]; t1[i] = 1; }
				E xe = x.e ? x.e : mkConst(x.c, w);
				r = r ? mkIte(mkTab(v, 1, t1.data()), xe, r) : xe;
			}
			out = ofE(r); return true;
		}
		u64 last = 0; for (size_t i = 0; i < vars[v].dom.size(); i++) { if (dm_get(d, i)) last = vals[i].c; t[i] = last; }
		out = ofE(mkTab(v, w, t.data()));
		return true;
	}
	// a function of a small-range value: a chain of comparisons over the runs of equal table entries
	std::vector<std::pair<E, int>> chain; E x = ae;
	for (;;) {
		int n = 0, at = -1, kids = 0;
		for (int i = 0; i < 3; i++) if (x->k[i]) { kids++; if (!isC(x->k[i])) { n++; at = i; } }
		if (n != 1 || x->op == E_ITE) break;
		chain.push_back({x, at}); x = x->k[at];
	}
	// prefer the value of smallest range, and of these the narrowest
	{
		size_t best = chain.size() + 1; u64 br = 256;
		auto at = [&](size_t i) { return i < chain.size() ? chain[i].first : x; };
		for (size_t i = 0; i <= chain.size(); i++) { E y = at(i); if (y->w <= 32 && y->hi - y->lo <= 255 && y->hi - y->lo <= br) { br = y->hi - y->lo; best = i; } }
		if (best > chain.size()) return false;
		x = at(best); chain.resize(best);
	}
	if (chain.empty() || x->w > 32 || x->hi - x->lo > 255) return false;
	auto addr_of = [&](u64 v) {
		E r = mkConst(v, x->w);
		for (int i = (int) chain.size() - 1; i >= 0; i--) {
			E q = chain[i].first; E k0 = chain[i].second == 0 ? r : q->k[0], k1 = chain[i].second == 1 ? r : q->k[1];
			switch (q->op) {
			case E_ZEXT: r = mkZext(k0, q->w); break;
			case E_SEXT: r = mkSext(k0, q->w); break;
			case E_NOT: r = mkNot(k0); break;
			case E_EXTRACT: r = mkExtract(k0, q->c, q->w); break;
			case E_CONCAT: r = mkConcat(k0, k1); break;
			default: r = mkBin(q->op, k0, k1);
			}
		}
		return r;
	};
	std::vector<std::pair<u64, u64>> runs; // last index, value
	for (u64 i = x->lo; i <= x->hi; i++) {
		Val v;
		E ad = addr_of(i);
		if (!isC(ad)) return false;
		try { v = mload(s, ad->c, w); } catch (MemErr &) { return false; }
		if (v.e) return false;
		if (!runs.empty() && runs.back().second == v.c) runs.back().first = i; else runs.push_back({i, v.c});
	}
	if (runs.size() > 80) return false;
	E r = mkConst(runs.back().second, w);
	for (int i = (int) runs.size() - 2; i >= 0; i--) r = mkIte(mkBin(E_ULE, x, mkConst(runs[i].first, x->w)), mkConst(runs[i].second, w), r);
	out = ofE(r);
	return true;
}

// ================================================================ program loading
static std::unordered_map<const Function *, int> dummy;
static u64 const_bits(const Constant *c);
static u32 fn_objid(const Function *f) { return fn_of[f]->objid; }

static bool const_eval(const Constant *c, u64 &out) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) { out = ci->getValue().getZExtValue(); return true; }
	if (isa<ConstantPointerNull>(c)) { out = 0; return true; }
	if (auto *cf = dyn_cast<ConstantFP>(c)) { out = cf->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
	if (auto *gv = dyn_cast<GlobalVariable>(c)) { out = mkAddr(glob_id.at(gv)); return true; }
	if (auto *f = dyn_cast<Function>(c)) { out = mkAddr(fn_objid(f)); return true; }
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return const_eval(ga->getAliasee(), out);
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		u64 a, b;
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			if (!const_eval(ce->getOperand(0), a)) return false;
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
			out = a + off.getSExtValue(); return true;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return const_eval(ce->getOperand(0), out);
		case Instruction::Trunc: if (!const_eval(ce->getOperand(0), a)) return false; out = a & maskw(ce->getType()->getIntegerBitWidth()); return true;
		case Instruction::Sub: if (!const_eval(ce->getOperand(0), a) || !const_eval(ce->getOperand(1), b)) return false; out = a - b; return true;
		case Instruction::Add: if (!const_eval(ce->getOperand(0), a) || !const_eval(ce->getOperand(1), b)) return false; out = a + b; return true;
		default: return false;
		}
	}
	return false;
}
static unsigned ty_w(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static int ty_slots(Type *t) {
	if (t->isVoidTy()) return 0;
	if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : st->elements()) n += ty_slots(e); return n; }
	if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * ty_slots(at->getElementType());
	return 1;
}
static void init_bytes(const Constant *c, Obj *o, u64 off) {
	Type *t = c->getType();
	u64 sz = DL->getTypeStoreSize(t);
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	auto put = [&](u64 at, const void *p, u64 n) {
		for (u64 i = 0; i < n; i++) {
			Page *&pg = o->pg[(at + i) >> PGB];
			if (!pg) pg = page_new(page_size(o, (at + i) >> PGB), false);
			pg->d[(at + i) & (PGS - 1)] = ((const u8 *) p)[i];
		}
	};
	if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
		StringRef r = cds->getRawDataValues(); put(off, r.data(), r.size()); return;
	}
	if (isa<ConstantArray>(c)) {
		u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
		for (unsigned i = 0; i < c->getNumOperands(); i++) init_bytes(cast<Constant>(c->getOperand(i)), o, off + i * es);
		return;
	}
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < c->getNumOperands(); i++) init_bytes(cast<Constant>(c->getOperand(i)), o, off + sl->getElementOffset(i));
		return;
	}
	u64 v;
	if (!const_eval(c, v)) { errs() << "cannot evaluate initialiser " << *c << "\n"; exit(2); }
	put(off, &v, sz);
}

static Fn *unsupported_fn() { static Fn *n = nullptr; if (!n) { n = new Fn; n->name = "(unsupported instruction)"; n->defined = false; n->program = false; } return n; }
struct Decoder {
	Fn *f; const Function *F;
	static void unsup(Inst &x) { x.op = O_CALL; x.callee = unsupported_fn(); x.hook = -1; x.imm = 0; x.x.clear(); x.y.clear(); x.w = 0; x.dst = -1; }
	std::unordered_map<const Value *, int> reg;
	std::map<std::pair<u64, int>, int> cidx;
	int opd(const Value *v, int slot = 0) {
		auto it = reg.find(v);
		if (it != reg.end()) return it->second + slot;
		auto *c = dyn_cast<Constant>(v);
		if (!c) { errs() << "operand? " << *v << " in " << F->getName() << "\n"; exit(2); }
		Val val{0, nullptr};
		if (isa<UndefValue>(c)) { // includes poison
			unsigned w = ty_w(c->getType());
			if (w) { val.e = UNDEF_E; val.c = w; }
			f->consts.push_back(val);
			return -(int) f->consts.size();
		}
		if (isa<ConstantAggregateZero>(c) || (c->getType()->isAggregateType())) {
			if (auto *cs = dyn_cast<ConstantStruct>(c)) return opd(cs->getOperand(slot), 0);
			val.c = 0;
		} else if (!const_eval(c, val.c)) { errs() << "constant? " << *c << "\n"; exit(2); }
		auto key = std::make_pair(val.c, 0);
		auto k = cidx.find(key);
		if (k != cidx.end()) return k->second;
		f->consts.push_back(val);
		int id = -(int) f->consts.size();
		cidx[key] = id;
		return id;
	}
	void go();
};

static const std::map<std::string, int> &hooks();

void Decoder::go() {
	int n = 0;
	for (auto &a : F->args()) { reg[&a] = n; f->argw.push_back(ty_w(a.getType())); n += ty_slots(a.getType()); }
	f->nargslots = n;
	for (auto &bb : *F) for (auto &i : bb) { int k = ty_slots(i.getType()); if (k) { reg[&i] = n; n += k; } }
	f->nregs = n;
	f->retn = ty_slots(F->getReturnType());
	std::unordered_map<const BasicBlock *, int> start;
	// first count: one Inst per non-phi instruction
	int pc = 0;
	for (auto &bb : *F) { start[&bb] = pc; for (auto &i : bb) if (!isa<PHINode>(i)) pc++; }
	auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
		Edge e; e.target = start[to];
		for (auto &i : *to) {
			auto *ph = dyn_cast<PHINode>(&i); if (!ph) break;
			const Value *v = ph->getIncomingValueForBlock(from);
			int k = ty_slots(ph->getType());
			for (int s = 0; s < k; s++) e.copies.push_back({reg[ph] + s, opd(v, s)});
		}
		f->edges.push_back(e);
		return (int) f->edges.size() - 1;
	};
	PostDominatorTree pdt(*const_cast<Function *>(F));
	auto joinof = [&](const BasicBlock *b) -> u64 {
		auto *nd = pdt.getNode(const_cast<BasicBlock *>(b)); if (!nd || !nd->getIDom() || !nd->getIDom()->getBlock()) return ~0ull;
		const BasicBlock *j = nd->getIDom()->getBlock(); int id = f->joins.size();
		f->joins.push_back({start[j], {}});
		for (auto &i : *j) { auto *ph = dyn_cast<PHINode>(&i); if (!ph) break; for (int s = 0; s < ty_slots(ph->getType()); s++) f->joins.back().second.push_back({reg[ph] + s, (int) ty_w(ph->getType())}); }
		return id;
	};
	for (auto &bb : *F) for (auto &I : bb) {
		if (isa<PHINode>(I)) continue;
		Inst x; x.op = O_NOP;
		if (auto &dl = I.getDebugLoc()) x.line = dl.getLine();
		int k = ty_slots(I.getType());
		if (k) { x.dst = reg[&I]; x.n = k; }
		bool vec = I.getType()->isVectorTy(); for (auto &o : I.operands()) vec |= o->getType()->isVectorTy();
		if (vec) { unsup(x); f->code.push_back(std::move(x)); continue; }
		switch (I.getOpcode()) {
		case Instruction::Alloca: {
			auto &a = cast<AllocaInst>(I);
			x.op = O_ALLOCA; x.imm = DL->getTypeAllocSize(a.getAllocatedType()); x.a = opd(a.getArraySize()); x.w = ty_w(a.getArraySize()->getType());
			break;
		}
		case Instruction::Load: {
			x.op = O_LOAD; x.w = ty_w(I.getType()); x.a = opd(I.getOperand(0));
			if (!x.w) unsup(x);
			break;
		}
		case Instruction::Store: {
			x.op = O_STORE; x.w = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(1)); x.b = opd(I.getOperand(0));
			if (!x.w) {
				unsup(x);
			}
			break;
		}
		case Instruction::GetElementPtr: {
			auto &g = cast<GetElementPtrInst>(I);
			x.op = O_GEP; x.a = opd(g.getPointerOperand());
			i64 off = 0;
			for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
				Value *ix = gti.getOperand();
				if (auto *st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
				u64 sc = DL->getTypeAllocSize(gti.getIndexedType());
				if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * (i64) sc; continue; }
				x.x.push_back(opd(ix)); x.y.push_back(ty_w(ix->getType())); x.y.push_back(sc);
			}
			x.imm = off;
			break;
		}
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
		case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
			static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV},
				{Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR},
				{Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
			x.op = O_BIN; x.sub = m.at(I.getOpcode()); x.w = ty_w(I.getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1));
			break;
		}
		case Instruction::ICmp: {
			auto &c = cast<ICmpInst>(I);
			x.op = O_ICMP; x.sub = c.getPredicate(); x.w = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1));
			break;
		}
		case Instruction::FCmp: x.op = O_FCMP; x.sub = cast<FCmpInst>(I).getPredicate(); x.w = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); break;
		case Instruction::Select: if (!ty_w(I.getType())) { unsup(x); break; } x.op = O_SELECT; x.w = ty_w(I.getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); x.c = opd(I.getOperand(2)); break;
		case Instruction::ZExt: x.op = O_ZEXT; x.w = ty_w(I.getType()); x.w2 = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); break;
		case Instruction::SExt: x.op = O_SEXT; x.w = ty_w(I.getType()); x.w2 = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); break;
		case Instruction::Trunc: x.op = O_TRUNC; x.w = ty_w(I.getType()); x.w2 = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); break;
		case Instruction::PtrToInt: case Instruction::IntToPtr: {
			unsigned dw = ty_w(I.getType()), sw = ty_w(I.getOperand(0)->getType());
			x.op = dw < sw ? O_TRUNC : dw > sw ? O_ZEXT : O_MOV; x.w = dw; x.w2 = sw; x.a = opd(I.getOperand(0)); break;
		}
		case Instruction::BitCast: case Instruction::Freeze: x.op = O_MOV; x.w = x.w2 = ty_w(I.getType()); x.a = opd(I.getOperand(0)); break;
		case Instruction::ExtractValue: {
			auto &e = cast<ExtractValueInst>(I);
			if (e.getNumIndices() != 1 || !isa<StructType>(e.getAggregateOperand()->getType()) || ty_slots(e.getType()) != 1) { unsup(x); break; }
			auto *st = cast<StructType>(e.getAggregateOperand()->getType());
			int s = 0; for (unsigned i = 0; i < e.getIndices()[0]; i++) s += ty_slots(st->getElementType(i));
			x.op = O_MOV; x.w = x.w2 = ty_w(I.getType()); x.a = opd(e.getAggregateOperand(), s);
			break;
		}
		case Instruction::InsertValue: {
			auto &e = cast<InsertValueInst>(I);
			if (e.getNumIndices() != 1 || !isa<StructType>(e.getType()) || ty_slots(e.getInsertedValueOperand()->getType()) != 1) { unsup(x); break; }
			auto *st = cast<StructType>(e.getType());
			int s = 0; for (unsigned i = 0; i < e.getIndices()[0]; i++) s += ty_slots(st->getElementType(i));
			x.op = O_INSV; x.imm = s;
			for (int i = 0; i < k; i++) x.x.push_back(i == s ? opd(e.getInsertedValueOperand()) : (isa<UndefValue>(e.getAggregateOperand()) ? opd(ConstantInt::get(Type::getInt64Ty(ctx), 0)) : opd(e.getAggregateOperand(), i)));
			break;
		}
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
			x.op = O_FP; x.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3; x.w = ty_w(I.getType()); x.a = opd(I.getOperand(0)); x.b = opd(I.getOperand(1)); break;
		case Instruction::FNeg: x.op = O_FP; x.sub = 4; x.w = ty_w(I.getType()); x.a = x.b = opd(I.getOperand(0)); break;
		case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
			x.op = I.getOpcode() == Instruction::SIToFP ? O_SITOFP : I.getOpcode() == Instruction::UIToFP ? O_UITOFP : I.getOpcode() == Instruction::FPToSI ? O_FPTOSI : I.getOpcode() == Instruction::FPToUI ? O_FPTOUI : O_FPCONV;
			x.w = ty_w(I.getType()); x.w2 = ty_w(I.getOperand(0)->getType()); x.a = opd(I.getOperand(0)); break;
		case Instruction::Br: {
			auto &b = cast<BranchInst>(I);
			if (b.isConditional()) { x.op = O_CBR; x.imm = joinof(&bb); x.a = opd(b.getCondition()); x.b = edge(&bb, b.getSuccessor(0)); x.c = edge(&bb, b.getSuccessor(1)); }
			else { x.op = O_BR; x.b = edge(&bb, b.getSuccessor(0)); }
			break;
		}
		case Instruction::Switch: {
			auto &w = cast<SwitchInst>(I);
			x.op = O_SWITCH; x.imm = joinof(&bb); x.a = opd(w.getCondition()); x.w = ty_w(w.getCondition()->getType()); x.b = edge(&bb, w.getDefaultDest());
			for (auto &c : w.cases()) { x.y.push_back(c.getCaseValue()->getZExtValue()); x.x.push_back(edge(&bb, c.getCaseSuccessor())); }
			break;
		}
		case Instruction::Ret: {
			x.op = O_RET; x.dst = -1;
			if (I.getNumOperands()) { int kk = ty_slots(I.getOperand(0)->getType()); for (int i = 0; i < kk; i++) x.x.push_back(opd(I.getOperand(0), i)); }
			break;
		}
		case Instruction::Unreachable: x.op = O_UNREACH; break;
		case Instruction::Call: {
			auto &c = cast<CallInst>(I);
			x.op = O_CALL;
			if (c.isInlineAsm()) { unsup(x); break; }
			for (auto &a : c.args()) {
				if (a->getType()->isMetadataTy()) { x.op = O_NOP; break; }
				int kk = ty_slots(a->getType());
				for (int i = 0; i < kk; i++) { x.x.push_back(opd(a, i)); x.y.push_back(ty_w(a->getType())); }
			}
			if (x.op == O_NOP) break;
			const Value *cv = c.getCalledOperand()->stripPointerCasts();
			if (auto *cf = dyn_cast<Function>(cv)) {
				x.callee = fn_of[cf];
				StringRef nm = cf->getName();
				if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.va_end") || nm.starts_with("llvm.experimental")) { x.op = O_NOP; break; }
				if (nm.starts_with("llvm.fshl")) { x.op = O_FSHL; x.w = ty_w(I.getType()); x.a = x.x[0]; x.b = x.x[1]; x.c = x.x[2]; break; }
				if (nm.starts_with("llvm.expect")) { x.op = O_MOV; x.w = x.w2 = ty_w(I.getType()); x.a = x.x[0]; break; }
				x.hook = x.callee->hook;
			} else { x.a = opd(cv); x.imm = 1; }
			x.w = ty_w(I.getType());
			break;
		}
		default: unsup(x);
		}
		f->code.push_back(std::move(x));
	}
}

// ================================================================ hooks (library and intrinsics)
enum Hook { H_NONE = -1, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_NEW, H_DELETE, H_MEMCPY, H_MEMMOVE, H_MEMSET, H_STRLEN, H_STRCPY, H_STRCMP, H_STRCASECMP, H_STRNCMP,
	H_STRNCASECMP, H_STRCHR, H_MEMCMP, H_CTYPE, H_TOLOWER, H_TOUPPER, H_VASTART, H_VACOPY, H_FMULADD, H_LOG2, H_STRNCPY, H_STRDUP, H_STRNLEN,
	H_VP_BYTE, H_VP_CHOOSE, H_VP_ASSUME, H_VP_ASSERT, H_VP_ASSERT_EQ, H_VP_REACH, H_VP_CONCRETE, H_VP_ARTIFACT, H_VP_RESET, H_VP_TRY, H_VP_THROW, H_VP_GO, H_VP_TIER, H_VP_LABEL,
	H_VP_FMTF, H_VP_FAIL, H_VP_ISSYM, H_VP_DONE, H_VP_CODES, H_VP_LEAN, H_VP_PATHLIMIT, H_VP_TRAP, H_ABS, H_VP_MODEL, H_VP_ARGFORK };
static const std::map<std::string, int> &hooks() {
	static const std::map<std::string, int> m = {
		{"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"_Znwm", H_NEW}, {"_Znam", H_NEW}, {"_ZdlPv", H_DELETE}, {"_ZdaPv", H_DELETE}, {"_ZdlPvm", H_DELETE}, {"_ZdaPvm", H_DELETE},
		{"memcpy", H_MEMCPY}, {"memmove", H_MEMMOVE}, {"memset", H_MEMSET}, {"llvm.memcpy.p0.p0.i64", H_MEMCPY}, {"llvm.memmove.p0.p0.i64", H_MEMMOVE}, {"llvm.memset.p0.i64", H_MEMSET}, {"llvm.memcpy.p0.p0.i32", H_MEMCPY},
		{"strlen", H_STRLEN}, {"strcpy", H_STRCPY}, {"strcmp", H_STRCMP}, {"strcasecmp", H_STRCASECMP}, {"strncmp", H_STRNCMP}, {"strncasecmp", H_STRNCASECMP}, {"strchr", H_STRCHR}, {"memcmp", H_MEMCMP},
		{"isspace", H_CTYPE}, {"isalpha", H_CTYPE}, {"isalnum", H_CTYPE}, {"isdigit", H_CTYPE}, {"isxdigit", H_CTYPE}, {"ispunct", H_CTYPE}, {"isupper", H_CTYPE}, {"islower", H_CTYPE}, {"isprint", H_CTYPE}, {"iscntrl", H_CTYPE}, {"isblank", H_CTYPE}, {"isgraph", H_CTYPE},
		{"tolower", H_TOLOWER}, {"toupper", H_TOUPPER}, {"llvm.va_start", H_VASTART}, {"llvm.va_start.p0", H_VASTART}, {"llvm.va_copy", H_VACOPY}, {"llvm.va_copy.p0", H_VACOPY}, {"llvm.fmuladd.f64", H_FMULADD}, {"log2", H_LOG2},
		{"strncpy", H_STRNCPY}, {"strdup", H_STRDUP}, {"llvm.abs.i32", H_ABS},
		{"vp_byte", H_VP_BYTE}, {"vp_choose", H_VP_CHOOSE}, {"vp_assume", H_VP_ASSUME}, {"vp_assert", H_VP_ASSERT}, {"vp_assert_eq", H_VP_ASSERT_EQ}, {"vp_reach", H_VP_REACH}, {"vp_concrete", H_VP_CONCRETE},
		{"vp_artifact", H_VP_ARTIFACT}, {"vp_reset", H_VP_RESET}, {"vp_try", H_VP_TRY}, {"vp_throw", H_VP_THROW}, {"vp_go", H_VP_GO}, {"vp_tier", H_VP_TIER}, {"vp_label", H_VP_LABEL}, {"vp_fmtf", H_VP_FMTF},
		{"vp_fail", H_VP_FAIL}, {"vp_issym", H_VP_ISSYM}, {"vp_done", H_VP_DONE}, {"vp_codes", H_VP_CODES}, {"vp_trap", H_VP_TRAP}, {"vp_model", H_VP_MODEL} };
	return m;
}

static int ctype_eval(const std::string &n, int c) {
	if (c < 0 || c > 127) return 0;
	if (n == "isspace") return !!isspace(c); if (n == "isalpha") return !!isalpha(c); if (n == "isalnum") return !!isalnum(c); if (n == "isdigit") return !!isdigit(c);
	if (n == "isxdigit") return !!isxdigit(c); if (n == "ispunct") return !!ispunct(c); if (n == "isupper") return !!isupper(c); if (n == "islower") return !!islower(c);
	if (n == "isprint") return !!isprint(c); if (n == "iscntrl") return !!iscntrl(c); if (n == "isblank") return !!isblank(c); return !!isgraph(c);
}
// E for f(x) where x is an int expression built from one character
static E map_int(E x, const std::function<i64(i64)> &f, bool &ok) {
	ok = true;
	if (isC(x)) return mkConst((u64) f(sx(x->c, 32)), 32);
	if (x->op == E_TAB) { u64 t[256]; for (size_t i = 0; i < vars[x->var].dom.size(); i++) t[i] = (u64) f(sx(x->tab[i], 32)) & 0xffffffffu; return mkTab(x->var, 32, t); }
	// piecewise over all byte values
	if ((x->hi <= 255) || x->op == E_SEXT) {
		E r = mkConst((u64) f(-1), 32);
		// group equal differences f(c)-c / constants into ranges
		struct Seg { int a, b; bool shift; i64 v; };
		std::vector<Seg> segs;
		int lo = x->hi <= 255 ? 0 : -128, hi = x->hi <= 255 ? 255 : 127;
		for (int c = lo; c <= hi; c++) {
			i64 v = f(c);
			bool shift = (v - c == 0 || v - c == 32 || v - c == -32) && !(v == 0 || v == 1);
			i64 k = shift ? v - c : v;
			if (!segs.empty() && segs.back().shift == shift && segs.back().v == k) segs.back().b = c; else segs.push_back({c, c, shift, k});
		}
		for (size_t i = segs.size(); i-- > 0;) {
			E v = segs[i].shift ? mkBin(E_ADD, x, mkConst((u64) segs[i].v, 32)) : mkConst((u64) segs[i].v, 32);
			if (i == segs.size() - 1) r = v; else r = mkIte(mkBin(E_SLE, x, mkConst((u64) (i64) segs[i].b, 32)), v, r);
		}
		return r;
	}
	ok = false; return nullptr;
}

// length of a C string if determined (no byte could be NUL before it); -1 undetermined
static i64 det_strlen(State &s, u64 addr, i64 maxn = -1) {
	u32 id = addr >> 32;
	for (i64 n = 0;; n++) {
		if (maxn >= 0 && n >= maxn) return n;
		u64 off; Obj *o = resolve(s, addr + n, 1, off, "read");
		Page *p = o->pg[off >> PGB]; u32 q = off & (PGS - 1);
		if (p && !p->sym && !p->un) {
			u32 lim = p->n - q; if (maxn >= 0 && (i64) lim > maxn - n) lim = maxn - n;
			const void *z = memchr(p->d + q, 0, lim);
			if (z) return n + ((const u8 *) z - (p->d + q));
			n += lim - 1; continue;
		}
		Val v = rbyte(s, id, o, off);
		if (v.e) { if (v.e->lo > 0) continue;
			if (v.e->op == E_TAB) { const DomMask &d = s.dom[v.e->var]; bool z = false; for (size_t i = 0; i < vars[v.e->var].dom.size(); i++) if (dm_get(d, i) && !v.e->tab[i]) z = true; if (!z) continue; }
			return -1; }
		if (!v.c) return n;
	}
}
static u32 new_obj(State &s, u64 size, u8 kind, bool zero) {
	Obj *o = obj_new(size, kind, zero);
	if (!s.fr.empty()) {
		for (int i = (int) s.fr.size() - 1; i >= 0; i--) { o->where = s.fr[i].f->name.c_str(); o->line = s.fr[i].f->code[s.fr[i].pc].line; if (s.fr[i].f->program) break; }
	}
	return s.objs.add(o);
}

static bool cond_assert(State &s, E cond, const std::string &msg) {
	// true if the path can continue with cond assumed
	auto &a = asserts[msg]; a[0]++; st_asserts++;
	cond = simp(s, cond);
	if (isC(cond) && cond->c) { a[2]++; return true; }
	touch_expr(s, cond);
	E nc = mkNot(cond);
	bool fail = false; std::vector<u8> model = s.model;
	if (isC(cond)) { a[2]++; fail = true; }
	else {
		a[1]++;
		double tq = now_s();
		QRes q = query(s, {nc});
		if (opt_verbose && now_s() - tq > 2) { std::string d; exprStr(cond, d); fprintf(stderr, "SLOW %.1f %s: %.3000s\n", now_s() - tq, s.label.c_str(), d.c_str()); for (CNode *c = s.cons.get(); c; c = c->next.get()) { std::string d; exprStr(c->e, d); fprintf(stderr, "   C %.800s\n", d.c_str()); } }
		if (q.r < 0) incomplete["assertion undecided (solver timeout): " + msg]++;
		if (q.r == 1) { fail = true; for (auto &p : q.m) { if ((int) model.size() <= p.first) model.resize(p.first + 1); model[p.first] = p.second; } }
	}
	if (fail) {
		std::string key = "assert " + msg + "|" + s.label;
		if (viol_count[key]++ < 3) viols.push_back({"assert", msg, where(s), s.label, inputs_json(s, model)});
	}
	if (isC(cond)) return false;
	if (!fail) return true;
	QRes q = query(s, {cond});
	if (q.r != 1) return false;
	apply_model(s, q);
	push_cons(s, cond);
	return true;
}

static inline Val opv(State &s, Frame &f, int i) {
	if (i >= 0) return s.regs[f.base + i];
	Val v = f.f->consts[-i - 1];
	if (v.e == UNDEF_E) return fresh(s, v.c);
	return v;
}
static inline void setr(State &s, Frame &f, int d, Val v) { s.regs[f.base + d] = v; }

static void do_free_allocas(State &s, int abase) {
	while ((int) s.allocas.size() > abase) {
		u32 id = s.allocas.back(); s.allocas.pop_back();
		Obj *o = s.objs.own(id); o->freed = true; s.stack_bytes -= o->size;
		for (auto &p : o->pg) { page_rel(p); p = nullptr; }
	}
}
static void take_edge(State &s, Frame &f, int ei) {
	const Edge &e = f.f->edges[ei];
	size_t n = e.copies.size();
	if (n == 1) setr(s, f, e.copies[0][0], opv(s, f, e.copies[0][1]));
	else if (n) {
		Val t[64]; std::vector<Val> big; Val *tp = t;
		if (n > 64) { big.resize(n); tp = big.data(); }
		for (size_t i = 0; i < n; i++) tp[i] = opv(s, f, e.copies[i][1]);
		for (size_t i = 0; i < n; i++) setr(s, f, e.copies[i][0], tp[i]);
	}
	f.pc = e.target;
}
static void push_frame(State &s, Fn *fn, const Val *args, const u64 *argw, int nargs, int retdst, bool barrier) {
	if (!fn->defined) throw PathEnd{"call of an unmodelled function " + fn->name};
	fn->executed = true;
	if (s.fr.size() > 12000) throw MemErr{"stack exhausted (unbounded recursion)"};
	Frame nf; nf.f = fn; nf.pc = 0; nf.base = s.regs.size(); nf.abase = s.allocas.size(); nf.retdst = retdst; nf.barrier = barrier; nf.vaobj = 0;
	s.stack_bytes += 64;
	s.regs.resize(nf.base + fn->nregs, Val{0, nullptr});
	for (int i = 0; i < fn->nargslots && i < nargs; i++) s.regs[nf.base + i] = args[i];
	if (fn->vararg) {
		int extra = nargs - fn->nargslots; if (extra < 0) extra = 0;
		u32 id = s.objs.add(obj_new(extra * 8 + 8, K_STACK, false));
		s.allocas.push_back(id); s.stack_bytes += extra * 8 + 8;
		nf.vaobj = mkAddr(id);
		for (int i = 0; i < extra; i++) {
			Val v = args[fn->nargslots + i]; unsigned w = argw[fn->nargslots + i];
			mstore(s, nf.vaobj + 8 * i, w < 8 ? 8 : w, v);
		}
	}
	s.fr.push_back(nf);
}
static void pop_frame(State &s, const Val *rv, int n) {
	Frame f = s.fr.back();
	do_free_allocas(s, f.abase);
	s.regs.resize(f.base);
	s.stack_bytes -= 64;
	s.fr.pop_back();
	if (s.fr.empty()) return;
	Frame &c = s.fr.back();
	if (f.retdst >= 0) for (int i = 0; i < n; i++) setr(s, c, f.retdst + i, rv[i]);
	c.pc++;
}

static double fp_get(u64 b, unsigned w) { if (w == 64) { double d; memcpy(&d, &b, 8); return d; } float f; u32 u = b; memcpy(&f, &u, 4); return f; }
// arithmetic on values that depend on one symbolic byte is done per value of that byte
static int lift_var(std::initializer_list<Val> vs) {
	int v = -1;
	for (const Val &x : vs) if (x.e) { if (x.e->op != E_TAB || (v >= 0 && v != x.e->var)) return -1; v = x.e->var; }
	return v;
}
template <class F> static Val lift(int var, unsigned w, F f) {
	u64 t[256];
	for (size_t i = 0; i < vars[var].dom.size(); i++) t[i] = f(i) & maskw(w);
	return ofE(mkTab(var, w, t));
}
static u64 lv(const Val &x, size_t i) { return x.e ? x.e->tab[i] : x.c; }
static u64 fp_put(double d, unsigned w) { if (w == 64) { u64 b; memcpy(&b, &d, 8); return b; } float f = d; u32 u; memcpy(&u, &f, 4); return u; }

static void end_path(State &s, const char *how) {
	st_paths++;
	reach_count[std::string("path:") + how]++;
	if (s.reach) for (auto &r : *s.reach) reach_count[r]++;
}
static void sample_path(State &s) {
	if (samples.size() >= 2 && (st_paths % 37)) return;
	if (samples.size() >= 6) return;
	std::string o = "{\"inputs\":" + inputs_json(s, s.model) + ",\"artifacts\":[";
	bool first = true; bool un = false;
	for (auto &a : s.arts) {
		std::string b;
		for (auto &v : a->bytes) {
			if (v.e && has_uninit(v.e)) un = true;
			char h[4]; snprintf(h, 4, "%02x", (unsigned) (v.e ? evalE(v.e, s.model) : v.c)); b += h;
		}
		if (!first) o += ","; first = false;
		o += "[\"" + jesc(a->name) + "\",\"" + b + "\"]";
	}
	o += "]}";
	if (!un) samples.push_back(o);
}

// symbolic result (sign only) of comparing the strings from index i on; false: undetermined lengths
static bool sym_cmp(State &s, u64 p, u64 q, u64 i, u64 lim, bool ci, bool mem, E &out) {
	std::vector<std::pair<E, E>> st; // (equal, result if different)
	E last = nullptr; bool ok;
	auto fold = [](i64 c) -> i64 { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
	try {
		for (; i < lim && st.size() < 64; i++) {
			u64 off; Obj *o = resolve(s, p + i, 1, off, "read"); Val x = rbyte(s, p >> 32, o, off);
			o = resolve(s, q + i, 1, off, "read"); Val y = rbyte(s, q >> 32, o, off);
			E a = mkZext(asE(x, 8), 32), b = mkZext(asE(y, 8), 32);
			if (ci) { a = map_int(a, fold, ok); if (!ok) return false; b = map_int(b, fold, ok); if (!ok) return false; }
			E eq = simp(s, mkBin(E_EQ, a, b)), less = mkIte(mkBin(E_ULT, a, b), mkConst(0xffffffffu, 32), mkConst(1, 32));
			if (isC(eq, 0)) { last = less; break; }
			if (!isC(eq)) st.push_back({eq, less});
			if (mem) continue;
			bool xz = x.e ? !isC(simp(s, mkBin(E_EQ, x.e, mkConst(0, 8))), 0) : !x.c, yz = y.e ? !isC(simp(s, mkBin(E_EQ, y.e, mkConst(0, 8))), 0) : !y.c;
			if (xz && yz) { if ((!x.e && !x.c) || (!y.e && !y.c)) { last = mkConst(0, 32); break; } return false; }
		}
	} catch (MemErr &) { return false; }
	if (!last) { if (i < lim) return false; last = mkConst(0, 32); }
	E r = last;
	for (size_t k = st.size(); k-- > 0;) r = mkIte(st[k].first, r, st[k].second);
	out = r; return true;
}
// executes the hook; returns true if it handled the call (false: run the definition)
static bool run_hook(State &s, Frame &f, const Inst &I, const Val *a, int na, bool &advance) {
	advance = true;
	if (spec && I.hook >= H_VP_BYTE && I.hook != H_VP_TIER && I.hook != H_ABS) throw SpecAbort{};
	auto ret = [&](Val v) { if (I.dst >= 0) setr(s, f, I.dst, v); };
	auto retc = [&](u64 v) { ret(Val{v, nullptr}); };
	switch (I.hook) {
	case H_MALLOC: case H_NEW: { u64 n = concrete(s, a[0], 64); if (n > (1ull << 28)) { retc(0); return true; } retc(mkAddr(new_obj(s, n, K_HEAP, false))); return true; }
	case H_CALLOC: { u64 n = concrete(s, a[0], 64), m = concrete(s, a[1], 64); if (n * m > (1ull << 28)) { retc(0); return true; } retc(mkAddr(new_obj(s, n * m, K_HEAP, true))); return true; }
	case H_REALLOC: {
		u64 p = concrete(s, a[0], 64), n = concrete(s, a[1], 64);
		if (n > (1ull << 28)) { retc(0); return true; }
		if (!p) { retc(mkAddr(new_obj(s, n, K_HEAP, false))); return true; }
		Obj *o = s.objs.get(p >> 32);
		if (!o || o->kind != K_HEAP || (p & 0xffffffffu) != BASE) throw MemErr{"realloc of a pointer that was not allocated"};
		if (o->freed) throw MemErr{"realloc of freed memory"};
		u64 m = std::min(o->size, n);
		u32 id = new_obj(s, n, K_HEAP, false);
		mcopy(s, mkAddr(id), p, m, true);
		Obj *w = s.objs.own(p >> 32); w->freed = true; for (auto &g : w->pg) { page_rel(g); g = nullptr; }
		retc(mkAddr(id));
		return true;
	}
	case H_FREE: case H_DELETE: {
		u64 p = concrete(s, a[0], 64);
		if (!p) return true;
		Obj *o = s.objs.get(p >> 32);
		if (!o || o->kind != K_HEAP || (p & 0xffffffffu) != BASE) throw MemErr{"free of a pointer that was not allocated"};
		if (o->freed) throw MemErr{"double free"};
		Obj *w = s.objs.own(p >> 32); w->freed = true; for (auto &g : w->pg) { page_rel(g); g = nullptr; }
		return true;
	}
	case H_MEMCPY: case H_MEMMOVE: {
		u64 d = concrete(s, a[0], 64), n = concrete(s, a[2], 64);
		if (a[1].e && n && n <= 16) {   // a small structure at a symbolic index
			Val b[16]; bool ok = true;
			for (u64 i = 0; i < n && ok; i++) ok = load_sym(s, mkBin(E_ADD, a[1].e, mkConst(i, 64)), 8, b[i]);
			if (ok) { for (u64 i = 0; i < n; i++) mstore(s, d + i, 8, b[i]); retc(d); return true; }
		}
		u64 p = concrete(s, a[1], 64);
		if (n > 0x7fffffff) throw MemErr{"copy of a negative size"};
		mcopy(s, d, p, n, I.hook == H_MEMMOVE);
		retc(d); return true;
	}
	case H_MEMSET: {
		u64 d = concrete(s, a[0], 64), n = concrete(s, a[2], 64);
		if (n > 0x7fffffff) throw MemErr{"memset of a negative size"};
		Val v = a[1]; if (v.e) v = ofE(mkExtract(v.e, 0, 8)); else v.c &= 255;
		mset(s, d, v, n); retc(d); return true;
	}
	case H_STRLEN: { u64 p = concrete(s, a[0], 64); i64 n = det_strlen(s, p); if (n < 0) return false; retc(n); return true; }
	case H_STRCPY: {
		u64 d = concrete(s, a[0], 64), p = concrete(s, a[1], 64); i64 n = det_strlen(s, p); if (n < 0) return false;
		mcopy(s, d, p, n + 1, false); retc(d); return true;
	}
	case H_STRDUP: {
		u64 p = concrete(s, a[0], 64); i64 n = det_strlen(s, p); if (n < 0) return false;
		u64 d = mkAddr(new_obj(s, n + 1, K_HEAP, false)); mcopy(s, d, p, n + 1, false); retc(d); return true;
	}
	case H_STRNCPY: {
		u64 d = concrete(s, a[0], 64), p = concrete(s, a[1], 64), m = concrete(s, a[2], 64);
		if (m > 0x7fffffff) throw MemErr{"strncpy of a negative size"};
		i64 n = det_strlen(s, p, m); if (n < 0) return false;
		mcopy(s, d, p, n, false); if ((u64) n < m) mset(s, d + n, Val{0, nullptr}, m - n); retc(d); return true;
	}
	case H_STRCMP: case H_STRCASECMP: case H_STRNCMP: case H_STRNCASECMP: case H_MEMCMP: {
		u64 p = concrete(s, a[0], 64), q = concrete(s, a[1], 64); u64 lim = ~0ull;
		if (I.hook == H_STRNCMP || I.hook == H_STRNCASECMP || I.hook == H_MEMCMP) lim = concrete(s, a[2], 64);
		bool ci = I.hook == H_STRCASECMP || I.hook == H_STRNCASECMP;
		for (u64 i = 0; i < lim; i++) {
			u64 off; Obj *o = resolve(s, p + i, 1, off, "read"); Val x = rbyte(s, p >> 32, o, off);
			o = resolve(s, q + i, 1, off, "read"); Val y = rbyte(s, q >> 32, o, off);
			if (x.e || y.e) {
				if (x.e == y.e && x.e->lo > 0) continue;
				E r; if (!sym_cmp(s, p, q, i, lim, ci, I.hook == H_MEMCMP, r)) return false;
				ret(ofE(r)); return true;
			}
			int c = x.c, d = y.c; if (ci) { c = tolower(c); d = tolower(d); }
			if (c != d) { retc((u64) (u32) (c < d ? -1 : 1)); return true; }
			if (!c && I.hook != H_MEMCMP) break;
		}
		retc(0); return true;
	}
	case H_STRCHR: {
		u64 p = concrete(s, a[0], 64);
		if (a[1].e) {
			E x = simp(s, a[1].e); if (x->op != E_TAB) return false;
			i64 n = det_strlen(s, p); if (n < 0 || n > 128) return false;
			u8 str[129]; for (i64 i = 0; i <= n; i++) { Val v = mload(s, p + i, 8); if (v.e) return false; str[i] = v.c; }
			u64 t[256]; for (size_t i = 0; i < vars[x->var].dom.size(); i++) { void *f = memchr(str, (u8) x->tab[i], n + 1); t[i] = f ? p + ((u8 *) f - str) : 0; }
			ret(ofE(mkTab(x->var, 64, t))); return true;
		}
		u8 c = a[1].c;
		for (;; p++) {
			u64 off; Obj *o = resolve(s, p, 1, off, "read"); Val x = rbyte(s, p >> 32, o, off);
			if (x.e) { E eq = mkBin(E_EQ, x.e, mkConst(c, 8)); eq = simp(s, eq); E z = simp(s, mkBin(E_EQ, x.e, mkConst(0, 8))); if (isC(eq, 0) && isC(z, 0)) continue; return false; }
			if (x.c == c) { retc(p); return true; }
			if (!x.c) { retc(0); return true; }
		}
	}
	case H_CTYPE: case H_TOLOWER: case H_TOUPPER: {
		const std::string &nm = I.callee->name;
		std::function<i64(i64)> fn;
		if (I.hook == H_CTYPE) fn = [&](i64 c) -> i64 { return ctype_eval(nm, c); };
		else if (I.hook == H_TOLOWER) fn = [](i64 c) -> i64 { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
		else fn = [](i64 c) -> i64 { return c >= 'a' && c <= 'z' ? c - 32 : c; };
		if (!a[0].e) { retc((u64) fn(sx(a[0].c, 32)) & 0xffffffffu); return true; }
		E x = simp(s, a[0].e); bool ok; E r = map_int(x, fn, ok);
		if (!ok) { u64 c = concrete(s, a[0], 32); retc((u64) fn(sx(c, 32)) & 0xffffffffu); return true; }
		ret(ofE(r)); return true;
	}
	case H_ABS: {
		if (!a[0].e) { i64 v = sx(a[0].c, 32); retc((u64) (v < 0 ? -v : v) & 0xffffffffu); return true; }
		E x = a[0].e; ret(ofE(mkIte(mkBin(E_SLT, x, mkConst(0, 32)), mkBin(E_SUB, mkConst(0, 32), x), x))); return true;
	}
	case H_VASTART: {
		u64 p = concrete(s, a[0], 64);
		mstore(s, p, 32, Val{48, nullptr}); mstore(s, p + 4, 32, Val{304, nullptr}); mstore(s, p + 8, 64, Val{f.vaobj, nullptr}); mstore(s, p + 16, 64, Val{0, nullptr});
		return true;
	}
	case H_VACOPY: { u64 d = concrete(s, a[0], 64), p = concrete(s, a[1], 64); mcopy(s, d, p, 24, true); return true; }
	case H_FMULADD: {
		int lvar = lift_var({a[0], a[1], a[2]});
		if (lvar >= 0) { ret(lift(lvar, 64, [&](size_t i) { return fp_put(fp_get(lv(a[0], i), 64) * fp_get(lv(a[1], i), 64) + fp_get(lv(a[2], i), 64), 64); })); return true; } double x = fp_get(concrete(s, a[0], 64), 64), y = fp_get(concrete(s, a[1], 64), 64), z = fp_get(concrete(s, a[2], 64), 64); retc(fp_put(x * y + z, 64)); return true; }
	case H_LOG2: retc(fp_put(log2(fp_get(concrete(s, a[0], 64), 64)), 64)); return true;
	// ---- intrinsics
	case H_VP_BYTE: {
		std::string nm = cstr(s, a[0].c); u64 p = a[1].c; int n = (int) a[2].c; std::vector<u8> dom;
		for (int i = 0; i < n; i++) { Val v = mload(s, p + i, 8); dom.push_back(v.c); }
		E e = mkVar(nm, dom, 0); touch_expr(s, e);
		ret(ofE(e)); return true;
	}
	case H_VP_CHOOSE: {
		int n = (int) a[0].c;
		if (n <= 0) throw PathEnd{"vp_choose(0)"};
		int k = s.choices.size();
		int forced = (k < (int) opt_only.size()) ? opt_only[k] : -1;
		for (int i = n - 1; i >= 0; i--) {
			if (forced >= 0 && i != forced) continue;
			if (forced < 0 && i == 0) continue;
			if (forced >= 0) { s.choices.push_back(i); retc(i); return true; }
			State *c = clone(s);
			c->choices.push_back(i);
			Frame &cf = c->fr.back();
			if (I.dst >= 0) setr(*c, cf, I.dst, Val{(u64) i, nullptr});
			cf.pc++;
			work.push_back(c);
		}
		if (forced >= 0) throw PathEnd{"forced choice out of range"};
		s.choices.push_back(0); retc(0); return true;
	}
	case H_VP_ASSUME: {
		E c = a[0].e ? mkNot(mkBin(E_EQ, a[0].e, mkConst(0, a[0].e->w))) : mkConst(a[0].c != 0, 1);
		c = simp(s, c);
		if (isC(c)) { if (c->c) return true; end_path(s, "assume"); throw Restart{}; }
		touch_expr(s, c);
		QRes qt, qf; int r = decide(s, c, qt, qf);
		if (!(r & 1)) { end_path(s, "assume"); throw Restart{}; }
		if (r == 3) { if (!evalE(c, s.model)) apply_model(s, qt); push_cons(s, c); }
		return true;
	}
	case H_VP_ASSERT: {
		E c = a[0].e ? mkNot(mkBin(E_EQ, a[0].e, mkConst(0, a[0].e->w))) : mkConst(a[0].c != 0, 1);
		if (!cond_assert(s, c, cstr(s, a[1].c))) { end_path(s, "assertion failed"); sample_path(s); throw Restart{}; }
		return true;
	}
	case H_VP_ASSERT_EQ: { // (p, q, n, msg)
		u64 n = a[2].c; E c = mkConst(1, 1);
		for (u64 i = 0; i < n; i++) {
			Val x = mload(s, a[0].c + i, 8), y = mload(s, a[1].c + i, 8);
			c = mkBin(E_AND, c, mkBin(E_EQ, asE(x, 8), asE(y, 8)));
		}
		if (!cond_assert(s, c, cstr(s, a[3].c))) { end_path(s, "assertion failed"); sample_path(s); throw Restart{}; }
		return true;
	}
	case H_VP_REACH: {
		auto nr = std::make_shared<std::vector<std::string>>(); if (s.reach) *nr = *s.reach;
		std::string l = cstr(s, a[0].c); nr->push_back(l); s.reach = nr; return true;
	}
	case H_VP_CONCRETE: retc(concrete(s, a[0], 64)); return true;
	case H_VP_MODEL: { Val v = a[0]; retc(v.e ? evalE(v.e, s.model) : v.c); return true; }
	case H_VP_ISSYM: retc(a[0].e && !isC(simp(s, a[0].e))); return true;
	case H_VP_ARTIFACT: {
		auto ar = std::make_shared<Art>(); ar->name = cstr(s, a[0].c); u64 n = a[2].c;
		bool un = false;
		for (u64 i = 0; i < n; i++) { Val v = mload(s, a[1].c + i, 8); if (v.e && has_uninit(v.e)) un = true; ar->bytes.push_back(v); }
		if (un && opt_uninit) {
			for (u64 i = 0; i < n; i++) if (ar->bytes[i].e && has_uninit(ar->bytes[i].e)) {
				std::string nm = ar->name; size_t k = nm.find(':'); if (k != std::string::npos) nm = nm.substr(k + 1);
				std::string key = "uninit output " + nm + s.label;
				if (!viol_count[key]++) viols.push_back({"uninit", "output " + nm + " byte " + std::to_string(i), "output " + nm, s.label, inputs_json(s, s.model)});
				break;
			}
		}
		s.arts.push_back(ar); return true;
	}
	case H_VP_RESET: {
		for (u32 id = 0; id < n_globals; id++) if (glob_program[id]) {
			Obj *o = initial_globals.get(id); if (!o || o->kind != K_GLOBAL) continue;
			if (s.objs.get(id) == o) continue;
			o->rc++; s.objs.set(id, o);
		}
		return true;
	}
	case H_VP_TRY: { // vp_try(fn, argc, argv) -> int
		u64 p = a[0].c; u32 id = p >> 32;
		if (id >= fn_by_obj.size() || !fn_by_obj[id]) throw PathEnd{"vp_try target"};
		Val args[2] = {a[1], a[2]}; u64 ws[2] = {32, 64};
		push_frame(s, fn_by_obj[id], args, ws, 2, I.dst, true);
		advance = false; return true;
	}
	case H_VP_THROW: {
		Val rv = a[0];
		while (!s.fr.empty() && !s.fr.back().barrier) {
			Frame g = s.fr.back(); do_free_allocas(s, g.abase); s.regs.resize(g.base); s.stack_bytes -= 64; s.fr.pop_back();
		}
		if (s.fr.empty()) throw PathEnd{"vp_throw without vp_try"};
		pop_frame(s, &rv, 1);
		advance = false; return true;
	}
	case H_VP_GO:
		if (parent_phase) { f.pc++; State *c = new State(s); cases.push_back(c); throw Restart{}; }
		return true;
	case H_VP_TIER: retc(opt_tier); return true;
	case H_VP_LABEL: s.label = cstr(s, a[0].c); return true;
	case H_VP_DONE: end_path(s, "done"); sample_path(s); throw Restart{};
	case H_VP_FAIL: throw PathEnd{cstr(s, a[0].c)};
	case H_VP_TRAP: throw MemErr{cstr(s, a[0].c)};
	case H_VP_FMTF: { // (buf, prec, bits)
		char b[64]; int n = snprintf(b, 64, "%.*f", (int) a[1].c, fp_get(concrete(s, a[2], 64), 64));
		for (int i = 0; i <= n; i++) mstore(s, a[0].c + i, 8, Val{(u64) (u8) b[i], nullptr});
		retc(n); return true;
	}
	}
	return false;
}

static E icmp(unsigned pred, E a, E b) {
	switch (pred) {
	case CmpInst::ICMP_EQ: return mkBin(E_EQ, a, b);
	case CmpInst::ICMP_NE: return mkNot(mkBin(E_EQ, a, b));
	case CmpInst::ICMP_ULT: return mkBin(E_ULT, a, b);
	case CmpInst::ICMP_ULE: return mkBin(E_ULE, a, b);
	case CmpInst::ICMP_UGT: return mkBin(E_ULT, b, a);
	case CmpInst::ICMP_UGE: return mkBin(E_ULE, b, a);
	case CmpInst::ICMP_SLT: return mkBin(E_SLT, a, b);
	case CmpInst::ICMP_SLE: return mkBin(E_SLE, a, b);
	case CmpInst::ICMP_SGT: return mkBin(E_SLT, b, a);
	case CmpInst::ICMP_SGE: return mkBin(E_SLE, b, a);
	}
	abort();
}
static bool icmpc(unsigned pred, unsigned w, u64 a, u64 b) {
	switch (pred) {
	case CmpInst::ICMP_EQ: return a == b;
	case CmpInst::ICMP_NE: return a != b;
	case CmpInst::ICMP_ULT: return a < b;
	case CmpInst::ICMP_ULE: return a <= b;
	case CmpInst::ICMP_UGT: return a > b;
	case CmpInst::ICMP_UGE: return a >= b;
	case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
	case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
	case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
	case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
	}
	abort();
}

static void step(State &s);
static bool looks_ptr(const Val &v) { return !v.e && (v.c >> 32) && (v.c & 0xf0000000u) == BASE; }
// run the alternatives of a branch up to its join point and merge them into one state; false: fork instead
static bool try_merge(State &s, const std::vector<std::pair<E, int>> &alts, u64 jn) {
	if (opt_nomerge || jn == ~0ull || spec >= 4 || alts.size() > 24) return false;
	Fn *fn = s.fr.back().f; int pc0 = s.fr.back().pc, join = fn->joins[jn].first; size_t depth = s.fr.size();
	auto &stt = fn->mstat[pc0];
	if (stt[0] >= 12 && stt[1] * 8 < stt[0]) return false;
	stt[0]++;
	std::vector<std::unique_ptr<State>> rs; std::vector<E> cs;
	if (!spec) spec_left = 4000;
	u32 unew = s.uninit_ctr;
	spec++;
	try {
		for (auto &al : alts) {
			QRes q; u64 mv = evalE(al.first, s.model);
			if (!mv) { q = query(s, {al.first}); if (q.r == 0) continue; if (q.r < 0) throw SpecAbort{}; }
			std::unique_ptr<State> n(new State(s));
			push_cons(*n, al.first); if (!mv) apply_model(*n, q);
			n->uninit_ctr = unew;
			take_edge(*n, n->fr.back(), al.second);
			while (!(n->fr.size() == depth && n->fr.back().pc == join)) {
				if (n->fr.size() < depth || (n->fr.size() == depth && n->fr.back().pc == pc0) || --spec_left < 0) throw SpecAbort{};
				step(*n);
			}
			unew = n->uninit_ctr;
			rs.push_back(std::move(n)); cs.push_back(al.first);
		}
		if (rs.empty()) throw SpecAbort{};
		State &A = *rs[0]; size_t k = rs.size();
		u32 nmax = A.objs.n; size_t big = 0;
		for (size_t i = 1; i < k; i++) {
			State &B = *rs[i];
			if (B.allocas != A.allocas || B.regs.size() != A.regs.size() || B.stack_bytes != A.stack_bytes) throw SpecAbort{};
			if (B.objs.n > nmax) nmax = B.objs.n, big = i;
		}
		for (size_t i = 0; i < k; i++) for (u32 id = s.objs.n; id < rs[i]->objs.n; id++) if (k > 1 && !rs[i]->objs.get(id)->freed) throw SpecAbort{};
		State &R = *rs[big];   // becomes the merged state; its memory and registers are adjusted
		auto mergev = [&](const std::vector<Val> &v, unsigned w) -> Val {
			bool same = true; for (size_t i = 1; i < k; i++) if (v[i].e != v[0].e || (!v[0].e && v[i].c != v[0].c)) same = false;
			if (same) return v[0];
			if (w == 64) for (size_t i = 0; i < k; i++) if (looks_ptr(v[i])) throw SpecAbort{};
			E r = asE(v[k - 1], w);
			for (size_t i = k - 1; i-- > 0;) r = mkIte(cs[i], asE(v[i], w), r);
			touch_expr(s, r);
			return ofE(simp(s, r));
		};
		// registers: only the values selected at the join depend on the path taken
		Frame &rf = R.fr.back();
		std::vector<std::pair<int, Val>> setv;
		for (auto &ph : fn->joins[jn].second) {
			std::vector<Val> v; for (size_t i = 0; i < k; i++) v.push_back(rs[i]->regs[rf.base + ph[0]]);
			setv.push_back({rf.base + ph[0], mergev(v, ph[1])});
		}
		// memory
		struct Ch { u32 id; u64 off; Val v; };
		std::vector<Ch> chs; std::set<std::pair<u32, size_t>> pages; int diffs = 0;
		for (size_t i = 0; i < k; i++) if (i != big) {
			Objs &a = R.objs, &b = rs[i]->objs;
			for (size_t c = 0; c < b.ch.size() && c * CHN < s.objs.n; c++) if (a.ch[c] != b.ch[c]) for (int j = 0; j < CHN; j++) {
				u32 id = c * CHN + j; if (id >= s.objs.n) break;
				Obj *x = a.ch[c]->o[j], *y = b.ch[c]->o[j]; if (x == y) continue;
				if (!x || !y || x->freed != y->freed || x->size != y->size) throw SpecAbort{};
				for (size_t g = 0; g < x->pg.size(); g++) if (x->pg[g] != y->pg[g]) pages.insert({id, g});
			}
		}
		for (auto &pg : pages) {
			std::vector<Page *> ps; u32 n = 0;
			for (size_t i = 0; i < k; i++) { Page *p = rs[i]->objs.get(pg.first)->pg[pg.second]; if (!p) throw SpecAbort{}; ps.push_back(p); n = p->n; }
			for (u32 q = 0; q < n; q++) {
				bool diff = false;
				auto un = [&](Page *p) { return p->un && p->un[q]; }; auto sy = [&](Page *p) -> E { return p->sym ? p->sym[q] : nullptr; };
				for (size_t i = 1; i < k; i++) if (un(ps[i]) != un(ps[0]) || (!un(ps[0]) && (sy(ps[i]) != sy(ps[0]) || (!sy(ps[0]) && ps[i]->d[q] != ps[0]->d[q])))) diff = true;
				if (!diff) continue;
				if (++diffs > 48) throw SpecAbort{};
				u32 al = q & ~7u; // pointers are not merged
				for (size_t i = 0; i < k; i++) if (al + 8 <= n) { u64 w; memcpy(&w, ps[i]->d + al, 8); bool sym = false; for (int z = 0; z < 8; z++) if (ps[i]->sym && ps[i]->sym[al + z]) sym = true; if (!sym && looks_ptr(Val{w, nullptr})) throw SpecAbort{}; }
				std::vector<Val> v;
				for (size_t i = 0; i < k; i++) { if (un(ps[i])) { s.uninit_ctr = unew; v.push_back(fresh(s, 8)); unew = s.uninit_ctr; } else v.push_back(ofE(sy(ps[i]) ? sy(ps[i]) : mkConst(ps[i]->d[q], 8))); }
				chs.push_back({pg.first, (u64) pg.second * PGS + q, mergev(v, 8)});
			}
		}
		u64 ic = s.icount; for (auto &r : rs) ic = std::max(ic, r->icount);
		for (auto &c : chs) wbyte(wpage(R, c.id, c.off >> PGB), c.off & (PGS - 1), c.v);
		for (auto &v : setv) R.regs[v.first] = v.second;
		s.regs = R.regs; s.objs = R.objs; s.fr.back().pc = join; s.icount = ic; s.uninit_ctr = unew;
	} catch (SpecAbort &) { spec--; return false; }
	catch (PathEnd &) { spec--; return false; } catch (MemErr &) { spec--; return false; } catch (Restart &) { spec--; return false; }
	spec--; stt[1]++; st_merges++;
	return true;
}
static void step(State &s) {
	Frame *fp = &s.fr.back();
	const Inst &I = fp->f->code[fp->pc];
	s.icount++;
	switch (I.op) {
	case O_NOP: fp->pc++; return;
	case O_ALLOCA: {
		u64 n = concrete(s, opv(s, *fp, I.a), I.w);
		u64 sz = I.imm * n;
		s.stack_bytes += sz;
		if (s.stack_bytes > 8000000) { s.stack_bytes -= sz; throw MemErr{"stack exhausted (unbounded recursion)"}; }
		u32 id = new_obj(s, sz, K_STACK, false);
		s.allocas.push_back(id);
		setr(s, *fp, I.dst, Val{mkAddr(id), nullptr}); fp->pc++; return;
	}
	case O_LOAD: {
		Val a = opv(s, *fp, I.a); Val r;
		if (a.e) { if (!load_sym(s, a.e, I.w, r)) { u64 ad = concrete(s, a, 64); r = mload(s, ad, I.w); } }
		else r = mload(s, a.c, I.w);
		setr(s, *fp, I.dst, r); fp->pc++; return;
	}
	case O_STORE: {
		Val a = opv(s, *fp, I.a); u64 ad = concrete(s, a, 64);
		if (I.b < 0 && fp->f->consts[-I.b - 1].e == UNDEF_E) { // storing undef: mark uninitialised by leaving contents (value is created when read)
			mstore(s, ad, I.w, fresh(s, I.w)); fp->pc++; return;
		}
		mstore(s, ad, I.w, opv(s, *fp, I.b)); fp->pc++; return;
	}
	case O_GEP: {
		Val b = opv(s, *fp, I.a); bool sym = b.e; Val ix[8];
		for (size_t i = 0; i < I.x.size(); i++) { ix[i] = opv(s, *fp, I.x[i]); if (ix[i].e) sym = true; }
		if (!sym) {
			u64 v = b.c + I.imm;
			for (size_t i = 0; i < I.x.size(); i++) v += (u64) sx(ix[i].c, I.y[2 * i]) * I.y[2 * i + 1];
			setr(s, *fp, I.dst, Val{v, nullptr});
		} else {
			E v = mkBin(E_ADD, asE(b, 64), mkConst(I.imm, 64));
			for (size_t i = 0; i < I.x.size(); i++) v = mkBin(E_ADD, v, mkBin(E_MUL, mkSext(asE(ix[i], I.y[2 * i]), 64), mkConst(I.y[2 * i + 1], 64)));
			setr(s, *fp, I.dst, ofE(v));
		}
		fp->pc++; return;
	}
	case O_BIN: {
		Val a = opv(s, *fp, I.a), b = opv(s, *fp, I.b); EOp op = (EOp) I.sub;
		if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
			if (b.e) { E z = mkBin(E_EQ, b.e, mkConst(0, I.w)); if (branch(s, z)) throw MemErr{"integer division by zero"}; }
			else if (!b.c) throw MemErr{"integer division by zero"};
			if (op == E_SDIV || op == E_SREM) {
				E ov = mkBin(E_AND, mkBin(E_EQ, asE(a, I.w), mkConst(1ull << (I.w - 1), I.w)), mkBin(E_EQ, asE(b, I.w), mkConst(maskw(I.w), I.w)));
				if (branch(s, ov)) throw MemErr{"signed division overflow"};
			}
			fp = &s.fr.back();
		}
		if (op == E_SHL || op == E_LSHR || op == E_ASHR) { // machine semantics: the count is taken modulo the width
			if (b.e) b = ofE(mkBin(E_AND, b.e, mkConst(I.w - 1, I.w))); else b.c &= I.w - 1;
		}
		if (!a.e && !b.e) setr(s, *fp, I.dst, Val{op_eval(op, I.w, a.c, b.c), nullptr});
		else setr(s, *fp, I.dst, ofE(mkBin(op, asE(a, I.w), asE(b, I.w))));
		fp->pc++; return;
	}
	case O_FSHL: {
		u64 c = concrete(s, opv(s, *fp, I.c), I.w) % I.w; Val a = opv(s, *fp, I.a), b = opv(s, *fp, I.b);
		E hi = asE(a, I.w), lo = asE(b, I.w);
		setr(s, *fp, I.dst, c ? ofE(mkBin(E_OR, mkBin(E_SHL, hi, mkConst(c, I.w)), mkBin(E_LSHR, lo, mkConst(I.w - c, I.w)))) : a);
		fp->pc++; return;
	}
	case O_ICMP: {
		Val a = opv(s, *fp, I.a), b = opv(s, *fp, I.b);
		if (!a.e && !b.e) setr(s, *fp, I.dst, Val{icmpc(I.sub, I.w, a.c, b.c), nullptr});
		else setr(s, *fp, I.dst, ofE(icmp(I.sub, asE(a, I.w), asE(b, I.w))));
		fp->pc++; return;
	}
	case O_SELECT: {
		Val c = opv(s, *fp, I.a), a = opv(s, *fp, I.b), b = opv(s, *fp, I.c);
		if (c.e) { c = ofE(simp(s, c.e)); }
		if (!c.e) setr(s, *fp, I.dst, c.c ? a : b);
		else { note_uninit(s, c.e, "branch"); setr(s, *fp, I.dst, ofE(mkIte(c.e, asE(a, I.w), asE(b, I.w)))); }
		fp->pc++; return;
	}
	case O_ZEXT: { Val a = opv(s, *fp, I.a); setr(s, *fp, I.dst, a.e ? ofE(mkZext(a.e, I.w)) : a); fp->pc++; return; }
	case O_SEXT: { Val a = opv(s, *fp, I.a); setr(s, *fp, I.dst, a.e ? ofE(mkSext(a.e, I.w)) : Val{(u64) sx(a.c, I.w2) & maskw(I.w), nullptr}); fp->pc++; return; }
	case O_TRUNC: { Val a = opv(s, *fp, I.a); setr(s, *fp, I.dst, a.e ? ofE(mkExtract(a.e, 0, I.w)) : Val{a.c & maskw(I.w), nullptr}); fp->pc++; return; }
	case O_MOV: setr(s, *fp, I.dst, opv(s, *fp, I.a)); fp->pc++; return;
	case O_INSV: { for (int i = 0; i < I.n; i++) setr(s, *fp, I.dst + i, opv(s, *fp, I.x[i])); fp->pc++; return; }
	case O_FP: {
		Val va = opv(s, *fp, I.a), vb = opv(s, *fp, I.b); int lvar = lift_var({va, vb});
		auto fop = [&](u64 p, u64 q) { double a = fp_get(p, I.w), b = fp_get(q, I.w); return fp_put(I.sub == 0 ? a + b : I.sub == 1 ? a - b : I.sub == 2 ? a * b : I.sub == 3 ? a / b : -a, I.w); };
		if (lvar >= 0) { setr(s, *fp, I.dst, lift(lvar, I.w, [&](size_t i) { return fop(lv(va, i), lv(vb, i)); })); fp->pc++; return; }
		double a = fp_get(concrete(s, opv(s, *fp, I.a), I.w), I.w), b = fp_get(concrete(s, opv(s, *fp, I.b), I.w), I.w);
		double r = I.sub == 0 ? a + b : I.sub == 1 ? a - b : I.sub == 2 ? a * b : I.sub == 3 ? a / b : -a;
		setr(s, *fp, I.dst, Val{fp_put(r, I.w), nullptr}); fp->pc++; return;
	}
	case O_FCMP: {
		Val va = opv(s, *fp, I.a), vb = opv(s, *fp, I.b); int lvar = lift_var({va, vb});
		auto fcmp = [&](u64 p, u64 q) -> u64 {
		double a = fp_get(p, I.w), b = fp_get(q, I.w);
		bool un = std::isnan(a) || std::isnan(b), r;
		switch (I.sub) {
		case CmpInst::FCMP_OEQ: r = a == b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break;
		case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break;
		case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break;
		case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break;
		default: r = un;
		}
		return r; };
		if (lvar >= 0) { setr(s, *fp, I.dst, lift(lvar, 1, [&](size_t i) { return fcmp(lv(va, i), lv(vb, i)); })); fp->pc++; return; }
		u64 r = fcmp(concrete(s, va, I.w), concrete(s, vb, I.w));
		setr(s, *fp, I.dst, Val{r, nullptr}); fp->pc++; return;
	}
	case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI: case O_FPCONV: {
		Val va = opv(s, *fp, I.a); int lvar = lift_var({va});
		auto cv = [&](u64 p) -> u64 {
			if (I.op == O_SITOFP) return fp_put((double) sx(p, I.w2), I.w);
			if (I.op == O_UITOFP) return fp_put((double) p, I.w);
			double d = fp_get(p, I.w2);
			return I.op == O_FPCONV ? fp_put(d, I.w) : I.op == O_FPTOSI ? (u64) (i64) d & maskw(I.w) : (d < 0 ? (u64) (i64) d : (u64) d) & maskw(I.w);
		};
		if (lvar >= 0) setr(s, *fp, I.dst, lift(lvar, I.w, [&](size_t i) { return cv(lv(va, i)); }));
		else setr(s, *fp, I.dst, Val{cv(concrete(s, va, I.w2)), nullptr});
		fp->pc++; return;
	}
	case O_BR: take_edge(s, *fp, I.b); return;
	case O_CBR: {
		Val c = opv(s, *fp, I.a);
		bool t;
		if (c.e) {
			E e = simp(s, c.e);
			if (!isC(e) && !opt_nomerge) {
				note_uninit(s, e, "branch");
				QRes qt, qf; int r = decide(s, e, qt, qf);
				if (r == 3 && I.imm != ~0ull) { E ne = mkNot(e); if (try_merge(s, {{e, I.b}, {ne, I.c}}, I.imm)) return; }
				if (r == 1 || r == 2) { take_edge(s, s.fr.back(), r == 1 ? I.b : I.c); return; }
			}
			t = branch(s, e);
		} else t = c.c & 1;
		fp = &s.fr.back();
		take_edge(s, *fp, t ? I.b : I.c); return;
	}
	case O_SWITCH: {
		Val v = opv(s, *fp, I.a);
		if (v.e) v = ofE(simp(s, v.e));
		if (!v.e) {
			for (size_t i = 0; i < I.y.size(); i++) if (I.y[i] == v.c) { take_edge(s, *fp, I.x[i]); return; }
			take_edge(s, *fp, I.b); return;
		}
		if (I.imm != ~0ull && !opt_nomerge) {
			std::map<int, E> by; E other = mkConst(1, 1);
			for (size_t i = 0; i < I.y.size(); i++) {
				E c = simp(s, mkBin(E_EQ, v.e, mkConst(I.y[i], I.w))); if (isC(c, 0)) continue;
				int key = I.x[i]; for (auto &b : by) if (fp->f->edges[b.first].target == fp->f->edges[key].target && fp->f->edges[b.first].copies == fp->f->edges[key].copies) key = b.first;
				by[key] = by.count(key) ? mkBin(E_OR, by[key], c) : c; other = mkBin(E_AND, other, mkNot(c));
			}
			other = simp(s, other);
			std::vector<std::pair<E, int>> alts; for (auto &b : by) alts.push_back({b.second, b.first});
			if (!isC(other, 0)) alts.push_back({other, I.b});
			if (alts.size() > 1) { note_uninit(s, v.e, "branch"); if (try_merge(s, alts, I.imm)) return; }
		}
		for (size_t i = 0; i < I.y.size(); i++) {
			E c = mkBin(E_EQ, v.e, mkConst(I.y[i], I.w));
			if (branch(s, simp(s, c))) { take_edge(s, s.fr.back(), I.x[i]); return; }
		}
		take_edge(s, s.fr.back(), I.b); return;
	}
	case O_RET: {
		Val rv[8]; int n = I.x.size();
		for (int i = 0; i < n; i++) rv[i] = opv(s, *fp, I.x[i]);
		pop_frame(s, rv, n); return;
	}
	case O_UNREACH: throw MemErr{"unreachable code executed"};
	case O_CALL: {
		Val a[32]; int na = I.x.size();
		if (na > 32) throw PathEnd{"too many arguments"};
		for (int i = 0; i < na; i++) a[i] = opv(s, *fp, I.x[i]);
		Fn *fn = I.callee;
		if (!fn) {
			u64 p = concrete(s, opv(s, *fp, I.a), 64); u32 id = p >> 32;
			if (id >= fn_by_obj.size() || !fn_by_obj[id] || (p & 0xffffffffu) != BASE) throw MemErr{"call through a wild function pointer"};
			fn = fn_by_obj[id];
			if (fn->hook >= 0) { Inst J = I; J.callee = fn; J.hook = fn->hook; bool adv; if (run_hook(s, s.fr.back(), J, a, na, adv)) { if (adv) s.fr.back().pc++; return; } }
		} else if (I.hook >= 0) {
			bool adv;
			if (run_hook(s, *fp, I, a, na, adv)) { if (adv) s.fr.back().pc++; return; }
		}
		push_frame(s, fn, a, I.y.data(), na, I.dst, false);
		return;
	}
	}
}

static void report_mem(State &s, const std::string &kind) {
	std::string w = where(s), key = "mem " + kind + w;
	end_path(s, "memory error");
	std::string k2 = kind.substr(0, kind.find(" (")); key = "mem " + k2 + w;
	if (viol_count[key]++ >= 2) return;
	viols.push_back({"mem", kind, w, s.label, inputs_json(s, s.model)});
}

static void explore(bool parent) {
	while (!work.empty()) {
		if (now_s() - t_start > opt_deadline) { incomplete["time budget exhausted (pending states)"] += work.size(); for (auto w : work) delete w; work.clear(); break; }
		if ((int) st_paths > opt_maxpaths) { incomplete["path budget exhausted (pending states)"] += work.size(); for (auto w : work) delete w; work.clear(); break; }
		State *s = work.back(); work.pop_back();
		u64 i0 = s->icount;
		try {
			u64 check = 0;
			while (!s->fr.empty()) {
				step(*s);
				if ((++check & 0xfffff) == 0) {
					if (s->icount > opt_icount) throw MemErr{"no termination within the instruction budget"};
					if (now_s() - t_start > opt_deadline) throw PathEnd{"time budget exhausted (running path)"};
				}
			}
			end_path(*s, "returned"); sample_path(*s);
		} catch (Restart &) {
		} catch (PathEnd &p) { if (p.why != "infeasible") { if (viol_count["inc " + p.why]++ < 3 && incomplete.size() < 200) viols.push_back({"incomplete", p.why, where(*s), s->label, inputs_json(*s, s->model)}); incomplete[p.why]++; if (opt_verbose) fprintf(stderr, "incomplete: %s at %s\n", p.why.c_str(), where(*s).c_str()); } end_path(*s, "incomplete");
		} catch (MemErr &m) { report_mem(*s, m.kind); }
		st_instrs += s->icount - i0;
		delete s;
	}
}

static std::string result_json() {
	std::string o = "{";
	char b[256];
	snprintf(b, 256, "\"paths\":%llu,\"forks\":%llu,\"instrs\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"asserts_total\":%llu,\"exprs\":%llu",
		(unsigned long long) st_paths, (unsigned long long) st_forks, (unsigned long long) st_instrs, (unsigned long long) st_queries, (unsigned long long) st_sat, (unsigned long long) st_unsat,
		(unsigned long long) st_unknown, (unsigned long long) st_cached, st_solver_s, (unsigned long long) st_asserts, (unsigned long long) n_exprs);
	o += b;
	o += ",\"asserts\":{"; bool first = true;
	for (auto &p : asserts) { if (!first) o += ","; first = false; snprintf(b, 256, ":[%llu,%llu,%llu]", (unsigned long long) p.second[0], (unsigned long long) p.second[1], (unsigned long long) p.second[2]); o += "\"" + jesc(p.first) + "\"" + b; }
	o += "},\"reach\":{"; first = true;
	for (auto &p : reach_count) { if (!first) o += ","; first = false; o += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
	o += "},\"incomplete\":{"; first = true;
	for (auto &p : incomplete) { if (!first) o += ","; first = false; o += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
	o += "},\"violations\":["; first = true;
	for (auto &v : viols) { if (!first) o += ","; first = false; o += "{\"kind\":\"" + v.kind + "\",\"msg\":\"" + jesc(v.msg) + "\",\"where\":\"" + jesc(v.where) + "\",\"label\":\"" + jesc(v.label) + "\",\"inputs\":" + v.inputs + "}"; }
	o += "],\"functions\":["; first = true;
	for (auto f : fns) if (f->executed && f->program) { if (!first) o += ","; first = false; o += "\"" + jesc(f->name) + "\""; }
	o += "],\"samples\":["; first = true;
	for (auto &v : samples) { if (!first) o += ","; first = false; o += v; }
	o += "]}";
	return o;
}

// intrinsics in terms of plain instructions
static void lower_intrinsics(Module &m) {
	for (auto &f : m) for (auto &bb : f) for (auto it = bb.begin(); it != bb.end();) {
		Instruction &I = *it++;
		auto *c = dyn_cast<IntrinsicInst>(&I); if (!c) continue;
		IRBuilder<> b(c); Value *r = nullptr; Type *t = c->getType(); auto A = [&](int i) { return c->getArgOperand(i); };
		if (t->isVectorTy()) continue;
		auto minmax = [&](CmpInst::Predicate p) { return b.CreateSelect(b.CreateICmp(p, A(0), A(1)), A(0), A(1)); };
		switch (c->getIntrinsicID()) {
		case Intrinsic::umin: r = minmax(CmpInst::ICMP_ULT); break;
		case Intrinsic::umax: r = minmax(CmpInst::ICMP_UGT); break;
		case Intrinsic::smin: r = minmax(CmpInst::ICMP_SLT); break;
		case Intrinsic::smax: r = minmax(CmpInst::ICMP_SGT); break;
		case Intrinsic::abs: if (t->isIntegerTy(32)) continue; r = b.CreateSelect(b.CreateICmpSLT(A(0), ConstantInt::get(t, 0)), b.CreateNeg(A(0)), A(0)); break;
		case Intrinsic::usub_sat: r = b.CreateSelect(b.CreateICmpULT(A(0), A(1)), ConstantInt::get(t, 0), b.CreateSub(A(0), A(1))); break;
		case Intrinsic::uadd_sat: { Value *x = b.CreateAdd(A(0), A(1)); r = b.CreateSelect(b.CreateICmpULT(x, A(0)), ConstantInt::getAllOnesValue(t), x); break; }
		case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
		case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
			unsigned id = c->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
			unsigned w = A(0)->getType()->getIntegerBitWidth(); Value *v, *o;
			if (w <= 32) {
				Type *W = b.getIntNTy(2 * w); Value *x = sg ? b.CreateSExt(A(0), W) : b.CreateZExt(A(0), W), *y = sg ? b.CreateSExt(A(1), W) : b.CreateZExt(A(1), W);
				Value *q = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? b.CreateAdd(x, y) : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? b.CreateSub(x, y) : b.CreateMul(x, y);
				v = b.CreateTrunc(q, A(0)->getType()); o = b.CreateICmpNE(sg ? b.CreateSExt(v, W) : b.CreateZExt(v, W), q);
			} else if (id == Intrinsic::uadd_with_overflow) { v = b.CreateAdd(A(0), A(1)); o = b.CreateICmpULT(v, A(0)); }
			else if (id == Intrinsic::usub_with_overflow) { v = b.CreateSub(A(0), A(1)); o = b.CreateICmpULT(A(0), A(1)); }
			else if (id == Intrinsic::umul_with_overflow) {
				v = b.CreateMul(A(0), A(1)); Value *z = b.CreateICmpEQ(A(1), ConstantInt::get(A(1)->getType(), 0));
				o = b.CreateSelect(z, b.getFalse(), b.CreateICmpUGT(A(0), b.CreateUDiv(ConstantInt::getAllOnesValue(A(0)->getType()), b.CreateSelect(z, ConstantInt::get(A(1)->getType(), 1), A(1)))));
			} else continue;
			r = b.CreateInsertValue(b.CreateInsertValue(PoisonValue::get(t), v, 0), o, 1); break;
		}
		case Intrinsic::bswap: {
			unsigned w = t->getIntegerBitWidth(); r = ConstantInt::get(t, 0);
			for (unsigned i = 0; i < w; i += 8) r = b.CreateOr(r, b.CreateShl(b.CreateAnd(b.CreateLShr(A(0), i), ConstantInt::get(t, 255)), w - 8 - i));
			break;
		}
		case Intrinsic::ctpop: { unsigned w = t->getIntegerBitWidth(); r = ConstantInt::get(t, 0); for (unsigned i = 0; i < w; i++) r = b.CreateAdd(r, b.CreateAnd(b.CreateLShr(A(0), i), ConstantInt::get(t, 1))); break; }
		case Intrinsic::ctlz: case Intrinsic::cttz: {
			unsigned w = t->getIntegerBitWidth(); r = ConstantInt::get(t, w); bool lz = c->getIntrinsicID() == Intrinsic::ctlz;
			for (unsigned k = 0; k < w; k++) { unsigned i = lz ? k : w - 1 - k; r = b.CreateSelect(b.CreateICmpNE(b.CreateAnd(A(0), b.CreateShl(ConstantInt::get(t, 1), ConstantInt::get(t, i))), ConstantInt::get(t, 0)), ConstantInt::get(t, lz ? w - 1 - i : i), r); }
			break;
		}
		case Intrinsic::is_constant: r = b.getFalse(); break;
		case Intrinsic::objectsize: r = ConstantInt::getAllOnesValue(t); break;
		case Intrinsic::stacksave: r = ConstantPointerNull::get(cast<PointerType>(t)); break;
		case Intrinsic::stackrestore: c->eraseFromParent(); continue;
		case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: r = A(0); break;
		default: continue;
		}
		c->replaceAllUsesWith(r); c->eraseFromParent();
	}
}
// vp_ctors() runs the program's static constructors
static void make_ctors(Module &m) {
	std::vector<std::pair<u64, Function *>> v;
	if (auto *g = m.getGlobalVariable("llvm.global_ctors")) {
		if (auto *a = g->hasInitializer() ? dyn_cast<ConstantArray>(g->getInitializer()) : nullptr)
			for (auto &o : a->operands()) { auto *st = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
		g->eraseFromParent();
	}
	if (auto *g = m.getGlobalVariable("llvm.global_dtors")) g->eraseFromParent();
	std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
	auto *ty = FunctionType::get(Type::getVoidTy(ctx), false);
	auto *f = Function::Create(ty, GlobalValue::ExternalLinkage, "", m);
	if (auto *d = m.getFunction("vp_ctors")) { d->replaceAllUsesWith(f); d->eraseFromParent(); }
	f->setName("vp_ctors");
	IRBuilder<> b(BasicBlock::Create(ctx, "", f)); for (auto &p : v) b.CreateCall(p.second); b.CreateRetVoid();
}

int main(int argc, char **argv) {
	if (argc < 4) { fprintf(stderr, "usage: sse PROGRAM.bc HARNESS.bc OUT.json\n"); return 2; }
	int jobs = 8; double case_limit = 1e18;
	for (int i = 4; i < argc; i++) {
		std::string a = argv[i];
		if (a == "-t") opt_tier = atoi(argv[++i]); else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-T") opt_deadline = atof(argv[++i]);
		else if (a == "-k") opt_icount = strtoull(argv[++i], 0, 10); else if (a == "-v") opt_verbose = 1; else if (a == "-u") opt_uninit = 1;
		else if (a == "-c") { char *p = argv[++i]; for (char *t = strtok(p, ","); t; t = strtok(nullptr, ",")) opt_only.push_back(atoi(t)); }
		else if (a == "-F") opt_fsites = 1; else if (a == "-M") opt_nomerge = 1;
		else if (a == "-C") case_limit = atof(argv[++i]); else if (a == "-P") opt_maxpaths = atoi(argv[++i]);
		else if (a == "-Z") z_timeout_ms = atoi(argv[++i]);
	}
	t_start = now_s();
	SMDiagnostic err;
	mod = parseIRFile(argv[1], err, ctx);
	if (!mod) { err.print("sse", errs()); return 2; }
	std::set<const GlobalValue *> prog;
	for (auto &g : mod->globals()) prog.insert(&g);
	for (auto &f : *mod) if (!f.isDeclaration()) prog.insert(&f);
	auto h = parseIRFile(argv[2], err, ctx);
	if (!h) { err.print("sse", errs()); return 2; }
	if (Linker::linkModules(*mod, std::move(h))) { fprintf(stderr, "link failed\n"); return 2; }
	make_ctors(*mod); lower_intrinsics(*mod);
	DL = &mod->getDataLayout();
	// objects: globals then functions
	initial_globals.add(obj_new(0, K_CONST, true)); glob_program.push_back(0); glob_name.push_back("null");
	for (auto &g : mod->globals()) {
		u64 sz = g.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(g.getValueType()) : 0;
		u32 id = initial_globals.add(obj_new(sz, g.isConstant() ? K_CONST : K_GLOBAL, true));
		glob_id[&g] = id; glob_program.push_back(prog.count(&g)); glob_name.push_back(g.getName().str());
	}
	for (auto &f : *mod) {
		Fn *n = new Fn; n->name = f.getName().str(); n->defined = !f.isDeclaration(); n->program = prog.count(&f); n->vararg = f.isVarArg();
		auto it = hooks().find(n->name); if (it != hooks().end() && !n->program) n->hook = it->second;
		n->objid = initial_globals.add(obj_new(0, K_FUNC, true)); glob_program.push_back(0); glob_name.push_back(n->name);
		fn_by_obj.resize(n->objid + 1, nullptr); fn_by_obj[n->objid] = n;
		fn_of[&f] = n; fns.push_back(n);
	}
	n_globals = initial_globals.n;
	for (auto &g : mod->globals()) if (g.hasInitializer()) init_bytes(g.getInitializer(), initial_globals.own(glob_id[&g]), 0);
	for (auto &f : *mod) if (!f.isDeclaration()) { Decoder d; d.f = fn_of[&f]; d.F = &f; d.go(); }
	Function *hm = mod->getFunction("harness");
	if (!hm) { fprintf(stderr, "no harness()\n"); return 2; }
	State *s0 = new State; s0->objs = initial_globals;
	push_frame(*s0, fn_of[hm], nullptr, nullptr, 0, -1, false);
	work.push_back(s0);
	explore(true);
	parent_phase = false;
	int nc = cases.size();
	if (opt_verbose) fprintf(stderr, "%d cases, prelude %.2fs\n", nc, now_s() - t_start);
	std::string base = std::string(argv[3]) + ".case";
	FILE *of = fopen(argv[3], "w");
	fprintf(of, "{\"cases\":%d,\"parent\":%s,\"results\":[\n", nc, result_json().c_str());
	bool first = true;
	std::map<pid_t, std::pair<int, double>> running;
	int next = 0, done = 0; int crashed = 0, skipped = 0;
	auto collect = [&](pid_t p, int st) {
		auto it = running.find(p); if (it == running.end()) return;
		int c = it->second.first; running.erase(it); done++;
		std::string fn = base + std::to_string(c);
		FILE *in = fopen(fn.c_str(), "r"); std::string d;
		if (in) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, in)) > 0) d.append(b, n); fclose(in); unlink(fn.c_str()); }
		std::string chs; for (int q : cases[c]->choices) chs += std::to_string(q) + ",";
		if (!WIFEXITED(st) || WEXITSTATUS(st) || d.empty()) { crashed++; d = "{\"paths\":0,\"crashed\":1,\"incomplete\":{\"engine worker ended abnormally (case " + jesc(cases[c]->label) + " " + chs + ")\":1}}"; }
		fprintf(of, "%s%s", first ? "" : ",\n", d.c_str()); first = false;
	};
	while (done + skipped < nc) {
		while ((int) running.size() < jobs && next < nc) {
			if (now_s() - t_start > opt_deadline) { skipped += nc - next; next = nc; break; }
			int c = next++;
			fflush(of);
			pid_t p = fork();
			if (p == 0) {
				struct rlimit rl = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl);
				double now = now_s();
				if (case_limit < 1e17) opt_deadline = std::min(opt_deadline, now - t_start + case_limit);
				st_paths = st_forks = st_instrs = 0; asserts.clear(); reach_count.clear(); incomplete.clear(); viols.clear(); viol_count.clear(); samples.clear(); st_asserts = 0; n_exprs = 0;
				st_queries = st_sat = st_unsat = st_unknown = st_cached = 0; st_solver_s = 0;
				work.clear(); work.push_back(new State(*cases[c]));
				explore(false);
				if (opt_fsites) { for (auto &kv : fork_sites) fprintf(stderr, "FORK %llu %s\n", (unsigned long long) kv.second, kv.first.c_str()); }
				std::string r = result_json();
				char tb[64]; snprintf(tb, 64, ",\"case\":%d,\"wall\":%.2f", c, now_s() - now);
				r.insert(r.size() - 1, std::string(tb) + ",\"label\":\"" + jesc(cases[c]->label) + " " + [&] { std::string q; for (int x : cases[c]->choices) q += std::to_string(x) + ","; return q; }() + "\"");
				std::string fn = base + std::to_string(c);
				FILE *out = fopen(fn.c_str(), "w"); fwrite(r.data(), 1, r.size(), out); fclose(out);
				_exit(0);
			}
			running[p] = {c, now_s()};
		}
		if (running.empty()) continue;
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) { collect(p, st); continue; }
		// a worker stuck inside the solver past its time is ended
		double now = now_s();
		for (auto &r : running) if (now - t_start > opt_deadline + 15 || (case_limit < 1e17 && now - r.second.second > case_limit + 15)) kill(r.first, SIGKILL);
		usleep(300);
	}
	fprintf(of, "],\"skipped\":%d,\"crashed\":%d,\"wall\":%.2f}\n", skipped, crashed, now_s() - t_start);
	fclose(of);
	return 0;
}
