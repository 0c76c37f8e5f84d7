// The parts of libstdc++ that live in its shared library, for programs that use std::string, hash tables, lists, ...
#include <string>
#include <list>
#include <new>
#include <unordered_map>
#include <functional>
extern "C" { void *malloc(size_t); void free(void *); void vp_throw(int); }
template class std::allocator<char>;
template class std::basic_string<char>;
namespace std {
namespace __detail {
	static size_t vp_prime(size_t n) { if (n < 3) return n ? n : 1; for (n |= 1;; n += 2) { size_t d = 3; while (d * d <= n && n % d) d += 2; if (d * d > n) return n; } }
	size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = vp_prime(n < 13 ? 13 : n); _M_next_resize = p; return p; }
	pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
		if (elt + ins > _M_next_resize || bkt == 1) { size_t want = elt + ins, twice = bkt * 2; return { true, _M_next_bkt(want > twice ? want : twice) }; }
		return { false, 0 };
	}
	void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
	void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
	void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
		if (this == l) return;
		l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
		_List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
	}
	void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
	void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
		_List_node_base tx = x, ty = y; bool ex = x._M_next == &x, ey = y._M_next == &y;
		if (ey) x._M_next = x._M_prev = &x; else { x = ty; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
		if (ex) y._M_next = y._M_prev = &y; else { y = tx; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
	}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *s = (const unsigned char *) p; while (n--) seed = (seed ^ *s++) * 1099511628211ul; return seed; }
void __throw_invalid_argument(const char *) { vp_throw(134); for (;;); }
void __throw_out_of_range(const char *) { vp_throw(134); for (;;); }
void __throw_domain_error(const char *) { vp_throw(134); for (;;); }
void __throw_runtime_error(const char *) { vp_throw(134); for (;;); }
void __throw_bad_function_call() { vp_throw(134); for (;;); }
void __throw_bad_cast() { vp_throw(134); for (;;); }
const nothrow_t nothrow{};
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return ::operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return ::operator new[](n); }
