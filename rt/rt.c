// Environment model used by the symbolic executor: file system, stdio, string and C++ runtime functions.
#include "vp.h"
typedef unsigned long size_t;
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
int vp_try(void *fn, int argc, char **argv); void vp_throw(int code); void vp_reset(void);
void vp_artifact(const char *name, const void *p, int n); int vp_fmtf(char *buf, int prec, u64 bits); void vp_trap(const char *);
int isspace(int); int tolower(int); int toupper(int);
extern int main(int, char **);

void *vp_alloc(int n) { return calloc(1, n ? n : 1); }
void vp_copy(void *d, const void *s, int n) { memcpy(d, s, n); }

// ---------------------------------------------------------------- strings
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int) (u8) *a - (int) (u8) *b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int) (u8) *a - (int) (u8) *b : 0; }
int strcasecmp(const char *a, const char *b) {
	for (;;) { int x = tolower((u8) *a), y = tolower((u8) *b); if (x != y) return x - y; if (!x) return 0; a++; b++; }
}
int strncasecmp(const char *a, const char *b, size_t n) {
	for (; n; n--) { int x = tolower((u8) *a), y = tolower((u8) *b); if (x != y) return x - y; if (!x) return 0; a++; b++; }
	return 0;
}
int memcmp(const void *a, const void *b, size_t n) { const u8 *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return (int) *p - (int) *q; return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char) c) r = (char *) s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (; ; h++) { if (!strncmp(h, n, k)) return (char *) h; if (!*h) return 0; } }
void *memchr(const void *p, int c, size_t n) { const u8 *s = p; for (; n; n--, s++) if (*s == (u8) c) return (void *) s; return 0; }
size_t strnlen(const char *s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n]) { const char *p = set; while (*p && *p != s[n]) p++; if (!*p) break; n++; } return n; }
static const u8 *rt_setmap(const char *set, u8 *m) { memset(m, 0, 256); while (*set) m[(u8) *set++] = 1; return m; }
size_t strcspn(const char *s, const char *set) { u8 m[256]; rt_setmap(set, m); m[0] = 1; size_t n = 0; while (!m[(u8) s[n]]) n++; return n; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *) s : 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t n) { size_t k = strnlen(s, n); char *p = malloc(k + 1); memcpy(p, s, k); p[k] = 0; return p; }
char *strtok_r(char *s, const char *d, char **sv) {
	if (!s) s = *sv;
	if (!s) return 0;
	s += strspn(s, d);
	if (!*s) { *sv = 0; return 0; }
	char *e = s + strcspn(s, d);
	if (*e) { *e = 0; *sv = e + 1; } else *sv = 0;
	return s;
}
char *strsep(char **p, const char *d) { char *s = *p; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *p = e + 1; } else *p = 0; return s; }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *stpncpy(char *d, const char *s, size_t n) { size_t k = strnlen(s, n); strncpy(d, s, n); return d + k; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *) d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { u8 *p = d; const u8 *q = s; while (n--) if ((*p++ = *q++) == (u8) c) return p; return 0; }
void *memrchr(const void *p, int c, size_t n) { const u8 *s = p; while (n--) if (s[n] == (u8) c) return (void *) (s + n); return 0; }
void *rawmemchr(const void *p, int c) { const u8 *s = p; while (*s != (u8) c) s++; return (void *) s; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char) c) s++; return (char *) s; }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void bzero(void *p, size_t n) { memset(p, 0, n); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
char *strcasestr(const char *h, const char *n) { size_t k = strlen(n); for (; ; h++) { if (!strncasecmp(h, n, k)) return (char *) h; if (!*h) return 0; } }
void *memmem(const void *h, size_t a, const void *n, size_t b) { const u8 *p = h; for (; a >= b; a--, p++) if (!memcmp(p, n, b)) return (void *) p; return 0; }
int isascii(int c) { return (unsigned) c < 128; }
int toascii(int c) { return c & 127; }
int ffs(int x) { for (int i = 0; i < 32; i++) if (x >> i & 1) return i + 1; return 0; }
i64 labs(i64 x) { return x < 0 ? -x : x; }
i64 llabs(i64 x) { return x < 0 ? -x : x; }
void qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) {   // stable, like the C library's merge sort
	u8 *p = b, *t = malloc(w ? w : 1);
	for (size_t i = 1; i < n; i++) { size_t j = i; memcpy(t, p + i * w, w); while (j && f(p + (j - 1) * w, t) > 0) { memcpy(p + j * w, p + (j - 1) * w, w); j--; } memcpy(p + j * w, t, w); }
	free(t);
}
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*f)(const void *, const void *)) {
	const u8 *p = b; size_t lo = 0, hi = n;
	while (lo < hi) { size_t m = (lo + hi) / 2; int r = f(k, p + m * w); if (!r) return (void *) (p + m * w); if (r < 0) hi = m; else lo = m + 1; }
	return 0;
}
static char *rt_tok;
char *strtok(char *s, const char *d) {
	if (!s) s = rt_tok;
	if (!s) return 0;
	s += strspn(s, d);
	if (!*s) { rt_tok = 0; return 0; }
	char *e = s + strcspn(s, d);
	if (*e) { *e = 0; rt_tok = e + 1; } else rt_tok = 0;
	return s;
}
static const u8 rt_digval[256] = {
#define X8 255,255,255,255,255,255,255,255
	X8,X8,X8,X8,X8,X8, 0,1,2,3,4,5,6,7, 8,9,255,255,255,255,255,255,
	255,10,11,12,13,14,15,16, 17,18,19,20,21,22,23,24, 25,26,27,28,29,30,31,32, 33,34,35,255,255,255,255,255,
	255,10,11,12,13,14,15,16, 17,18,19,20,21,22,23,24, 25,26,27,28,29,30,31,32, 33,34,35,255,255,255,255,255,
	X8,X8,X8,X8,X8,X8,X8,X8,X8,X8,X8,X8,X8,X8,X8,X8 };
static int rt_errno;
int *__errno_location(void) { return &rt_errno; }
// C23 semantics as in glibc >= 2.38 (0x prefix for base 16, 0b prefix for base 2)
i64 __isoc23_strtoll(const char *s, char **end, int base) {
	const char *p = s; int neg = 0; u64 acc = 0; int any = 0, over = 0;
	while (isspace((u8) *p)) p++;
	if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 16 || base == 0) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && rt_digval[(u8) p[2]] < 16) { p += 2; base = 16; }
	else if ((base == 2 || base == 0) && *p == '0' && (p[1] == 'b' || p[1] == 'B') && rt_digval[(u8) p[2]] < 2) { p += 2; base = 2; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	for (;;) {
		u32 d = rt_digval[(u8) *p];
		if (d >= (u32) base) break;
		if (acc > (0x7fffffffffffffffull - d) / (u32) base) over = 1;
		acc = acc * (u32) base + d; any = 1; p++;
	}
	if (end) *end = (char *) (any ? p : s);
	if (over) { rt_errno = 34; return neg ? (i64) 0x8000000000000000ull : 0x7fffffffffffffffll; }
	return neg ? -(i64) acc : (i64) acc;
}
i64 strtoll(const char *s, char **e, int b) { return __isoc23_strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return __isoc23_strtoll(s, e, b); }
long strtol(const char *s, char **e, int b) { return __isoc23_strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return __isoc23_strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return __isoc23_strtoll(s, e, b); }
int atoi(const char *s) { return (int) __isoc23_strtoll(s, 0, 10); }
int abs(int v) { return v < 0 ? -v : v; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { vp_throw(134); }
void abort(void) { vp_throw(134); }

// ---------------------------------------------------------------- files
struct rt_ent { char *name; u8 *data; int len, cap; int exists, written; };
#define RT_MAX 96
static struct rt_ent rt_files[RT_MAX]; static int rt_nfiles; static int rt_runs;
typedef struct rt_FILE { struct rt_ent *e; int pos; int mode; int open; int eof; int base, err; } FILE; // mode 1 read 2 write
static struct rt_ent rt_so;
static FILE rt_stdout = {&rt_so, 0, 2, 1, 0}, rt_stderr = {&rt_so, 0, 2, 1, 0}, rt_stdin = {0, 0, 1, 1, 1};
FILE *stdout = &rt_stdout, *stderr = &rt_stderr, *stdin = &rt_stdin;

static int rt_same(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static struct rt_ent *rt_find(const char *name, int create) {
	if (name[0] == '/' && name[1] == 'w' && name[2] == '/') name += 3;
	while (name[0] == '.' && name[1] == '/') { name += 2; while (*name == '/') name++; }
	for (int i = 0; name[i]; i++) if (!vp_issym(name[i]) && name[i] == '/' && (!vp_issym(name[i + 1]) && (name[i + 1] == '/' || (name[i + 1] == '.' && name[i + 2] == '/')))) {
		char *q = strdup(name); int n = 0;   // "//" and "/./"
		for (int k = 0; name[k]; k++) { while (name[k] == '/' && (name[k + 1] == '/' || (name[k + 1] == '.' && name[k + 2] == '/'))) k += name[k + 1] == '/' ? 1 : 2; q[n++] = name[k]; }
		q[n] = 0; name = q; break;
	}
	for (int i = 0; i < rt_nfiles; i++) if (rt_same(rt_files[i].name, name)) { if (!rt_files[i].exists && !create) return 0; return &rt_files[i]; }
	if (!create) return 0;
	if (rt_nfiles == RT_MAX) vp_fail("too many files");
	struct rt_ent *e = &rt_files[rt_nfiles++];
	e->name = strdup(name); e->data = malloc(256); e->cap = 256; e->len = 0; e->exists = 0; e->written = 0;
	return e;
}
static void rt_grow(struct rt_ent *e, int need) {
	if (need <= e->cap) return;
	int c = need * 2; u8 *p = malloc(c); memcpy(p, e->data, e->len); e->data = p; e->cap = c;
}
// the capacity of files: as in the C library, data is written when a buffer is full or the file is closed, and a failure shows then
static u32 rt_limit; static int rt_limited;
void vp_limit(u32 k) { rt_limit = k; rt_limited = 1; }
static int rt_lost(FILE *f) { if (!rt_limited || f->mode != 2 || f->e == &rt_so) return 0; return (u32) f->pos > rt_limit; }
static void rt_put(FILE *f, const void *p, int n) {
	struct rt_ent *e = f->e;
	if (f->e != &rt_so && f->open != 1) vp_trap("write to a closed file");
	if (n <= 0) return;
	if (e == &rt_so) f->pos = e->len;
	rt_grow(e, f->pos + n);
	memcpy(e->data + f->pos, p, n);
	f->pos += n; if (f->pos > e->len) e->len = f->pos;
	if (rt_limited && f->pos - f->base > 4096) { f->base += (f->pos - f->base - 1) / 4096 * 4096; if (!f->err && (u32) f->base > rt_limit && f->mode == 2 && e != &rt_so) f->err = 1; }
}
// a directory: the working directory or one that a file lies in
static struct rt_ent rt_direct;
static int rt_isdir(const char *name) {
	for (int i = 0; name[i]; i++) if (vp_issym(name[i])) return 0;
	char *q = strdup(name); int n = 0, L = (int) strlen(q);
	while (L > 1 && (q[L - 1] == '/' || (q[L - 1] == '.' && q[L - 2] == '/'))) q[--L] = 0;
	if (rt_same(q, "/w") || rt_same(q, ".")) return 1;
	char *s = q; if (s[0] == '/' && s[1] == 'w' && s[2] == '/') s += 3; while (s[0] == '.' && s[1] == '/') s += 2;
	n = (int) strlen(s); if (!n) return 0;
	for (int i = 0; i < rt_nfiles; i++) { int k = 0; const char *f = rt_files[i].name; if (!rt_files[i].exists) continue; while (k < n && !vp_issym(f[k]) && f[k] == s[k]) k++; if (k == n && f[k] == '/') return 1; }
	return 0;
}
FILE *fopen(const char *name, const char *mode) {
	if (!name) vp_trap("read through a null pointer");
	if (mode[0] == 'r') {
		struct rt_ent *e = rt_find(name, 0);
		if (!e && rt_isdir(name)) e = &rt_direct;
		if (!e) { rt_errno = 2; return 0; }
		FILE *f = calloc(1, sizeof(FILE)); f->e = e; f->mode = 1; f->open = 1; return f;
	}
	if (!name[0]) { rt_errno = 2; return 0; }
	if (rt_isdir(name)) { rt_errno = 21; return 0; }
	{ int L = (int) strlen(name); if (name[L - 1] == '/') { rt_errno = 21; return 0; } if (L > 255) { int c = 0; for (int i = 0; i < L; i++) if (name[i] == '/') c = 0; else if (++c > 255) { rt_errno = 36; return 0; } } }
	{ int i = 0, k = 0; if (name[0] == '/' && !(name[1] == 'w' && name[2] == '/')) { rt_errno = 2; return 0; } (void) i; (void) k; }
	{ int k = -1, sy = 0; for (int i = 0; name[i]; i++) { if (vp_issym(name[i])) { sy = 1; break; } if (name[i] == '/') k = i; }
	  if (!sy && k > 0) { char *q = strdup(name); q[k] = 0; if (!rt_isdir(q)) { rt_errno = 2; return 0; } } }
	struct rt_ent *e = rt_find(name, 1);
	e->exists = 1; e->written = 1; if (mode[0] == 'w') e->len = 0;
	FILE *f = calloc(1, sizeof(FILE)); f->e = e; f->mode = 2; f->open = 1; f->pos = f->base = e->len; return f;
}
int fclose(FILE *f) { if (!f) vp_trap("fclose of a null pointer"); if (f->open != 1) vp_trap("double fclose"); f->open = 0; int r = f->pos > f->base && (f->err || rt_lost(f)) ? -1 : 0; if (r) rt_errno = 27; free(f); return r; }
int fflush(FILE *f) { if (!f || f->pos == f->base) return 0; f->base = f->pos; if (f->err || rt_lost(f)) { f->err = 1; rt_errno = 27; return -1; } return 0; }
int fseek(FILE *f, long off, int wh) { if (f->e == &rt_direct) { f->pos = wh == 2; return 0; } long p = wh == 0 ? off : wh == 1 ? f->pos + off : f->e->len + off; if (p < 0) { rt_errno = 22; return -1; } f->pos = p; f->eof = 0; return 0; }
long ftell(FILE *f) { if (f->e == &rt_direct && f->pos) return 0x7fffffffffffffffl; return f->pos; }
void rewind(FILE *f) { f->pos = 0; f->eof = 0; }
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err || (f->e == &rt_direct && f->eof); }
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
	if (f->e == &rt_direct) { rt_errno = 21; f->eof = 1; return 0; }
	long avail = f->e->len - f->pos; if (avail < 0) avail = 0;
	size_t want = sz * n, got = want; if ((long) got > avail) { got = avail; f->eof = 1; }
	memcpy(p, f->e->data + f->pos, got); f->pos += got;
	return sz ? got / sz : 0;
}
int fgetc(FILE *f) { if (f->pos >= f->e->len) { f->eof = 1; return -1; } return f->e->data[f->pos++]; }
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { if (c >= 0) f->pos--; return c; }
char *fgets(char *b, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (!f) vp_trap("write through a null pointer"); rt_put(f, p, sz * n); return f->err && n ? n - 1 : n; }
int fputc(int c, FILE *f) { u8 b = c; rt_put(f, &b, 1); return c & 255; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { rt_put(f, s, strlen(s)); return 1; }
int puts(const char *s) { rt_put(stdout, s, strlen(s)); fputc('\n', stdout); return 1; }
int access(const char *name, int mode) { if (rt_find(name, 0) || rt_isdir(name)) return 0; rt_errno = 2; return -1; }
int remove(const char *name) { struct rt_ent *e = rt_find(name, 0); if (!e) return -1; e->exists = 0; return 0; }
int unlink(const char *name) { return remove(name); }
char *getcwd(char *b, size_t n) { b[0] = '/'; b[1] = 'w'; b[2] = 0; return b; }
int ftime(void *t) { memset(t, 0, 16); return 0; }
long time(long *t) { if (t) *t = 0; return 0; }
char *getenv(const char *n) { return 0; }
int isatty(int fd) { return 0; }

// ---------------------------------------------------------------- printf
typedef __builtin_va_list va_list;
struct rt_sink { char *b; size_t cap; size_t n; FILE *f; };
static void rt_emit(struct rt_sink *s, const char *p, int n) {
	if (s->f) { rt_put(s->f, p, n); s->n += n; return; }
	for (int i = 0; i < n; i++) { if (s->n + 1 < s->cap) s->b[s->n] = p[i]; s->n++; }
}
static void rt_emitc(struct rt_sink *s, char c, int n) { while (n-- > 0) rt_emit(s, &c, 1); }
static const u64 rt_p10[20] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,10000000000ull,100000000000ull,1000000000000ull,
	10000000000000ull,100000000000000ull,1000000000000000ull,10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
static const char rt_hexU[] = "0123456789ABCDEF", rt_hexL[] = "0123456789abcdef";
static int rt_fmt(struct rt_sink *s, const char *f, va_list ap) {
	for (; *f; f++) {
		if (*f != '%') { const char *e = f; while (e[1] && e[1] != '%') e++; rt_emit(s, f, e - f + 1); f = e; continue; }
		f++;
		int left = 0, zero = 0, plus = 0, alt = 0, space = 0, width = 0, prec = -1, lng = 0, hh = 0;
		for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') space = 1; else break; }
		if (*f == '*') { width = __builtin_va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = __builtin_va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
		for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') hh++; else break; }
		char t[40]; int n = 0;
		switch (*f) {
		case '%': rt_emit(s, "%", 1); break;
		case 'c': { char c = (char) __builtin_va_arg(ap, int); if (!left) rt_emitc(s, ' ', width - 1); rt_emit(s, &c, 1); if (left) rt_emitc(s, ' ', width - 1); break; }
		case 's': {
			const char *p = __builtin_va_arg(ap, const char *);
			if (!p) p = "(null)";
			int L = prec >= 0 ? (int) strnlen(p, prec) : (int) strlen(p);
			if (!left) rt_emitc(s, ' ', width - L);
			rt_emit(s, p, L);
			if (left) rt_emitc(s, ' ', width - L);
			break;
		}
		case 'f': { u64 bits; double d = __builtin_va_arg(ap, double); memcpy(&bits, &d, 8); n = vp_fmtf(t, prec < 0 ? 6 : prec, bits); rt_emitc(s, ' ', width - n); rt_emit(s, t, n); break; }
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
			u64 v; int neg = 0;
			if (lng || *f == 'p') v = __builtin_va_arg(ap, u64); else { u32 w = __builtin_va_arg(ap, u32); if (hh == 1) w = *f == 'd' || *f == 'i' ? (u32) (short) w : (u16) w; if (hh == 2) w = *f == 'd' || *f == 'i' ? (u32) (signed char) w : (u8) w; v = *f == 'd' || *f == 'i' ? (u64) (i64) (i32) w : w; }
			if ((*f == 'd' || *f == 'i') && (i64) v < 0) { neg = 1; v = 0 - v; }
			int nd = 1;
			if (*f == 'x' || *f == 'X' || *f == 'p') {
				int start = prec > nd ? prec : zero && !left && width > nd ? width : 1; if (start > 16) start = 16;
				nd = start;
				while (nd < 16 && (v >> (4 * nd))) nd++;
				if (nd == start && start > 1 && !(prec > 1) && !zero) nd = 1;
				const char *hd = *f == 'X' ? rt_hexU : rt_hexL;
				for (int i = nd - 1; i >= 0; i--) { u32 d = (v >> (4 * i)) & 15; t[n++] = hd[d]; }
			} else {
				while (nd < 19 && v >= rt_p10[nd]) nd++;
				if (v <= 0xffffffffull) { u32 w = (u32) v; for (int i = nd - 1; i >= 0; i--) t[n++] = (char) ('0' + w / (u32) rt_p10[i] % 10); }
				else for (int i = nd - 1; i >= 0; i--) t[n++] = (char) ('0' + v / rt_p10[i] % 10);
			}
			int zeros = prec > n ? prec - n : 0;
			char sg[2]; int ns = 0; if (neg) sg[ns++] = '-'; else if (plus && (*f == 'd' || *f == 'i')) sg[ns++] = '+'; else if (space && (*f == 'd' || *f == 'i')) sg[ns++] = ' ';
			int total = ns + zeros + n;
			if (zero && !left && prec < 0 && width > total) { zeros += width - total; total = width; }
			if (!left) rt_emitc(s, ' ', width - total);
			rt_emit(s, sg, ns); rt_emitc(s, '0', zeros); rt_emit(s, t, n);
			if (left) rt_emitc(s, ' ', width - total);
			break;
		}
		default: vp_fail("printf conversion");
		}
	}
	return (int) s->n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
	struct rt_sink s = {b, n, 0, 0}; int r = rt_fmt(&s, f, ap);
	if (n) b[s.n < n ? s.n : n - 1] = 0;
	return r;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(b, n, f, ap); __builtin_va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 0x7fffffff, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(b, 0x7fffffff, f, ap); __builtin_va_end(ap); return r; }
int vfprintf(FILE *o, const char *f, va_list ap) { struct rt_sink s = {0, 0, 0, o}; return rt_fmt(&s, f, ap); }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int fprintf(FILE *o, const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vfprintf(o, f, ap); __builtin_va_end(ap); return r; }
int printf(const char *f, ...) { va_list ap; __builtin_va_start(ap, f); int r = vfprintf(stdout, f, ap); __builtin_va_end(ap); return r; }

// ---------------------------------------------------------------- C++ runtime
struct rt_node { int color; struct rt_node *p, *l, *r; };
struct rt_node *rt_inc(struct rt_node *x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
struct rt_node *rt_incc(struct rt_node *x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
struct rt_node *rt_decr(struct rt_node *x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
struct rt_node *rt_decrc(struct rt_node *x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
void rt_ins(_Bool left, struct rt_node *x, struct rt_node *p, struct rt_node *h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
struct rt_node *rt_era(struct rt_node *z, struct rt_node *h) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
struct rt_node *rt_inc(struct rt_node *x) {
	if (x->r) { x = x->r; while (x->l) x = x->l; return x; }
	struct rt_node *y = x->p; while (x == y->r) { x = y; y = y->p; }
	return x->r != y ? y : x;
}
struct rt_node *rt_incc(struct rt_node *x) { return rt_inc(x); }
struct rt_node *rt_decr(struct rt_node *x) {
	if (x->color == 0 && x->p->p == x) return x->r;
	if (x->l) { x = x->l; while (x->r) x = x->r; return x; }
	struct rt_node *y = x->p; while (x == y->l) { x = y; y = y->p; }
	return y;
}
struct rt_node *rt_decrc(struct rt_node *x) { return rt_decr(x); }
// an unbalanced binary search tree with the same ordering interface (balance is not observable)
void rt_ins(_Bool left, struct rt_node *x, struct rt_node *p, struct rt_node *h) {
	x->p = p; x->l = x->r = 0; x->color = 1;
	if (left) { p->l = x; if (p == h) { h->p = x; h->r = x; } else if (p == h->l) h->l = x; }
	else { p->r = x; if (p == h->r) h->r = x; }
}
static void rt_repl(struct rt_node *z, struct rt_node *by, struct rt_node *h) {
	if (h->p == z) h->p = by; else if (z->p->l == z) z->p->l = by; else z->p->r = by;
	if (by) by->p = z->p;
}
struct rt_node *rt_era(struct rt_node *z, struct rt_node *h) {
	if (z->l && z->r) {
		struct rt_node *y = z->r; while (y->l) y = y->l;
		if (y->p != z) { rt_repl(y, y->r, h); y->r = z->r; y->r->p = y; }
		rt_repl(z, y, h); y->l = z->l; y->l->p = y;
	} else rt_repl(z, z->l ? z->l : z->r, h);
	struct rt_node *q = h->p;
	if (!q) { h->l = h; h->r = h; } else { while (q->l) q = q->l; h->l = q; q = h->p; while (q->r) q = q->r; h->r = q; }
	return z;
}
void rt_throw1(const char *s) __asm__("_ZSt20__throw_length_errorPKc");
void rt_throw1(const char *s) { vp_throw(134); }
void rt_throw2(const char *s) __asm__("_ZSt19__throw_logic_errorPKc");
void rt_throw2(const char *s) { vp_throw(134); }
void rt_throw3(void) __asm__("_ZSt17__throw_bad_allocv");
void rt_throw3(void) { vp_throw(134); }
void rt_throw4(void) __asm__("_ZSt28__throw_bad_array_new_lengthv");
void rt_throw4(void) { vp_throw(134); }
void rt_throw5(const char *s, ...) __asm__("_ZSt24__throw_out_of_range_fmtPKcz");
void rt_throw5(const char *s, ...) { vp_throw(134); }

// the sequence of an unseeded rand()
static int rt_rnd;
int rand(void) { static const int q[] = {1804289383,846930886,1681692777,1714636915,1957747793,424238335,719885386,1649760492,596516649,1189641421,1025202362,1350490027}; return q[rt_rnd++ % 12]; }

// application signing (GMP, MD5) is outside the encoding: the signature bytes are a fixed stand-in
u8 *MD5(const u8 *d, size_t n, u8 *md) { for (int i = 0; i < 16; i++) md[i] = (u8) (i + 1); return md; }
void __gmpz_init(void *a) {} void __gmpz_clear(void *a) {} void __gmpz_import(void *a, size_t n, int o, size_t s, int e, size_t k, const void *p) {}
void __gmpz_mul_ui(void *a, void *b, u64 c) {} void __gmpz_add_ui(void *a, void *b, u64 c) {} int __gmpz_jacobi(void *a, void *b) { return 1; }
void __gmpz_sub(void *a, void *b, void *c) {} void __gmpz_powm(void *a, void *b, void *c, void *d) {} void __gmpz_set_ui(void *a, u64 v) {}
void __gmpz_mul(void *a, void *b, void *c) {} void __gmpz_mod(void *a, void *b, void *c) {} void __gmpz_add(void *a, void *b, void *c) {}
size_t __gmpz_sizeinbase(void *a, int b) { return 128; }
void *__gmpz_export(void *r, size_t *c, int o, size_t s, int e, size_t k, void *a) { u8 *p = r; for (int i = 0; i < 64; i++) p[i] = 0x55; return r; }

// ---------------------------------------------------------------- running the program
static void (*rt_atexit[8])(void); static int rt_natexit;
int atexit(void (*f)(void)) { if (rt_natexit < 8) rt_atexit[rt_natexit++] = f; return 0; }
void exit(int c) { while (rt_natexit) rt_atexit[--rt_natexit](); vp_throw(c & 255); }
static char *rt_argv[40]; static int rt_argc;
void vp_ctors(void); int __cxa_atexit(void *f, void *a, void *d) { return 0; }
static int rt_start(int argc, char **argv) { vp_ctors(); int r = main(argc, argv); while (rt_natexit) rt_atexit[--rt_natexit](); return r & 255; }
void vp_file(const char *name, const void *data, int len) {
	struct rt_ent *e = rt_find(name, 1); e->exists = 1; e->written = 0;
	u8 *p = malloc(len ? len : 1); memcpy(p, data, len); e->data = p; e->cap = len; e->len = len;
}
void vp_clear(void) { rt_nfiles = 0; }
void vp_arg(const char *a) { if (!rt_argc) rt_argv[rt_argc++] = strdup("spasm"); rt_argv[rt_argc++] = strdup(a); }
int vp_run(void) {
	vp_reset();
	rt_natexit = 0; rt_errno = 0; rt_rnd = 0; rt_tok = 0;
	rt_so.data = malloc(4096); rt_so.cap = 4096; rt_so.len = 0;
	for (int i = 0; i < rt_nfiles; i++) rt_files[i].written = 0;
	if (!rt_argc) rt_argv[rt_argc++] = strdup("spasm");
	char **av = malloc((rt_argc + 1) * sizeof(char *));
	for (int i = 0; i < rt_argc; i++) av[i] = rt_argv[i];
	av[rt_argc] = 0;
	int n = rt_argc; rt_argc = 0;
	int r = vp_try((void *) rt_start, n, av);
	char nm[80]; rt_runs++;
	u8 rb = (u8) r;
	nm[0] = '0' + rt_runs % 10; nm[1] = ':'; strcpy(nm + 2, "exit"); vp_artifact(nm, &rb, 1);
	strcpy(nm + 2, "stdout"); vp_artifact(nm, rt_so.data, rt_so.len);
	int lim = rt_limited; rt_limited = 0;
	if (!lim) for (int i = 0; i < rt_nfiles; i++) if (rt_files[i].exists && rt_files[i].written && strlen(rt_files[i].name) < 60) {
		strcpy(nm + 2, "file:"); strcpy(nm + 7, rt_files[i].name); vp_artifact(nm, rt_files[i].data, rt_files[i].len);
	}
	return r;
}
int vp_out(const char *name, u8 **p) { u8 *dummy; if (!p) p = &dummy; struct rt_ent *e = rt_find(name, 0); if (!e || !e->exists) { *p = 0; return -1; } *p = e->data; return e->len; }
int vp_stdout(u8 **p) { *p = rt_so.data; return rt_so.len; }
