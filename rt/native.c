// Native side of vp.h: replays one recorded input against the real binary.
// VP_INPUT: text file with lines "choice N" / "byte NAME VALUE" / "tier N"; VP_SPASM: binary; VP_DIR: scratch directory; VP_ART: artifact output (optional)
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <errno.h>
#include "vp.h"
static int choices[4096], nchoices, pchoice, tier;
static struct { char name[64]; int v; } bytes[20000]; static int nbytes;
static const char *dir, *spasm; static FILE *art; static int runs, failed; static char *failmsg;
static char *av[64]; static int ac; static u8 *so; static int solen;
static struct ent { char name[200]; u8 *data; int len, exists, written; } files[128]; static int nfiles;
extern void harness(void);
static int last_signal, sanitizer;

void *vp_alloc(int n) { return calloc(1, n ? n : 1); }
void vp_copy(void *d, const void *s, int n) { memcpy(d, s, n); }
u8 vp_byte(const char *name, const void *dom, int n) {
	for (int i = 0; i < nbytes; i++) if (!strcmp(bytes[i].name, name)) return bytes[i].v;
	return ((const u8 *) dom)[0];
}
int vp_choose(int n) { if (pchoice < nchoices) return choices[pchoice++]; return 0; }
static void finish(void);
void vp_assume(int c) { if (!c) { printf("NATIVE: assumption false\n"); exit(5); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("NATIVE-FAIL: %s\n", msg); failed = 1; finish(); } }
void vp_assert_eq(const void *p, const void *q, int n, const char *msg) {
	if (memcmp(p, q, n)) {
		printf("NATIVE-FAIL: %s\n got     ", msg); for (int i = 0; i < n && i < 64; i++) printf(" %02x", ((u8 *) p)[i]);
		printf("\n expected"); for (int i = 0; i < n && i < 64; i++) printf(" %02x", ((u8 *) q)[i]); printf("\n");
		failed = 1; finish();
	}
}
void vp_reach(const char *l) {}
void vp_label(const char *l) {}
void vp_go(void) {}
int vp_tier(void) { return tier; }
int vp_issym(int v) { return 0; }
int vp_concrete(int v) { return v; }
void vp_done(void) { finish(); }
void vp_fail(const char *w) { printf("NATIVE: harness failure: %s\n", w); exit(5); }
static const char *norm(const char *name) { if (!strncmp(name, "/w/", 3)) name += 3; while (!strncmp(name, "./", 2)) name += 2; return name; }
static struct ent *find(const char *name, int create) {
	name = norm(name);
	for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, name)) return (files[i].exists || create) ? &files[i] : 0;
	if (!create) return 0;
	strcpy(files[nfiles].name, name); return &files[nfiles++];
}
static void path_of(char *o, const char *name) { sprintf(o, "%s/%s", dir, norm(name)); }
static void mkparents(char *p) { for (char *q = p + strlen(dir) + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(p, 0777); *q = '/'; } }
void vp_file(const char *name, const void *data, int len) {
	if (getenv("VP_SHOW") && len < 4000) printf("--- file %s\n%.*s\n", name, len, (const char *) data);
	struct ent *e = find(name, 1); e->data = malloc(len + 1); memcpy(e->data, data, len); e->len = len; e->exists = 1; e->written = 0;
	char p[1000]; path_of(p, name); mkparents(p);
	FILE *f = fopen(p, "wb"); if (!f) { perror(p); exit(5); } fwrite(data, 1, len, f); fclose(f);
}
static void wipe(const char *d, int depth) {
	DIR *D = opendir(d); if (!D) return; struct dirent *e;
	while ((e = readdir(D))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[1000]; snprintf(p, 1000, "%s/%s", d, e->d_name); struct stat st; lstat(p, &st); if (S_ISDIR(st.st_mode)) { wipe(p, depth + 1); rmdir(p); } else unlink(p); }
	closedir(D);
}
void vp_clear(void) { wipe(dir, 0); nfiles = 0; }
void vp_arg(const char *a) { if (!ac) av[ac++] = strdup(spasm); av[ac++] = strdup(a); }
static u8 *slurp(const char *p, int *len) {
	FILE *f = fopen(p, "rb"); if (!f) return 0; fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); u8 *b = malloc(n + 1); n = fread(b, 1, n, f); b[n] = 0; fclose(f); *len = n; return b;
}
static void artifact(const char *n, const u8 *p, int len) { if (!art) return; fprintf(art, "%d:%s ", runs % 10, n); for (int i = 0; i < len; i++) fprintf(art, "%02x", p[i]); fprintf(art, "\n"); }
static void rescan(const char *d, const char *pre) {
	DIR *D = opendir(d); if (!D) return; struct dirent *e;
	while ((e = readdir(D))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		char p[1000], nm[300]; snprintf(p, 1000, "%s/%s", d, e->d_name); snprintf(nm, 300, "%s%s", pre, e->d_name);
		struct stat st; lstat(p, &st);
		if (S_ISDIR(st.st_mode)) { char q[400]; snprintf(q, 400, "%s/", nm); rescan(p, q); continue; }
		int len = 0; u8 *b = slurp(p, &len); if (!b) continue;
		if (strlen(nm) > 190) continue;
		struct ent *x = find(nm, 0);
		if (x && x->len == len && !memcmp(x->data, b, len) && st.st_mtime == 1000) { free(b); continue; }
		x = find(nm, 1); x->data = b; x->len = len; x->exists = 1; x->written = 1;
		char an[300]; snprintf(an, 300, "file:%s", nm); 
		{ int dl = strlen(dir); u8 *o = malloc(len + 1); int n = 0; for (int i = 0; i < len;) { if (i + dl <= len && !memcmp(b + i, dir, dl)) { o[n++] = '/'; o[n++] = 'w'; i += dl; } else o[n++] = b[i++]; } artifact(an, o, n); free(o); }
	}
	closedir(D);
}
static u32 limit; static int limited;
void vp_limit(u32 k) { limit = k; limited = 1; }
int vp_run(void) {
	if (!ac) av[ac++] = strdup(spasm);
	av[ac] = 0; runs++;
	for (int i = 0; i < nfiles; i++) { files[i].written = 0; char q[1000]; path_of(q, files[i].name); struct timespec ts[2] = {{1000, 0}, {1000, 0}}; utimensat(AT_FDCWD, q, ts, 0); }
	char op[1000]; snprintf(op, 1000, "%s.stdout", dir);
	fflush(stdout);
	int pi[2]; if (limited && pipe(pi)) exit(5);
	pid_t p = fork();
	if (!p) {
		if (chdir(dir)) _exit(120);
		int fd = limited ? pi[1] : open(op, O_CREAT | O_TRUNC | O_RDWR, 0666); if (limited) close(pi[0]); dup2(fd, 1); dup2(fd, 2); int nu = open("/dev/null", O_RDONLY); dup2(nu, 0);
		struct rlimit rl = {getenv("VP_CPU") ? atoi(getenv("VP_CPU")) : 20, 60}; setrlimit(RLIMIT_CPU, &rl);
		struct rlimit fl = {64 << 20, 64 << 20}; if (limited) { fl.rlim_cur = fl.rlim_max = limit; signal(SIGXFSZ, SIG_IGN); } setrlimit(RLIMIT_FSIZE, &fl);
		if (getenv("VP_VALGRIND")) {
			char *a2[80]; int k = 0; a2[k++] = "valgrind"; a2[k++] = "-q"; a2[k++] = "--error-exitcode=99"; a2[k++] = "--undef-value-errors=yes"; a2[k++] = "--malloc-fill=0xaa";
			for (int i = 0; i <= ac; i++) a2[k++] = av[i];
			execvp("valgrind", a2); _exit(121);
		}
		execv(spasm, av); _exit(121);
	}
	if (limited) { close(pi[1]); FILE *of = fopen(op, "wb"); char t[4096]; int k; while ((k = read(pi[0], t, sizeof t)) > 0) fwrite(t, 1, k, of); fclose(of); close(pi[0]); }
	int st; waitpid(p, &st, 0);
	for (int i = 0; i < ac; i++) free(av[i]);
	ac = 0;
	so = slurp(op, &solen); if (!so) { so = (u8 *) ""; solen = 0; }
	unlink(op);
	int r = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
	if (WIFSIGNALED(st)) { last_signal = WTERMSIG(st); printf("NATIVE: run %d killed by signal %d\n", runs, last_signal); }
	if (memmem(so, solen, "AddressSanitizer", 16) || memmem(so, solen, "runtime error:", 14) || memmem(so, solen, "MemorySanitizer", 15)) {
		sanitizer = 1; printf("NATIVE: sanitizer report in run %d\n", runs);
		u8 *q = memmem(so, solen, "ERROR: AddressSanitizer", 23); if (!q) q = memmem(so, solen, "runtime error:", 14); if (q) printf("%.1500s\n", q > so + 60 ? q - 20 : q);
	}
	if (r == 99 && getenv("VP_VALGRIND")) { sanitizer = 1; printf("NATIVE: valgrind report in run %d\n%.2500s\n", runs, so); }
	u8 rb = r; artifact("exit", &rb, 1);
	// working-directory prefix becomes /w
	{ int dl = strlen(dir); u8 *o = malloc(solen + 1); int n = 0; for (int i = 0; i < solen;) { if (i + dl <= solen && !memcmp(so + i, dir, dl)) { o[n++] = '/'; o[n++] = 'w'; i += dl; } else o[n++] = so[i++]; } o[n] = 0; so = o; solen = n; }
	artifact("stdout", so, solen);
	{ FILE *a = art; if (limited) art = 0; rescan(dir, ""); art = a; limited = 0; }
	// files deleted by the run
	for (int i = 0; i < nfiles; i++) if (files[i].exists) { char pp[1000]; path_of(pp, files[i].name); if (access(pp, F_OK)) files[i].exists = 0; }
	if (getenv("VP_SHOW")) printf("--- run %d exit %d\n%.*s\n", runs, r, solen, so);
	return r;
}
int vp_out(const char *name, u8 **p) { u8 *dummy; if (!p) p = &dummy; struct ent *e = find(name, 0); if (!e || !e->exists) { *p = 0; return -1; } *p = e->data; return e->len; }
int vp_stdout(u8 **p) { *p = so; return solen; }
static void finish(void) {
	if (art) fclose(art);
	fflush(stdout);
	if (failed) exit(1);
	if (sanitizer) exit(3);
	if (last_signal) exit(4);
	exit(0);
}
int main(void) {
	dir = getenv("VP_DIR"); spasm = getenv("VP_SPASM");
	FILE *f = fopen(getenv("VP_INPUT"), "r"); char k[32], n[64]; 
	while (fscanf(f, "%31s", k) == 1) {
		if (!strcmp(k, "choice")) fscanf(f, "%d", &choices[nchoices++]);
		else if (!strcmp(k, "tier")) fscanf(f, "%d", &tier);
		else if (!strcmp(k, "byte")) { fscanf(f, "%63s %d", bytes[nbytes].name, &bytes[nbytes].v); nbytes++; }
	}
	fclose(f);
	if (getenv("VP_ART")) art = fopen(getenv("VP_ART"), "w");
	harness();
	finish();
	return 0;
}
