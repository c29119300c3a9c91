/* Native scenarios: the real library, compiled from /repo, driven through its public interface and compared with an
 * independent model of the ID3v2 format and of the documented operations. Used to search for, confirm and replay failing
 * inputs. Every iteration is determined by (seed, scenario, iteration). */
#ifndef BASE_H
#define BASE_H
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include "id3v2lib.compat.h"

typedef unsigned char u8;
typedef uint64_t u64;

/* ---- properties, failures ---- */
#define P(n) (1u << (n))
static unsigned PROP; /* mask of the property being checked */
static jmp_buf ITER;
static char LOGB[1 << 16];
static int LOGN;
static const char *SCEN; static u64 SEED; static long ITERNO;
static int ABANDONED;

static void logf_(const char *f, ...)
{
    va_list a; va_start(a, f);
    if (LOGN < (int) sizeof LOGB - 1) { int n = vsnprintf(LOGB + LOGN, sizeof LOGB - LOGN, f, a); LOGN += n; if (LOGN >= (int) sizeof LOGB) LOGN = sizeof LOGB - 1; }
    va_end(a);
}
static void loghex(const char *what, const void *p, int n)
{
    logf_("    %s (%d bytes):", what, n);
    for (int i = 0; i < n && i < 160; i++) logf_(" %02x", ((const u8 *) p)[i]);
    if (n > 160) logf_(" ... ");
    logf_("\n");
}
static void dump_log(const char *why)
{
    dprintf(1, "\nFAIL scenario=%s seed=%llu iteration=%ld\n%s\nhistory of the iteration:\n", SCEN, (unsigned long long) SEED, ITERNO, why);
    for (int o = 0; o < LOGN;) { ssize_t w = write(1, LOGB + o, LOGN - o); if (w <= 0) break; o += w; }
    dprintf(1, "END-FAIL\n");
}
static void fail(unsigned mask, const char *f, ...)
{
    char why[1024];
    va_list a; va_start(a, f); vsnprintf(why, sizeof why, f, a); va_end(a);
    if (mask & PROP) { dump_log(why); _exit(1); }
    ABANDONED++;
    if (getenv("SCEN_DEBUG")) fprintf(stderr, "other property (mask %x): %s\n", mask, why);
    longjmp(ITER, 1);
}
#define A(mask, cond, ...) do { if (!(cond)) fail((mask), __VA_ARGS__); } while (0)
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void) { dump_log("the sanitizer stopped the program (memory error or undefined behaviour), see its report"); }
static void on_signal(int s)
{
    char b[100]; snprintf(b, sizeof b, s == SIGALRM || s == SIGPROF ? "no termination within the time limit" : "killed by signal %d", s);
    dump_log(b); _exit(1);
}
static void on_exit_(void) { dump_log("the library ended the program"); _exit(1); }

/* ---- pseudo random numbers ---- */
static u64 RS;
static u64 rnd64(void) { u64 z = (RS += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static long rnd(long lo, long hi) { return lo + (long) (rnd64() % (u64) (hi - lo + 1)); }
static int chance(int n) { return rnd64() % n == 0; }
static int pick(int n) { return (int) (rnd64() % n); }

/* ---- memory of the scenario itself, and tracking of the library's blocks ---- */
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
#define NT (1 << 16)
static void *LIVE[NT]; static int NLIVE; static int TRACK = 1;
static unsigned hp(void *p) { return (unsigned) (((u64) (uintptr_t) p * 0x9E3779B97F4A7C15ull) >> 40) & (NT - 1); }
static void t_add(void *p) { if (!p || !TRACK || NLIVE > NT / 2) return; unsigned h = hp(p); while (LIVE[h]) h = (h + 1) & (NT - 1); LIVE[h] = p; NLIVE++; }
static int t_del(void *p)
{
    if (!p) return 0;
    unsigned h = hp(p);
    while (LIVE[h] && LIVE[h] != p) h = (h + 1) & (NT - 1);
    if (!LIVE[h]) return 0;
    LIVE[h] = 0; NLIVE--;
    for (unsigned i = (h + 1) & (NT - 1); LIVE[i]; i = (i + 1) & (NT - 1)) { void *q = LIVE[i]; LIVE[i] = 0; NLIVE--; unsigned g = hp(q); while (LIVE[g]) g = (g + 1) & (NT - 1); LIVE[g] = q; NLIVE++; }
    return 1;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && n < (1 << 26)) memset(p, 0xA7, n); t_add(p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); t_add(p); return p; }
void *__wrap_realloc(void *o, size_t n) { int had = t_del(o); void *p = __real_realloc(o, n); (void) had; t_add(p); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); t_add(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); t_add(p); return p; }
void __wrap_free(void *p) { t_del(p); __real_free(p); }
#define xalloc(n) __real_malloc((n) ? (n) : 1)
#define xfree __real_free
#define lfree __wrap_free /* releases a block the library handed out */

/* per iteration arena for the scenario's own data (survives an abandoned iteration) */
static void *AR[1 << 16]; static int NAR;
static u8 *ar(long n) { u8 *p = (u8 *) __real_malloc(n); if (!p) { puts("scenario: out of memory"); _exit(3); } if (NAR < 1 << 16) AR[NAR++] = p; else { puts("scenario: arena full"); _exit(3); } return p; }
static u8 *ardup(const void *s, long n) { u8 *p = ar(n); memcpy(p, s, n); return p; }
static void ar_reset(void) { while (NAR) __real_free(AR[--NAR]); }
static void ar_release(void *p) { for (int i = NAR - 1; i >= 0; i--) if (AR[i] == p) { AR[i] = AR[--NAR]; __real_free(p); return; } }

/* ---- stdio: pass through, counting open files; or a virtual file system with faults ---- */
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); FILE *__real_tmpfile(void); FILE *__real_tmpfile64(void); int __real_fclose(FILE *);
int __real_rename(const char *, const char *); int __real_remove(const char *); int __real_unlink(const char *);
static int OPEN; /* files the library holds open */
typedef struct { char name[256]; u8 *b; long n; int used, temp; } VF;
static VF VFS[8]; static int VMODE;
static int F_OPEN, F_OPENW, F_TMP, F_READ, F_WRITE; /* fails from that occurrence on; 0: never */
static int N_OPEN, N_OPENW, N_TMP, N_READ, N_WRITE;
static long F_SPACE;                                /* temporary files cannot grow beyond this; -1: no limit */
static int DEST_TOUCHED, FAULTED_BEFORE, FAULTED;   /* dest truncated or written; a fault happened before that */
typedef struct { VF *f; long pos; int rd, wr, app; } VC;
static void fault(void) { FAULTED = 1; if (!DEST_TOUCHED) FAULTED_BEFORE = 1; }
static ssize_t v_read(void *c, char *b, size_t n)
{
    VC *v = c; if (!v->rd) { errno = EBADF; return -1; }
    N_READ++;
    if (F_READ && N_READ >= F_READ && !v->f->temp) { fault(); errno = EIO; return -1; }
    if (v->pos >= v->f->n) return 0;
    if ((long) n > v->f->n - v->pos) n = v->f->n - v->pos;
    memcpy(b, v->f->b + v->pos, n); v->pos += n; return n;
}
static ssize_t v_write(void *c, const char *b, size_t n)
{
    VC *v = c; if (!v->wr) { errno = EBADF; return 0; }
    if (n == 0) return 0;
    N_WRITE++;
    if (v->f->temp && ((F_WRITE && N_WRITE >= F_WRITE) || (F_SPACE >= 0 && v->pos + (long) n > F_SPACE))) { fault(); errno = ENOSPC; return 0; }
    if (!v->f->temp) DEST_TOUCHED = 1;
    if (v->app) v->pos = v->f->n;
    if (v->pos + (long) n > v->f->n) { u8 *nb = __real_realloc(v->f->b, v->pos + n); if (v->pos > v->f->n) memset(nb + v->f->n, 0, v->pos - v->f->n); v->f->b = nb; v->f->n = v->pos + n; }
    memcpy(v->f->b + v->pos, b, n); v->pos += n; return n;
}
static int v_seek(void *c, off64_t *o, int w)
{
    VC *v = c; long p = w == SEEK_SET ? *o : w == SEEK_CUR ? v->pos + *o : v->f->n + *o;
    if (p < 0) { errno = EINVAL; return -1; }
    v->pos = p; *o = p; return 0;
}
static int v_close(void *c) { VC *v = c; if (v->f->temp && !v->f->name[0]) { __real_free(v->f->b); v->f->b = NULL; v->f->used = 0; } __real_free(v); return 0; }
static VF *v_find(const char *n, int create, int temp)
{
    for (int i = 0; i < 8; i++) if (VFS[i].used && n && !strcmp(VFS[i].name, n)) return &VFS[i];
    if (!create) return NULL;
    for (int i = 0; i < 8; i++) if (!VFS[i].used) { VFS[i].used = 1; VFS[i].n = 0; VFS[i].b = NULL; VFS[i].temp = temp; VFS[i].name[0] = 0; if (n) strncpy(VFS[i].name, n, 255); return &VFS[i]; }
    return NULL;
}
static FILE *v_open(VF *f, const char *m)
{
    VC *v = __real_malloc(sizeof *v); memset(v, 0, sizeof *v); v->f = f;
    int plus = strchr(m, '+') != NULL;
    v->rd = m[0] == 'r' || plus; v->wr = m[0] != 'r' || plus; v->app = m[0] == 'a';
    cookie_io_functions_t io = { v_read, v_write, v_seek, v_close };
    TRACK = 0; FILE *fp = fopencookie(v, m, io); TRACK = 1;
    if (fp) OPEN++;
    return fp;
}
FILE *__wrap_fopen(const char *n, const char *m)
{
    if (!VMODE) { TRACK = 0; FILE *f = __real_fopen(n, m); TRACK = 1; if (f) OPEN++; return f; }
    int w = m[0] != 'r' || strchr(m, '+') != NULL;
    N_OPEN++; if (w) N_OPENW++;
    if ((F_OPEN && N_OPEN >= F_OPEN) || (w && F_OPENW && N_OPENW >= F_OPENW)) { fault(); errno = EACCES; return NULL; }
    VF *f = v_find(n, m[0] != 'r', 1);
    if (!f) { errno = ENOENT; return NULL; }
    if (m[0] == 'w') { if (!f->temp) DEST_TOUCHED = 1; f->n = 0; }
    return v_open(f, m);
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
FILE *__wrap_tmpfile(void)
{
    if (!VMODE) { TRACK = 0; FILE *f = __real_tmpfile(); TRACK = 1; if (f) OPEN++; return f; }
    N_TMP++;
    if (F_TMP && N_TMP >= F_TMP) { fault(); errno = ENOSPC; return NULL; }
    return v_open(v_find(NULL, 1, 1), "w+b");
}
FILE *__wrap_tmpfile64(void) { return __wrap_tmpfile(); }
int __wrap_fclose(FILE *f) { if (f) OPEN--; TRACK = 0; int r = __real_fclose(f); TRACK = 1; return r; }
int __wrap_rename(const char *a, const char *b)
{
    if (!VMODE) return __real_rename(a, b);
    VF *f = v_find(a, 0, 0), *g = v_find(b, 0, 0); if (!f) { errno = ENOENT; return -1; }
    if (g) { DEST_TOUCHED = 1; __real_free(g->b); g->b = f->b; g->n = f->n; f->b = NULL; f->used = 0; } else strncpy(f->name, b, 255);
    return 0;
}
int __wrap_remove(const char *a) { if (!VMODE) return __real_remove(a); VF *f = v_find(a, 0, 0); if (!f) { errno = ENOENT; return -1; } if (!f->temp) DEST_TOUCHED = 1; f->used = 0; return 0; }
int __wrap_unlink(const char *a) { return VMODE ? __wrap_remove(a) : __real_unlink(a); }
static void v_reset(void)
{
    for (int i = 0; i < 8; i++) { if (VFS[i].b) __real_free(VFS[i].b); memset(&VFS[i], 0, sizeof VFS[i]); }
    F_OPEN = F_OPENW = F_TMP = F_READ = F_WRITE = N_OPEN = N_OPENW = N_TMP = N_READ = N_WRITE = 0; F_SPACE = -1;
    DEST_TOUCHED = FAULTED_BEFORE = FAULTED = 0;
}
static void v_put(const char *n, const u8 *b, long len) { VF *f = v_find(n, 1, 0); f->temp = 0; f->b = __real_malloc(len ? len : 1); memcpy(f->b, b, len); f->n = len; }
/* real files, in the scratch directory the check created */
static const char *DIR_; static char FNAME[512];
static const char *fname(const char *n) { static char b[4][512]; static int k; k = (k + 1) & 3; snprintf(b[k], 512, "%s/%s", DIR_, n); return b[k]; }
static void put_file(const char *n, const u8 *b, long len) { int fd = open(n, O_WRONLY | O_CREAT | O_TRUNC, 0600); long o = 0; while (o < len) { ssize_t w = write(fd, b + o, len - o); if (w <= 0) { puts("scenario: cannot write scratch file"); _exit(3); } o += w; } close(fd); }
static u8 *get_file(const char *n, long *len)
{
    int fd = open(n, O_RDONLY); if (fd < 0) { *len = -1; return NULL; }
    struct stat st; fstat(fd, &st); u8 *b = ar(st.st_size); long o = 0;
    while (o < st.st_size) { ssize_t r = read(fd, b + o, st.st_size - o); if (r <= 0) break; o += r; }
    close(fd); *len = o; return b;
}
static int count_fds(void) { int n = 0; TRACK = 0; DIR *d = opendir("/proc/self/fd"); if (d) { while (readdir(d)) n++; closedir(d); } TRACK = 1; return n; }
#endif
