/* libsim: the storage/allocator seam of the simulator.
 *
 * LD_PRELOADed into every simulated process.  Every libc call that touches a path below the
 * scope prefix (the run's scratch directory) is counted, logged and - if the fault plan says so -
 * made to fail, to be short, to be interrupted, to be torn, or to kill the process.  Large heap
 * requests of numpy can be made to fail too.  Nothing outside the scope is ever touched, and with no plan
 * armed every call goes straight through.
 *
 * The plan is a list of (kind, nth, action, arg, repeat); "nth" counts calls of that kind since
 * the plan was armed, so a plan is a pure function of the program under simulation.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>
#include <stdint.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/sendfile.h>

enum { K_OPENR, K_OPENW, K_READ, K_WRITE, K_CLOSE, K_TRUNC, K_RENAME, K_UNLINK, K_FSYNC, K_STATVFS, K_ALLOC, K_OPENDIR, NK };
enum { A_NONE, A_ERRNO, A_SHORT, A_EINTR, A_CRASH, A_TORN, A_ENOSPC_BUDGET, A_SIGINT, NA };

#define MAXPLAN 64
#define MAXFD 4096
#define MAXLOG 65536

typedef struct { int kind; long nth; int action; long arg; long repeat; } plan_t;

static char scope[PATH_MAX];
static size_t scope_len = 0;
static unsigned char fdscope[MAXFD];       /* 0: outside, 1: read-only, 2: writable */
static plan_t plan[MAXPLAN];
static int nplan = 0;
static volatile int armed = 0;
static long counts[NK];                    /* calls since the plan was armed */
/* shared with forked children, so that what happens in a process that crashes is still counted */
typedef struct { long total[NK]; long fired[NK][NA]; uint64_t trace_hash; } shared_t;
static shared_t own = {.trace_hash = 1469598103934665603ULL}, *S = &own;
#define total (S->total)
#define fired (S->fired)
#define trace_hash (S->trace_hash)
static long budget = -1;                   /* bytes that may still be written; -1: unlimited */
static long alloc_threshold = 1L << 60;
static int clock_on = 0;
static long clock_ns = 0, clock_step = 0;
static uint64_t dir_seed = 0;

static void note(int kind, long v) {
    trace_hash = (trace_hash ^ (uint64_t)(kind * 1000003L + v)) * 1099511628211ULL;
}

/* ---- control interface (ctypes) ---- */
void sim_scope(const char *p) { strncpy(scope, p, sizeof(scope) - 1); scope_len = strlen(scope); }
void sim_reset(void) { nplan = 0; armed = 0; budget = -1; alloc_threshold = 1L << 60; dir_seed = 0; clock_on = 0;
    if (S == &own) { void *m = mmap(NULL, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m != MAP_FAILED) S = m; }
    memset(counts, 0, sizeof counts); memset(total, 0, sizeof total); memset(fired, 0, sizeof fired);
    trace_hash = 1469598103934665603ULL; }
void sim_plan(int kind, long nth, int action, long arg, long repeat) {
    if (nplan < MAXPLAN) { plan_t p = {kind, nth, action, arg, repeat}; plan[nplan++] = p; } }
void sim_budget(long n) { budget = n; }
void sim_alloc_threshold(long n) { alloc_threshold = n; }
void sim_clock(long ns, long step) { clock_on = 1; clock_ns = ns; clock_step = step; }
void sim_dir_seed(unsigned long s) { dir_seed = s; }
void sim_arm(void) { memset(counts, 0, sizeof counts); armed = 1; }
void sim_disarm(void) { armed = 0; nplan = 0; budget = -1; alloc_threshold = 1L << 60; }
long sim_count(int k) { return counts[k]; }
long sim_total(int k) { return total[k]; }
long sim_fired(int k, int a) { return fired[k][a]; }
unsigned long long sim_trace(void) { return trace_hash; }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) if (fdscope[i]) n++; return n; }

/* ---- real functions ---- */
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = NULL; \
    static inline void init_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }
REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)
REAL(int, close, int)
REAL(int, fclose, FILE *)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pread, int, void *, size_t, off_t)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(size_t, fread, void *, size_t, size_t, FILE *)
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *)
REAL(int, ftruncate, int, off_t)
REAL(int, ftruncate64, int, off64_t)
REAL(int, rename, const char *, const char *)
REAL(int, unlink, const char *)
REAL(int, fsync, int)
REAL(int, statvfs, const char *, struct statvfs *)
REAL(int, statvfs64, const char *, struct statvfs64 *)

REAL(DIR *, opendir, const char *)
REAL(int, closedir, DIR *)
REAL(struct dirent *, readdir, DIR *)
REAL(struct dirent64 *, readdir64, DIR *)
REAL(ssize_t, sendfile, int, int, off_t *, size_t)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)

static int in_scope(const char *path) {
    if (!scope_len || !path) return 0;
    if (path[0] == '/') return strncmp(path, scope, scope_len) == 0;
    char buf[PATH_MAX];
    if (!getcwd(buf, sizeof buf)) return 0;
    return strncmp(buf, scope, scope_len) == 0;
}

/* what the plan says about this call: the action, with *arg set; A_NONE if it goes through */
static int decide(int kind, long *arg) {
    total[kind]++;
    if (!armed) return A_NONE;
    long n = counts[kind]++;
    for (int i = 0; i < nplan; i++) {
        plan_t *p = &plan[i];
        if (p->kind != kind) continue;
        if (n >= p->nth && (p->repeat < 0 || n < p->nth + p->repeat)) {
            *arg = p->arg; fired[kind][p->action]++; note(kind, 7000 + p->action);
            if (p->action == A_CRASH) _exit(137);
            if (p->action == A_SIGINT) { raise(SIGINT); return A_NONE; }
            return p->action;
        }
    }
    return A_NONE;
}

static void set_fd(int fd, int v) { if (fd >= 0 && fd < MAXFD) fdscope[fd] = v; }
static int get_fd(int fd) { return (fd >= 0 && fd < MAXFD) ? fdscope[fd] : 0; }

static int writable_flags(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }

#define OPEN_BODY(CALL) \
    if (!in_scope(path) || (flags & O_DIRECTORY)) { return CALL; } \
    int w = writable_flags(flags); long arg = 0; \
    note(w ? K_OPENW : K_OPENR, 1); \
    int act = decide(w ? K_OPENW : K_OPENR, &arg); \
    if (act == A_ERRNO) { errno = (int)arg; return -1; } \
    if (act == A_EINTR) { errno = EINTR; return -1; } \
    int fd = CALL; set_fd(fd, w ? 2 : 1); return fd;

#define GET_MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { init_open(); GET_MODE OPEN_BODY(real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { init_open64(); GET_MODE OPEN_BODY(real_open64(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { init_openat(); GET_MODE OPEN_BODY(real_openat(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { init_openat64(); GET_MODE OPEN_BODY(real_openat64(d, path, flags, mode)) }

static FILE *do_fopen(const char *path, const char *m, FILE *(*f)(const char *, const char *)) {
    if (!in_scope(path)) return f(path, m);
    int w = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'); long arg = 0;
    note(w ? K_OPENW : K_OPENR, 2);
    int act = decide(w ? K_OPENW : K_OPENR, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return NULL; }
    FILE *fp = f(path, m);
    if (fp) set_fd(fileno(fp), w ? 2 : 1);
    return fp;
}
FILE *fopen(const char *p, const char *m) { init_fopen(); return do_fopen(p, m, real_fopen); }
FILE *fopen64(const char *p, const char *m) { init_fopen64(); return do_fopen(p, m, real_fopen64); }

int close(int fd) {
    init_close(); int s = get_fd(fd);
    if (!s) return real_close(fd);
    long arg = 0; note(K_CLOSE, s);
    set_fd(fd, 0);
    int act = s == 2 ? decide(K_CLOSE, &arg) : A_NONE;
    int r = real_close(fd);
    if (act == A_ERRNO) { errno = (int)arg; return -1; }
    return r;
}
int fclose(FILE *fp) {
    init_fclose(); int fd = fileno(fp); int s = get_fd(fd);
    if (!s) return real_fclose(fp);
    long arg = 0; note(K_CLOSE, s); set_fd(fd, 0);
    int act = s == 2 ? decide(K_CLOSE, &arg) : A_NONE;
    int r = real_fclose(fp);
    if (act == A_ERRNO) { errno = (int)arg; return EOF; }
    return r;
}

#define READ_BODY(CALL_N) \
    long arg = 0; note(K_READ, (long)n); \
    int act = decide(K_READ, &arg); \
    if (act == A_ERRNO) { errno = (int)arg; return -1; } \
    if (act == A_EINTR) { errno = EINTR; return -1; } \
    if (act == A_SHORT && n > 1) { size_t k = (size_t)arg % n; n = k ? k : 1; } \
    if (act == A_TORN) { return 0; } /* early end of file: the file is shorter than it says */ \
    return CALL_N;

ssize_t read(int fd, void *b, size_t n) { init_read(); if (!get_fd(fd)) return real_read(fd, b, n); READ_BODY(real_read(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { init_pread(); if (!get_fd(fd)) return real_pread(fd, b, n, o); READ_BODY(real_pread(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { init_pread64(); if (!get_fd(fd)) return real_pread64(fd, b, n, o); READ_BODY(real_pread64(fd, b, n, o)) }
ssize_t __read_chk(int fd, void *b, size_t n, size_t z) { (void)z; return read(fd, b, n); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t z) { (void)z; return pread(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t z) { (void)z; return pread64(fd, b, n, o); }

#define WRITE_BODY(CALL_N) \
    long arg = 0; note(K_WRITE, (long)n); \
    int act = decide(K_WRITE, &arg); \
    if (act == A_ERRNO) { errno = (int)arg; return -1; } \
    if (act == A_EINTR) { errno = EINTR; return -1; } \
    if (act == A_SHORT && n > 1) { size_t k = (size_t)arg % n; n = k ? k : 1; } \
    if (act == A_TORN) { n = n > 1 ? (size_t)arg % n : 0; if (n) { ssize_t r_ = CALL_N; (void)r_; } _exit(137); } \
    if (armed && budget >= 0) { \
        if (budget == 0) { fired[K_WRITE][A_ENOSPC_BUDGET]++; errno = ENOSPC; return -1; } \
        if ((long)n > budget) { n = (size_t)budget; fired[K_WRITE][A_ENOSPC_BUDGET]++; } \
        ssize_t r = CALL_N; if (r > 0) budget -= r; return r; } \
    return CALL_N;

ssize_t write(int fd, const void *b, size_t n) { init_write(); if (!get_fd(fd)) return real_write(fd, b, n); WRITE_BODY(real_write(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { init_pwrite(); if (!get_fd(fd)) return real_pwrite(fd, b, n, o); WRITE_BODY(real_pwrite(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { init_pwrite64(); if (!get_fd(fd)) return real_pwrite64(fd, b, n, o); WRITE_BODY(real_pwrite64(fd, b, n, o)) }

size_t fread(void *b, size_t sz, size_t n, FILE *fp) {
    init_fread(); if (!get_fd(fileno(fp))) return real_fread(b, sz, n, fp);
    long arg = 0; note(K_READ, (long)(sz * n));
    int act = decide(K_READ, &arg);
    if (act == A_ERRNO || act == A_EINTR) { fp->_flags |= 0x20; errno = act == A_EINTR ? EINTR : (int)arg; return 0; } /* _IO_ERR_SEEN */
    if (act == A_TORN) { fp->_flags |= 0x10; return 0; }                        /* _IO_EOF_SEEN */
    return real_fread(b, sz, n, fp);
}
size_t __fread_chk(void *b, size_t z, size_t sz, size_t n, FILE *fp) { (void)z; return fread(b, sz, n, fp); }
size_t fwrite(const void *b, size_t sz, size_t n, FILE *fp) {
    init_fwrite(); if (!get_fd(fileno(fp))) return real_fwrite(b, sz, n, fp);
    long arg = 0; note(K_WRITE, (long)(sz * n));
    int act = decide(K_WRITE, &arg);
    if (act == A_ERRNO) { fp->_flags |= 0x20; errno = (int)arg; return 0; }
    if (act == A_TORN) { _exit(137); }
    return real_fwrite(b, sz, n, fp);
}

#define TRUNC_BODY(CALL) \
    long arg = 0; note(K_TRUNC, 1); int act = decide(K_TRUNC, &arg); \
    if (act == A_ERRNO) { errno = (int)arg; return -1; } return CALL;
int ftruncate(int fd, off_t l) { init_ftruncate(); if (!get_fd(fd)) return real_ftruncate(fd, l); TRUNC_BODY(real_ftruncate(fd, l)) }
int ftruncate64(int fd, off64_t l) { init_ftruncate64(); if (!get_fd(fd)) return real_ftruncate64(fd, l); TRUNC_BODY(real_ftruncate64(fd, l)) }

int rename(const char *a, const char *b) {
    init_rename(); if (!in_scope(b)) return real_rename(a, b);
    long arg = 0; note(K_RENAME, 1); int act = decide(K_RENAME, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return -1; }
    return real_rename(a, b);
}
int unlink(const char *a) {
    init_unlink(); if (!in_scope(a)) return real_unlink(a);
    long arg = 0; note(K_UNLINK, 1); int act = decide(K_UNLINK, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return -1; }
    return real_unlink(a);
}
int fsync(int fd) {
    init_fsync(); if (!get_fd(fd)) return real_fsync(fd);
    long arg = 0; note(K_FSYNC, 1); int act = decide(K_FSYNC, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return -1; }
    return 0;   /* the simulated disk is a process-crash disk: no need for the real flush */
}
int statvfs(const char *p, struct statvfs *s) {
    init_statvfs(); if (!in_scope(p)) return real_statvfs(p, s);
    long arg = 0; int act = decide(K_STATVFS, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return -1; }
    int r = real_statvfs(p, s);
    if (r == 0 && act == A_SHORT) s->f_bavail = (fsblkcnt_t)arg;
    return r;
}
int statvfs64(const char *p, struct statvfs64 *s) {
    init_statvfs64(); if (!in_scope(p)) return real_statvfs64(p, s);
    long arg = 0; int act = decide(K_STATVFS, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return -1; }
    int r = real_statvfs64(p, s);
    if (r == 0 && act == A_SHORT) s->f_bavail = (fsblkcnt64_t)arg;
    return r;
}

/* ---- allocator seam: only large requests made by numpy (the data arrays), only while armed.  Allocations inside
 * HDF5, HDF4 and the interpreter are left alone: the first two do not survive a failed one (later opens of the same file
 * keep failing in that process, whatever cis does) and the number of the last kind depends on the process's past. ---- */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static uintptr_t np_lo, np_hi;
static int np_find(struct dl_phdr_info *i, size_t size, void *data) {
    (void)size; (void)data;
    if (!i->dlpi_name || !strstr(i->dlpi_name, "_multiarray_umath")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        if (i->dlpi_phdr[k].p_type != PT_LOAD) continue;
        uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
        if (!np_lo || lo < np_lo) np_lo = lo;
        if (hi > np_hi) np_hi = hi;
    }
    return 1;
}
void sim_alloc_find(void) { np_lo = np_hi = 0; dl_iterate_phdr(np_find, NULL); }
static int alloc_fails(size_t n, uintptr_t ra) {
    if (!armed || (long)n < alloc_threshold || ra < np_lo || ra >= np_hi) return 0;
    long arg = 0;
    int act = decide(K_ALLOC, &arg);
    return act == A_ERRNO;
}
void *malloc(size_t n) { if (alloc_fails(n, (uintptr_t)__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (alloc_fails(a * b, (uintptr_t)__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (alloc_fails(n, (uintptr_t)__builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }


/* ---- directory listings come in an order of the simulator's choosing ---- */
typedef struct { DIR *d; struct dirent64 *e; int n, pos; } listing_t;
static listing_t listings[64];
static listing_t *find_listing(DIR *d) { for (int i = 0; i < 64; i++) if (listings[i].d == d && d) return &listings[i]; return NULL; }
DIR *opendir(const char *path) {
    init_opendir();
    if (!in_scope(path)) return real_opendir(path);
    long arg = 0; note(K_OPENDIR, 1); int act = decide(K_OPENDIR, &arg);
    if (act == A_ERRNO) { errno = (int)arg; return NULL; }
    DIR *d = real_opendir(path);
    if (!d || !dir_seed) return d;
    for (int i = 0; i < 64; i++) {
        listing_t *l = &listings[i];
        if (l->d) continue;
        init_readdir64();
        struct dirent64 *e; int cap = 0;
        l->e = NULL; l->n = l->pos = 0;
        while ((e = real_readdir64(d))) {
            if (l->n == cap) { cap = cap ? cap * 2 : 16; l->e = realloc(l->e, cap * sizeof(*e)); }
            memcpy(&l->e[l->n], e, e->d_reclen < sizeof(*e) ? e->d_reclen : sizeof(*e)); l->n++;
        }
        /* start from a fixed order (the kernel's depends on the file system), then shuffle */
        for (int a = 1; a < l->n; a++) for (int b = a; b > 0 && strcmp(l->e[b - 1].d_name, l->e[b].d_name) > 0; b--) {
            struct dirent64 t = l->e[b]; l->e[b] = l->e[b - 1]; l->e[b - 1] = t; }
        uint64_t x = dir_seed * 6364136223846793005ULL + 1442695040888963407ULL;
        for (int a = l->n - 1; a > 0; a--) {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            int b = (int)((x >> 33) % (uint64_t)(a + 1));
            struct dirent64 t = l->e[a]; l->e[a] = l->e[b]; l->e[b] = t;
        }
        l->d = d;
        break;
    }
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    init_readdir64(); listing_t *l = find_listing(d);
    if (!l) return real_readdir64(d);
    return l->pos < l->n ? &l->e[l->pos++] : NULL;
}
struct dirent *readdir(DIR *d) {
    init_readdir(); listing_t *l = find_listing(d);
    if (!l) return real_readdir(d);
    return l->pos < l->n ? (struct dirent *)&l->e[l->pos++] : NULL;
}
int closedir(DIR *d) {
    init_closedir(); listing_t *l = find_listing(d);
    if (l) { free(l->e); l->e = NULL; l->d = NULL; }
    return real_closedir(d);
}

/* ---- copying inside the kernel ---- */
#define SENDFILE_BODY(CALL) \
    if (!get_fd(out)) return CALL; \
    long arg = 0; note(K_WRITE, 3); int act = decide(K_WRITE, &arg); \
    if (act == A_ERRNO) { errno = (int)arg; return -1; } \
    if (act == A_TORN) _exit(137); \
    return CALL;
ssize_t sendfile(int out, int in, off_t *o, size_t n) { init_sendfile(); SENDFILE_BODY(real_sendfile(out, in, o, n)) }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { init_sendfile64(); SENDFILE_BODY(real_sendfile64(out, in, o, n)) }

/* ---- the wall clock ---- */
static long now_ns(void) { long t = clock_ns; clock_ns += clock_step; return t; }
typedef int (*cg_t)(clockid_t, struct timespec *);
int clock_gettime(clockid_t id, struct timespec *ts) {
    static cg_t real = NULL;
    if (!real) real = (cg_t)dlsym(RTLD_NEXT, "clock_gettime");
    if (clock_on && ts && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long t = now_ns(); ts->tv_sec = t / 1000000000L; ts->tv_nsec = t % 1000000000L; return 0; }
    return real(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    typedef int (*g_t)(struct timeval *, void *);
    static g_t real = NULL;
    if (!real) real = (g_t)dlsym(RTLD_NEXT, "gettimeofday");
    if (clock_on && tv) { long t = now_ns(); tv->tv_sec = t / 1000000000L; tv->tv_usec = (t % 1000000000L) / 1000; return 0; }
    return real(tv, tz);
}
time_t time(time_t *p) {
    typedef time_t (*t_t)(time_t *);
    static t_t real = NULL;
    if (!real) real = (t_t)dlsym(RTLD_NEXT, "time");
    time_t t = clock_on ? (time_t)(now_ns() / 1000000000L) : real(NULL);
    if (p) *p = t;
    return t;
}
