// LD_PRELOAD seam for file I/O.  Every libc file call that touches a path under the
// armed scratch root is numbered, logged, and may be failed, shortened, torn or turned
// into a process crash according to a plan handed over by the simulator.  With no root
// armed every call goes straight to libc.  The plan is data: no clocks, no randomness.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64
#define LOGCAP (1 << 22)

enum { CL_MUT = 0, CL_READ = 1 };
// actions
enum { A_NONE = 0, A_ERRNO = 1, A_SHORT = 2, A_CRASH_BEFORE = 3, A_CRASH_TORN = 4, A_CRASH_AFTER = 5 };

struct plan { int cls, nth, action, arg, persist; };

static char g_root[PATH_MAX];
static size_t g_rootlen;
static int g_armed;
static struct plan g_plan[MAXPLAN];
static int g_nplan;
static long g_cnt[2];
static long g_fired[8];
static long long g_cap = -1;   // capacity of the simulated disk in bytes written, -1 = infinite
static long long g_used;
static long g_enospc;
static int g_nolink;   // the simulated file system has no hard links
static unsigned char g_track[MAXFD];  // 1 = tracked
static char *g_log;
static size_t g_loglen;
static __thread int g_in;

static void lg(const char *fmt, ...) {
    if (!g_log) return;
    va_list ap; va_start(ap, fmt);
    size_t room = LOGCAP - g_loglen;
    int n = vsnprintf(g_log + g_loglen, room, fmt, ap);
    va_end(ap);
    if (n > 0 && (size_t)n < room) g_loglen += n;
}

#define REAL(name, ret, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int under_root(const char *path, int dirfd, char *out) {
    if (!g_armed || !path) return 0;
    char buf[PATH_MAX];
    if (path[0] == '/') { if (strlen(path) >= sizeof buf) return 0; strcpy(buf, path); }
    else {
        char cwd[PATH_MAX];
        if (dirfd != AT_FDCWD) {
            char lnk[64]; snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(lnk, cwd, sizeof cwd - 1); if (n < 0) return 0; cwd[n] = 0;
        } else if (!getcwd(cwd, sizeof cwd)) return 0;
        if (snprintf(buf, sizeof buf, "%s/%s", cwd, path) >= (int)sizeof buf) return 0;
    }
    // lexical normalisation of "." and ".."
    char norm[PATH_MAX]; size_t n = 0; norm[0] = 0;
    char *save = NULL;
    for (char *t = strtok_r(buf, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { while (n > 0 && norm[n - 1] != '/') n--; if (n > 0) n--; norm[n] = 0; continue; }
        norm[n++] = '/'; strcpy(norm + n, t); n += strlen(t);
    }
    if (strncmp(norm, g_root, g_rootlen) || (norm[g_rootlen] != '/' && norm[g_rootlen] != 0)) return 0;
    if (out) strcpy(out, norm + g_rootlen);
    return 1;
}

static int tracked(int fd) { return g_armed && fd >= 0 && fd < MAXFD && g_track[fd]; }

static void crash(const char *why) { lg("CRASH %s\n", why); 
    if (g_log) { char p[PATH_MAX + 16]; snprintf(p, sizeof p, "%s.iolog", g_root); g_armed = 0;
        int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { if (write(fd, g_log, g_loglen)) {} close(fd); } }
    _exit(77); }

// returns the action for the next op of this class (A_NONE if none) and sets *arg
static int decide(int cls, int *arg) {
    long k = g_cnt[cls]++;
    for (int i = 0; i < g_nplan; i++) {
        struct plan *p = &g_plan[i];
        if (p->cls != cls) continue;
        if (k == p->nth || (p->persist && k >= p->nth)) { g_fired[p->action]++; *arg = p->arg; return p->action; }
    }
    return A_NONE;
}

// ---- control interface (ctypes)
void sim_arm(const char *root) {
    strncpy(g_root, root, sizeof g_root - 1); g_rootlen = strlen(g_root);
    if (!g_log) g_log = malloc(LOGCAP);
    g_loglen = 0; g_log[0] = 0; g_nplan = 0; g_cnt[0] = g_cnt[1] = 0; memset(g_fired, 0, sizeof g_fired);
    memset(g_track, 0, sizeof g_track); g_cap = -1; g_used = 0; g_enospc = 0; g_nolink = 0; g_armed = 1;
}
void sim_plan(int cls, int nth, int action, int arg, int persist) {
    if (g_nplan < MAXPLAN) g_plan[g_nplan++] = (struct plan){cls, nth, action, arg, persist};
}
void sim_clear_plan(void) { g_nplan = 0; g_cap = -1; }
void sim_capacity(long long bytes) { g_cap = bytes < 0 ? -1 : g_used + bytes; }
void sim_nolink(int on) { g_nolink = on; }
void sim_disarm(void) { g_armed = 0; }
long sim_count(int cls) { return g_cnt[cls]; }
long sim_fired(int action) { return g_fired[action]; }
long sim_enospc(void) { return g_enospc; }
const char *sim_log(void) { return g_log ? g_log : ""; }
void sim_pause(int p) { g_in = p; }

// ---- mutating ops on names and files
#define MUT_PRE(desc) \
    int arg = 0, act = decide(CL_MUT, &arg); \
    if (act == A_CRASH_BEFORE) crash(desc); \
    if (act == A_ERRNO) { lg("%ld %s -> errno %d\n", g_cnt[CL_MUT] - 1, desc, arg); errno = arg; return -1; }
#define MUT_POST(desc, r) \
    lg("%ld %s -> %ld\n", g_cnt[CL_MUT] - 1, desc, (long)(r)); \
    if (act == A_CRASH_AFTER || act == A_CRASH_TORN) crash(desc);

static void note_open(int fd, const char *rel) { (void)rel; if (fd >= 0 && fd < MAXFD) g_track[fd] = 1; }

static int do_open(int (*fn)(const char *, int, ...), const char *path, int flags, mode_t mode) {
    char rel[PATH_MAX];
    if (g_in || !under_root(path, AT_FDCWD, rel)) return fn(path, flags, mode);
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) {
        int arg = 0, act = decide(CL_READ, &arg);
        if (act == A_ERRNO) { lg("r%ld openr %s -> errno %d\n", g_cnt[1] - 1, rel, arg); errno = arg; return -1; }
        int fd = fn(path, flags, mode); note_open(fd, rel); lg("r%ld openr %s -> %d\n", g_cnt[1] - 1, rel, fd >= 0 ? 0 : -1); return fd;
    }
    char d[PATH_MAX + 64]; snprintf(d, sizeof d, "open %s %s%s%s", rel, flags & O_CREAT ? "C" : "", flags & O_TRUNC ? "T" : "", flags & O_EXCL ? "X" : "");
    MUT_PRE(d);
    int fd = fn(path, flags, mode); int e = errno; note_open(fd, rel);
    MUT_POST(d, fd >= 0 ? 0 : -e);
    errno = e; return fd;
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    REAL(open, int, const char *, int, ...); return do_open(real_open, path, flags, m);
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    REAL(open64, int, const char *, int, ...); return do_open(real_open64, path, flags, m);
}
static int do_openat(int (*fn)(int, const char *, int, ...), int dfd, const char *path, int flags, mode_t mode) {
    char rel[PATH_MAX];
    if (g_in || !under_root(path, dfd, rel)) return fn(dfd, path, flags, mode);
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) {
        int arg = 0, act = decide(CL_READ, &arg);
        if (act == A_ERRNO) { errno = arg; return -1; }
        int fd = fn(dfd, path, flags, mode); note_open(fd, rel); return fd;
    }
    char d[PATH_MAX + 64]; snprintf(d, sizeof d, "openat %s %s%s%s", rel, flags & O_CREAT ? "C" : "", flags & O_TRUNC ? "T" : "", flags & O_EXCL ? "X" : "");
    MUT_PRE(d);
    int fd = fn(dfd, path, flags, mode); int e = errno; note_open(fd, rel);
    MUT_POST(d, fd >= 0 ? 0 : -e);
    errno = e; return fd;
}
int openat(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    REAL(openat, int, int, const char *, int, ...); return do_openat(real_openat, dfd, path, flags, m);
}
int openat64(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    REAL(openat64, int, int, const char *, int, ...); return do_openat(real_openat64, dfd, path, flags, m);
}
int close(int fd) {
    REAL(close, int, int);
    if (g_in || !tracked(fd)) return real_close(fd);
    g_track[fd] = 0;
    return real_close(fd);
}

typedef ssize_t (*pw_t)(int, const void *, size_t, off_t);
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int positional, const char *nm) {
    REAL(write, ssize_t, int, const void *, size_t);
    REAL(pwrite64, ssize_t, int, const void *, size_t, off_t);
    char d[96]; snprintf(d, sizeof d, "%s n=%zu off=%lld", nm, n, positional ? (long long)off : -1LL);
    int arg = 0, act = decide(CL_MUT, &arg);
    if (act == A_CRASH_BEFORE) crash(d);
    if (act == A_ERRNO) { lg("%ld %s -> errno %d\n", g_cnt[0] - 1, d, arg); errno = arg; return -1; }
    size_t todo = n;
    if ((act == A_SHORT || act == A_CRASH_TORN) && n > 1) { todo = (size_t)((arg % 1000) / 1000.0 * n); if (act == A_SHORT && todo < 1) todo = 1; }
    if (g_cap >= 0) {
        // the disk is full once g_cap bytes were written to new positions (approximated by file growth)
        struct stat st; long long size = fstat(fd, &st) ? 0 : (long long)st.st_size;
        long long pos = positional ? (long long)off : (long long)lseek(fd, 0, SEEK_CUR);
        long long grow = pos + (long long)todo - size; if (grow < 0) grow = 0;
        if (g_used + grow > g_cap) {
            long long can = (long long)todo - (g_used + grow - g_cap);
            if (can <= 0) { g_enospc++; lg("%ld %s -> ENOSPC\n", g_cnt[0] - 1, d); errno = ENOSPC; return -1; }
            todo = can; grow = pos + can - size; if (grow < 0) grow = 0; g_enospc++;
        }
        g_used += grow;
    }
    ssize_t r = todo == 0 ? 0 : (positional ? real_pwrite64(fd, b, todo, off) : real_write(fd, b, todo));
    int e = errno;
    lg("%ld %s -> %zd\n", g_cnt[0] - 1, d, r);
    if (act == A_CRASH_TORN || act == A_CRASH_AFTER) crash(d);
    errno = e; return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write, ssize_t, int, const void *, size_t);
    if (g_in || !tracked(fd)) return real_write(fd, b, n);
    return do_write(fd, b, n, 0, 0, "write");
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite, ssize_t, int, const void *, size_t, off_t);
    if (g_in || !tracked(fd)) return real_pwrite(fd, b, n, o);
    return do_write(fd, b, n, o, 1, "pwrite");
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite64, ssize_t, int, const void *, size_t, off_t);
    if (g_in || !tracked(fd)) return real_pwrite64(fd, b, n, o);
    return do_write(fd, b, n, o, 1, "pwrite");
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev, ssize_t, int, const struct iovec *, int);
    if (g_in || !tracked(fd)) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0, "writev"); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
static ssize_t do_copy(const char *nm, ssize_t (*k)(void *), void *ctx) { MUT_PRE(nm); ssize_t r = k(ctx); int e = errno; MUT_POST(nm, r); errno = e; return r; }
struct sf { ssize_t (*fn)(int, int, off_t *, size_t); int o, i; off_t *p; size_t n; };
static ssize_t sf_go(void *c) { struct sf *s = c; return s->fn(s->o, s->i, s->p, s->n); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
    REAL(sendfile, ssize_t, int, int, off_t *, size_t);
    if (g_in || !tracked(o)) return real_sendfile(o, i, p, n);
    struct sf s = {real_sendfile, o, i, p, n}; return do_copy("sendfile", sf_go, &s);
}
ssize_t sendfile64(int o, int i, off_t *p, size_t n) {
    REAL(sendfile64, ssize_t, int, int, off_t *, size_t);
    if (g_in || !tracked(o)) return real_sendfile64(o, i, p, n);
    struct sf s = {real_sendfile64, o, i, p, n}; return do_copy("sendfile", sf_go, &s);
}
struct cf { ssize_t (*fn)(int, off_t *, int, off_t *, size_t, unsigned); int i; off_t *pi; int o; off_t *po; size_t n; unsigned f; };
static ssize_t cf_go(void *c) { struct cf *s = c; return s->fn(s->i, s->pi, s->o, s->po, s->n, s->f); }
ssize_t copy_file_range(int i, off_t *pi, int o, off_t *po, size_t n, unsigned f) {
    REAL(copy_file_range, ssize_t, int, off_t *, int, off_t *, size_t, unsigned);
    if (g_in || !tracked(o)) return real_copy_file_range(i, pi, o, po, n, f);
    struct cf s = {real_copy_file_range, i, pi, o, po, n, f}; return do_copy("copy_file_range", cf_go, &s);
}
static int do_trunc(int (*fn)(int, off_t), int fd, off_t n) {
    char d[64]; snprintf(d, sizeof d, "ftruncate %lld", (long long)n);
    MUT_PRE(d); int r = fn(fd, n); int e = errno; MUT_POST(d, r); errno = e; return r;
}
int ftruncate(int fd, off_t n) { REAL(ftruncate, int, int, off_t); if (g_in || !tracked(fd)) return real_ftruncate(fd, n); return do_trunc(real_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { REAL(ftruncate64, int, int, off_t); if (g_in || !tracked(fd)) return real_ftruncate64(fd, n); return do_trunc(real_ftruncate64, fd, n); }
static int do_sync(int (*fn)(int), int fd, const char *d) { MUT_PRE(d); int r = fn(fd); int e = errno; MUT_POST(d, r); errno = e; return r; }
int fsync(int fd) { REAL(fsync, int, int); if (g_in || !tracked(fd)) return real_fsync(fd); return do_sync(real_fsync, fd, "fsync"); }
int fdatasync(int fd) { REAL(fdatasync, int, int); if (g_in || !tracked(fd)) return real_fdatasync(fd); return do_sync(real_fdatasync, fd, "fdatasync"); }

static int do_two(int (*fn)(int, const char *, int, const char *, int), int d1, const char *a, int d2, const char *b, int fl, const char *nm) {
    char ra[PATH_MAX] = "?", rb[PATH_MAX] = "?"; under_root(a, d1, ra); under_root(b, d2, rb);
    char d[2 * PATH_MAX + 32]; snprintf(d, sizeof d, "%s %s %s", nm, ra, rb);
    if (g_nolink && nm[0] == 'l') { lg("%s -> EPERM\n", d); errno = EPERM; return -1; }
    MUT_PRE(d); int r = fn(d1, a, d2, b, fl); int e = errno; MUT_POST(d, r ? -e : 0); errno = e; return r;
}
static int k_rename(int d1, const char *a, int d2, const char *b, int fl) { (void)fl; REAL(renameat, int, int, const char *, int, const char *); return real_renameat(d1, a, d2, b); }
static int k_renameat2(int d1, const char *a, int d2, const char *b, int fl) { REAL(renameat2, int, int, const char *, int, const char *, unsigned); return real_renameat2(d1, a, d2, b, fl); }
static int k_link(int d1, const char *a, int d2, const char *b, int fl) { REAL(linkat, int, int, const char *, int, const char *, int); return real_linkat(d1, a, d2, b, fl); }
#define EITHER(d1, a, d2, b) (!g_in && (under_root(a, d1, NULL) || under_root(b, d2, NULL)))
int rename(const char *a, const char *b) { if (!EITHER(AT_FDCWD, a, AT_FDCWD, b)) return k_rename(AT_FDCWD, a, AT_FDCWD, b, 0); return do_two(k_rename, AT_FDCWD, a, AT_FDCWD, b, 0, "rename"); }
int renameat(int d1, const char *a, int d2, const char *b) { if (!EITHER(d1, a, d2, b)) return k_rename(d1, a, d2, b, 0); return do_two(k_rename, d1, a, d2, b, 0, "rename"); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { if (!EITHER(d1, a, d2, b)) return k_renameat2(d1, a, d2, b, f); return do_two(k_renameat2, d1, a, d2, b, f, "rename"); }
int link(const char *a, const char *b) { if (!EITHER(AT_FDCWD, a, AT_FDCWD, b)) return k_link(AT_FDCWD, a, AT_FDCWD, b, 0); return do_two(k_link, AT_FDCWD, a, AT_FDCWD, b, 0, "link"); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { if (!EITHER(d1, a, d2, b)) return k_link(d1, a, d2, b, f); return do_two(k_link, d1, a, d2, b, f, "link"); }
int unlink(const char *a) {
    REAL(unlink, int, const char *); char ra[PATH_MAX];
    if (g_in || !under_root(a, AT_FDCWD, ra)) return real_unlink(a);
    char d[PATH_MAX + 16]; snprintf(d, sizeof d, "unlink %s", ra);
    MUT_PRE(d); int r = real_unlink(a); int e = errno; MUT_POST(d, r ? -e : 0); errno = e; return r;
}
int unlinkat(int dfd, const char *a, int f) {
    REAL(unlinkat, int, int, const char *, int); char ra[PATH_MAX];
    if (g_in || !under_root(a, dfd, ra)) return real_unlinkat(dfd, a, f);
    char d[PATH_MAX + 16]; snprintf(d, sizeof d, "unlink %s", ra);
    MUT_PRE(d); int r = real_unlinkat(dfd, a, f); int e = errno; MUT_POST(d, r ? -e : 0); errno = e; return r;
}

// ---- reads
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int positional) {
    REAL(read, ssize_t, int, void *, size_t);
    REAL(pread64, ssize_t, int, void *, size_t, off_t);
    int arg = 0, act = decide(CL_READ, &arg);
    if (act == A_ERRNO) { lg("r%ld read n=%zu off=%lld -> errno %d\n", g_cnt[1] - 1, n, positional ? (long long)off : -1LL, arg); errno = arg; return -1; }
    size_t todo = n;
    if (act == A_SHORT && n > 1) { todo = (size_t)((arg % 1000) / 1000.0 * n); if (todo < 1) todo = 1; }
    ssize_t r = positional ? real_pread64(fd, b, todo, off) : real_read(fd, b, todo);
    int e = errno;
    lg("r%ld read n=%zu off=%lld -> %zd\n", g_cnt[1] - 1, n, positional ? (long long)off : -1LL, r);
    errno = e; return r;
}
ssize_t read(int fd, void *b, size_t n) { REAL(read, ssize_t, int, void *, size_t); if (g_in || !tracked(fd)) return real_read(fd, b, n); return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread, ssize_t, int, void *, size_t, off_t); if (g_in || !tracked(fd)) return real_pread(fd, b, n, o); return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { REAL(pread64, ssize_t, int, void *, size_t, off_t); if (g_in || !tracked(fd)) return real_pread64(fd, b, n, o); return do_read(fd, b, n, o, 1); }
