// Simulated storage for the Python side: preloaded between the interpreter and the C library. Calls on files below one directory
// are counted, logged and made to fail as planned; everything else passes through. Exactly one thread uses it.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NFAULT = 16, NFD = 1024, LOGSZ = 1 << 20 };
// what a fault does
enum { F_ERR = 0, F_SHORT = 1, F_EINTR = 2, F_KILL = 3, F_LOST = 4, F_SIGINT = 5 };
// calls
enum { K_OPEN, K_WRITE, K_CLOSE, K_MKDIR, K_FSYNC, K_RENAME, K_TRUNC, K_UNLINK, K_ROPEN, K_READ, K_N };
static const char *const kname[] = {"open", "write", "close", "mkdir", "fsync", "rename", "truncate", "unlink", "ropen", "read"};
struct fault { int call, nth, what, err, sticky, arg; };
static struct fault fl[NFAULT];
static int nfl, active, reads;           // reads: reading files is simulated, too
static char root[PATH_MAX]; static size_t rootlen;
static long quota = -1;               // bytes that can still be written, -1: no limit
static int cnt[K_N];
static int fired_hard, fired_soft;
static char fdpath[NFD][256]; static char fdopen_[NFD], fdread[NFD]; static long lastwrite[NFD];
static char logbuf[LOGSZ]; static size_t logn;
static char hardname[512];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static void lg(const char *f, ...) {
    if (logn > LOGSZ - 600) return;
    va_list a; va_start(a, f); logn += vsnprintf(logbuf + logn, 512, f, a); va_end(a);
    if (logn > LOGSZ - 1) logn = LOGSZ - 1;
}
static int below(int dfd, const char *p, char *out) {  // path relative to the root, or 0
    char full[PATH_MAX * 2];
    if (!rootlen || !p) return 0;
    if (p[0] == '/') snprintf(full, sizeof full, "%s", p);
    else {
        char base[PATH_MAX];
        if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
        snprintf(full, sizeof full, "%s/%s", base, p);
    }
    if (strncmp(full, root, rootlen) || (full[rootlen] != '/' && full[rootlen])) return 0;
    snprintf(out, 256, "%s", full[rootlen] ? full + rootlen + 1 : ".");
    return 1;
}
static struct fault *hit(int call) {
    int n = ++cnt[call];
    static long total; if (++total > 200000) _exit(78);
    for (int i = 0; i < nfl; i++)
        if (fl[i].call == call && (fl[i].nth == n || (fl[i].sticky && n >= fl[i].nth))) return &fl[i];
    return NULL;
}
static int hard_reads;
static void hard(int call, const char *name, int err) { fired_hard++; if (call >= K_ROPEN) hard_reads++; snprintf(hardname, sizeof hardname, "%s of %s: %s", kname[call], name, strerror(err)); }
static int generic(int call, const char *name, struct fault *f) {  // 1: fail with errno set
    if (!f) return 0;
    if (f->what == F_KILL) { lg("%s %s killed\n", kname[call], name); _exit(77); }
    if (f->what == F_EINTR) { fired_soft++; lg("%s %s EINTR\n", kname[call], name); errno = EINTR; return 1; }
    if (f->what == F_SIGINT) { fired_soft++; lg("%s %s signal\n", kname[call], name); raise(SIGINT); errno = EINTR; return 1; }
    hard(call, name, f->err); lg("%s %s error %d\n", kname[call], name, f->err); errno = f->err; return 1;
}

// ---- control, called through ctypes
void fs_root(const char *r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); }
void fs_clear(void) { nfl = 0; quota = -1; memset(cnt, 0, sizeof cnt); }
void fs_fault(int call, int nth, int what, int err, int sticky, int arg) { if (nfl < NFAULT) { struct fault f = {call, nth, what, err, sticky, arg}; fl[nfl++] = f; } }
void fs_quota(long q) { quota = q; }
void fs_active(int a) { active = a; }
void fs_reads(int a) { reads = a; }
int fs_hard(void) { return fired_hard; }
int fs_hardreads(void) { return hard_reads; }
int fs_soft(void) { return fired_soft; }
const char *fs_hardname(void) { return hardname; }
int fs_count(int k) { return cnt[k]; }
const char *fs_log(void) { logbuf[logn] = 0; return logbuf; }
int fs_openfds(void) { int n = 0; for (int i = 0; i < NFD; i++) n += fdopen_[i]; return n; }

// ---- the calls
static int opened(int fd, const char *rel, int flags) {
    if (fd >= 0 && fd < NFD && (flags & O_ACCMODE) != O_RDONLY) { fdopen_[fd] = 1; snprintf(fdpath[fd], 256, "%s", rel); lastwrite[fd] = 0; }
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
static int do_open(int dfd, const char *p, int flags, mode_t m) {
    REAL(int, "openat64", int, const char *, int, ...);
    char rel[256];
    if (active && below(dfd, p, rel) && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))) {
        if (generic(K_OPEN, rel, hit(K_OPEN))) return -1;
        int fd = real(dfd, p, flags, m);
        lg("open %s %s%s%s -> %s\n", rel, flags & O_APPEND ? "a" : "", flags & O_TRUNC ? "t" : "", flags & O_EXCL ? "x" : "", fd < 0 ? strerror(errno) : "ok");
        return opened(fd, rel, flags);
    }
    if (active && reads && below(dfd, p, rel) && !(flags & O_DIRECTORY)) {
        if (generic(K_ROPEN, rel, hit(K_ROPEN))) return -1;
        int fd = real(dfd, p, flags, m);
        lg("ropen %s -> %s\n", rel, fd < 0 ? strerror(errno) : "ok");
        if (fd >= 0 && fd < NFD) { fdread[fd] = 1; snprintf(fdpath[fd], 256, "%s", rel); }
        return fd;
    }
    return real(dfd, p, flags, m);
}
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

// (what C++ streams use)
static int wants_write(const char *m) { return m[0] != 'r' || strchr(m, '+'); }
static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *p, const char *m) {
    char rel[256];
    if (!active || !wants_write(m) || !below(AT_FDCWD, p, rel)) return real(p, m);
    if (generic(K_OPEN, rel, hit(K_OPEN))) return NULL;
    FILE *f = real(p, m);
    lg("open %s %s -> %s\n", rel, m, f ? "ok" : strerror(errno));
    if (f) opened(fileno(f), rel, O_WRONLY);
    return f;
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, "fopen", const char *, const char *); return do_fopen(real, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, "fopen64", const char *, const char *); return do_fopen(real, p, m); }

static int readable(int fd) { return active && reads && fd >= 0 && fd < NFD && fdread[fd]; }
static ssize_t rlimit_(int fd, size_t n) {  // how much may be read; -1 with errno
    struct fault *f = hit(K_READ);
    if (f && f->what == F_SHORT) { if (n > 1) { fired_soft++; n = 1 + (size_t)f->arg % (n < 64 ? n - 1 : 63); lg("read %s short\n", fdpath[fd]); } f = NULL; }
    return generic(K_READ, fdpath[fd], f) ? -1 : (ssize_t)n;
}
static ssize_t got(int fd, ssize_t r) { lg("read %s %zd\n", fdpath[fd], r); return r; }
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (!readable(fd)) return real(fd, b, n);
    ssize_t k = rlimit_(fd, n); if (k < 0) return -1;
    return got(fd, real(fd, b, k));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pread64", int, void *, size_t, off64_t);
    if (!readable(fd)) return real(fd, b, n, o);
    ssize_t k = rlimit_(fd, n); if (k < 0) return -1;
    return got(fd, real(fd, b, k, o));
}
static int mine(int fd) { return active && fd >= 0 && fd < NFD && fdopen_[fd]; }
static ssize_t limit(int fd, size_t n) {  // how much may be written; -1 with errno
    struct fault *f = hit(K_WRITE);
    if (f && f->what == F_SHORT && n > 1) { fired_soft++; n = 1 + (size_t)f->arg % (n - 1); lg("write %s short\n", fdpath[fd]); f = NULL; }
    else if (f && f->what == F_SHORT) f = NULL;
    if (generic(K_WRITE, fdpath[fd], f)) return -1;
    if (quota >= 0) {
        if (quota == 0 && n) { hard(K_WRITE, fdpath[fd], ENOSPC); lg("write %s full\n", fdpath[fd]); errno = ENOSPC; return -1; }
        if ((long)n > quota) n = quota;
        quota -= n;
    }
    return n;
}
static ssize_t wrote(int fd, ssize_t r) { if (r > 0) lastwrite[fd] = r; lg("write %s %zd\n", fdpath[fd], r); return r; }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!mine(fd)) return real(fd, b, n);
    ssize_t k = limit(fd, n); if (k < 0) return -1;
    return wrote(fd, real(fd, b, k));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (!mine(fd)) return real(fd, b, n, o);
    ssize_t k = limit(fd, n); if (k < 0) return -1;
    return wrote(fd, real(fd, b, k, o));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!mine(fd)) return real(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);  // a short write
    return 0;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (!mine(out)) return real(out, in, o, n);
    ssize_t k = limit(out, n); if (k < 0) return -1;
    return wrote(out, real(out, in, o, k));
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fg) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!mine(out)) return real(in, oi, out, oo, n, fg);
    ssize_t k = limit(out, n); if (k < 0) return -1;
    return wrote(out, real(in, oi, out, oo, k, fg));
}
static int do_close(int fd, int (*real)(void *), void *x) {
    struct fault *f = hit(K_CLOSE);
    char name[256]; strcpy(name, fdpath[fd]);
    fdopen_[fd] = 0;
    if (f && f->what == F_KILL) generic(K_CLOSE, name, f);
    if (f && (f->what == F_EINTR || f->what == F_SIGINT || f->what == F_SHORT)) f = NULL;
    if (f && f->what == F_LOST && lastwrite[fd] > 0) {  // written back late: the last write was lost
        struct stat st;
        if (!fstat(fd, &st) && st.st_size >= lastwrite[fd] && ftruncate(fd, st.st_size - lastwrite[fd])) { }
    }
    int r = real(x);
    if (f) { hard(K_CLOSE, name, f->err); lg("close %s error %d\n", name, f->err); errno = f->err; return -1; }
    lg("close %s\n", name);
    return r;
}
static int real_close(void *x) { REAL(int, "close", int); return real((int)(long)x); }
static int real_fclose(void *x) { REAL(int, "fclose", FILE *); return real(x); }
int close(int fd) {
    if (mine(fd)) return do_close(fd, real_close, (void *)(long)fd);
    if (fd >= 0 && fd < NFD) fdopen_[fd] = fdread[fd] = 0;
    return real_close((void *)(long)fd);
}
int fclose(FILE *f) {
    int fd = fileno(f);
    if (mine(fd)) return do_close(fd, real_fclose, f);
    if (fd >= 0 && fd < NFD) fdopen_[fd] = fdread[fd] = 0;
    return real_fclose(f);
}
static int sync_(int fd, int (*real)(int)) {
    if (!mine(fd)) return real(fd);
    if (generic(K_FSYNC, fdpath[fd], hit(K_FSYNC))) return -1;
    lg("fsync %s\n", fdpath[fd]);
    return real(fd);
}
int fsync(int fd) { REAL(int, "fsync", int); return sync_(fd, real); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); return sync_(fd, real); }
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t);
    if (mine(fd)) { if (generic(K_TRUNC, fdpath[fd], hit(K_TRUNC))) return -1; lg("truncate %s %ld\n", fdpath[fd], (long)n); }
    return real(fd, n);
}
int truncate64(const char *p, off64_t n) {
    REAL(int, "truncate64", const char *, off64_t); char rel[256];
    if (active && below(AT_FDCWD, p, rel)) { if (generic(K_TRUNC, rel, hit(K_TRUNC))) return -1; lg("truncate %s %ld\n", rel, (long)n); }
    return real(p, n);
}
static int dirop(int call, int d, const char *p) {
    char rel[256];
    if (!active || !below(d, p, rel)) return 0;
    if (generic(call, rel, hit(call))) return -1;
    lg("%s %s\n", kname[call], rel);
    return 0;
}
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); return dirop(K_MKDIR, AT_FDCWD, p) ? -1 : real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); return dirop(K_MKDIR, d, p) ? -1 : real(d, p, m); }
int unlink(const char *p) { REAL(int, "unlink", const char *); return dirop(K_UNLINK, AT_FDCWD, p) ? -1 : real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); return dirop(K_UNLINK, d, p) ? -1 : real(d, p, f); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); return dirop(K_RENAME, AT_FDCWD, b) ? -1 : real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); return dirop(K_RENAME, e, b) ? -1 : real(d, a, e, b); }

// ---- other sources of nondeterminism: randomness, process numbers and clocks depend on nothing but how often they were asked for
#include <sys/random.h>
#include <sys/time.h>
#include <time.h>
static unsigned long rstate = 88172645463325252UL;
static long ticks;
ssize_t getrandom(void *b, size_t n, unsigned f) {
    REAL(ssize_t, "getrandom", void *, size_t, unsigned);
    if (!active) return real(b, n, f);
    for (size_t i = 0; i < n; i++) { rstate ^= rstate << 13; rstate ^= rstate >> 7; rstate ^= rstate << 17; ((unsigned char *)b)[i] = rstate >> 24; }
    return n;
}
int getentropy(void *b, size_t n) {
    REAL(int, "getentropy", void *, size_t);
    if (!active) return real(b, n);
    getrandom(b, n, 0);
    return 0;
}
pid_t getpid(void) { REAL(pid_t, "getpid", void); return active ? 4242 : real(); }
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    if (!active) return real(c, t);
    ticks += 1000; t->tv_sec = 1700000000 + ticks / 1000000000; t->tv_nsec = ticks % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *t, void *z) {
    REAL(int, "gettimeofday", struct timeval *, void *);
    if (!active) return real(t, z);
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
