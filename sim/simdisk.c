/* simdisk: the disk and clock seam of the simulator (LD_PRELOAD).
 *
 * Every system call that HDF5 and CPython make on a file below the scratch
 * prefix, and every reading of the wall clock, is offered to one callback
 * installed by the simulator before it happens.  The callback answers
 *      0        do it
 *     -errno    fail it with that errno (close() is done, then fails)
 *      n > 0    (read/write only) transfer at most n bytes: a short transfer
 * Nothing outside the prefix is touched, and with no callback installed the
 * shim is transparent.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_TRUNC, K_FSYNC, K_CLOSE, K_UNLINK,
       K_RENAME, K_FLOCK, K_STAT, K_DUP };

typedef long (*cb_t)(int kind, int fd, long a, long b, const void *buf, const char *path);
typedef int64_t (*clk_t)(void);

static cb_t cb;
static clk_t clk;
static char prefix[PATH_MAX];
static size_t plen;
#define NFD 4096
static unsigned char mine[NFD];

void simdisk_set(cb_t c, const char *pfx) {
    cb = c;
    if (pfx) { strncpy(prefix, pfx, sizeof prefix - 1); plen = strlen(prefix); }
    else plen = 0;
}
void simdisk_set_clock(clk_t c) { clk = c; }
int simdisk_fd(int fd) { return fd >= 0 && fd < NFD && mine[fd]; }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name)

static int ours(const char *p) {
    char cwd[PATH_MAX];
    if (!p || !plen) return 0;
    if (p[0] == '/') return strncmp(p, prefix, plen) == 0;
    return getcwd(cwd, sizeof cwd) && strncmp(cwd, prefix, plen - 1) == 0;
}
static int ourfd(int fd) { return fd >= 0 && fd < NFD && mine[fd]; }

static long ask(int kind, int fd, long a, long b, const void *buf, const char *path) {
    if (!cb) return 0;
    int e = errno;
    long r = cb(kind, fd, a, b, buf, path);
    errno = e;
    return r;
}

static int do_open(int (*real)(const char *, int, ...), const char *p, int fl, mode_t m) {
    if (ours(p)) {
        long r = ask(K_OPEN, -1, fl, m, NULL, p);
        if (r < 0) { errno = (int)-r; return -1; }
        int fd = real(p, fl, m);
        if (fd >= 0 && fd < NFD) {
            mine[fd] = 1;
            ask(K_OPEN, fd, fl, m, NULL, p);
        }
        return fd;
    }
    return real(p, fl, m);
}
#define GETMODE(m, fl) mode_t m = 0; \
    if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int fl, ...) { REAL(int, "open", const char *, int, ...); GETMODE(m, fl); return do_open(real, p, fl, m); }
int open64(const char *p, int fl, ...) { REAL(int, "open64", const char *, int, ...); GETMODE(m, fl); return do_open(real, p, fl, m); }
static int do_openat(int (*real)(int, const char *, int, ...), int d, const char *p, int fl, mode_t m) {
    if (ours(p)) {
        long r = ask(K_OPEN, -1, fl, m, NULL, p);
        if (r < 0) { errno = (int)-r; return -1; }
        int fd = real(d, p, fl, m);
        if (fd >= 0 && fd < NFD) { mine[fd] = 1; ask(K_OPEN, fd, fl, m, NULL, p); }
        return fd;
    }
    return real(d, p, fl, m);
}
int openat(int d, const char *p, int fl, ...) { REAL(int, "openat", int, const char *, int, ...); GETMODE(m, fl); return do_openat(real, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { REAL(int, "openat64", int, const char *, int, ...); GETMODE(m, fl); return do_openat(real, d, p, fl, m); }

#define XFER(kind, off) \
    if (ourfd(fd)) { long r = ask(kind, fd, (long)n, (long)(off), buf, NULL); \
        if (r < 0) { errno = (int)-r; return -1; } \
        if (r > 0 && (size_t)r < n) n = (size_t)r; }
ssize_t read(int fd, void *buf, size_t n) { REAL(ssize_t, "read", int, void *, size_t); XFER(K_READ, lseek(fd, 0, SEEK_CUR)); return real(fd, buf, n); }
ssize_t write(int fd, const void *buf, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); XFER(K_WRITE, lseek(fd, 0, SEEK_CUR)); return real(fd, buf, n); }
ssize_t pread(int fd, void *buf, size_t n, off_t o) { REAL(ssize_t, "pread", int, void *, size_t, off_t); XFER(K_READ, o); return real(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); XFER(K_READ, o); return real(fd, buf, n, o); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); XFER(K_WRITE, o); return real(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); XFER(K_WRITE, o); return real(fd, buf, n, o); }

#define SIMPLE(kind, fd, a) do { if (ourfd(fd)) { long r = ask(kind, fd, (long)(a), 0, NULL, NULL); \
    if (r < 0) { errno = (int)-r; return -1; } } } while (0)
int ftruncate(int fd, off_t l) { REAL(int, "ftruncate", int, off_t); SIMPLE(K_TRUNC, fd, l); return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", int, off64_t); SIMPLE(K_TRUNC, fd, l); return real(fd, l); }
int fsync(int fd) { REAL(int, "fsync", int); SIMPLE(K_FSYNC, fd, 0); return real(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); SIMPLE(K_FSYNC, fd, 0); return real(fd); }
int flock(int fd, int op) { REAL(int, "flock", int, int); SIMPLE(K_FLOCK, fd, op); return real(fd, op); }
int close(int fd) {
    REAL(int, "close", int);
    if (ourfd(fd)) {
        long r = ask(K_CLOSE, fd, 0, 0, NULL, NULL);
        mine[fd] = 0;
        int x = real(fd);
        if (r < 0) { errno = (int)-r; return -1; }
        return x;
    }
    return real(fd);
}
#define PATHOP(kind, p) do { if (ours(p)) { long r = ask(kind, -1, 0, 0, NULL, p); \
    if (r < 0) { errno = (int)-r; return -1; } } } while (0)
int unlink(const char *p) { REAL(int, "unlink", const char *); PATHOP(K_UNLINK, p); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); PATHOP(K_UNLINK, p); return real(d, p, f); }
int rename(const char *p, const char *q) { REAL(int, "rename", const char *, const char *); PATHOP(K_RENAME, p); PATHOP(K_RENAME, q); return real(p, q); }
int truncate64(const char *p, off64_t l) { REAL(int, "truncate64", const char *, off64_t); PATHOP(K_TRUNC, p); return real(p, l); }
int stat64(const char *p, struct stat64 *s) { REAL(int, "stat64", const char *, struct stat64 *); PATHOP(K_STAT, p); return real(p, s); }
int stat(const char *p, struct stat *s) { REAL(int, "stat", const char *, struct stat *); PATHOP(K_STAT, p); return real(p, s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(int, "fstatat64", int, const char *, struct stat64 *, int); PATHOP(K_STAT, p); return real(d, p, s, f); }

/* clock */
int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(int, "clock_gettime", clockid_t, struct timespec *);
    if (clk && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        int e = errno;
        int64_t ns = clk();
        errno = e;
        int64_t s = ns / 1000000000, r = ns % 1000000000;
        if (r < 0) { r += 1000000000; s -= 1; }
        ts->tv_sec = s; ts->tv_nsec = r;
        return 0;
    }
    return real(c, ts);
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

/* a foreign locale: names of days and months are not the English ones */
static int foreign;
void simdisk_set_locale(int f) { foreign = f; }

size_t wcsftime(wchar_t *out, size_t n, const wchar_t *fmt, const struct tm *tm) {
    REAL(size_t, "wcsftime", wchar_t *, size_t, const wchar_t *, const struct tm *);
    if (!foreign) return real(out, n, fmt, tm);
    wchar_t f[512];
    size_t o = 0;
    for (size_t i = 0; fmt[i] && o < 480; i++) {
        if (fmt[i] == L'%' && fmt[i + 1]) {
            wchar_t c = fmt[++i];
            const wchar_t *r = c == L'a' ? L"zq%u" : c == L'A' ? L"zqday%u" : (c == L'b' || c == L'h') ? L"m%m." :
                c == L'B' ? L"month%m" : c == L'p' ? L"zp" : c == L'c' ? L"zq%u %d. m%m. %Y %H.%M.%S" :
                c == L'x' ? L"%d.%m.%y" : c == L'X' ? L"%H.%M.%S" : NULL;
            if (r) { while (*r) f[o++] = *r++; }
            else { f[o++] = L'%'; f[o++] = c; }
        } else f[o++] = fmt[i];
    }
    f[o] = 0;
    return real(out, n, f, tm);
}

/* the system's randomness, once a seed is set */
static uint64_t rnd;
void simdisk_set_random(uint64_t seed) { rnd = seed; }
ssize_t getrandom(void *buf, size_t n, unsigned int fl) {
    REAL(ssize_t, "getrandom", void *, size_t, unsigned int);
    if (!rnd) return real(buf, n, fl);
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        uint64_t z = (rnd += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        p[i] = (unsigned char)((z ^ (z >> 31)) >> 17);
    }
    return (ssize_t)n;
}
