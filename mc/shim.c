/* Counts the operations that change files under one directory and kills the
   process at a chosen one.  Loaded with LD_PRELOAD; inactive until cut_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t rootlen;
static volatile int armed;
static long count, target;
static int torn, fault;          /* fault: errno to return instead of dying */
static void (*pausing)(void);    /* called instead of dying */

void cut_arm(const char *dir, long at, int half, int err)
{
    strncpy(root, dir, sizeof root - 1);
    rootlen = strlen(root);
    count = 0;
    target = at;
    torn = half;
    fault = err;
    armed = 1;
}
void cut_pause(void (*fn)(void)) { pausing = fn; }
long cut_disarm(void) { armed = 0; return count; }
long cut_count(void) { return count; }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

static int under(const char *p)
{
    char buf[PATH_MAX];
    if (!p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        size_t n = strlen(buf);
        snprintf(buf + n, sizeof buf - n, "/%s", p);
        p = buf;
        return strncmp(p, root, rootlen) == 0;
    }
    return strncmp(p, root, rootlen) == 0;
}

static int fdunder(int fd)
{
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, root, rootlen) == 0;
}

static void die(void)
{
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

/* 1 if this operation is the chosen one */
static int hit(void)
{
    if (++count != target) return 0;
    if (!pausing) return 1;
    armed = 0;
    pausing();
    armed = 1;
    return 0;
}

/* the whole decision for operations without a partial form */
#define GATE(cond) \
    if (armed && (cond) && hit()) { \
        if (fault) { errno = fault; return -1; } \
        die(); \
    }

static int creates(const char *p, int flags)
{
    struct stat st;
    if (flags & O_TRUNC) return 1;
    if (!(flags & O_CREAT)) return 0;
    return stat(p, &st) != 0;
}

#define OPENBODY(name) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, const char *, int, ...); \
    GATE(under(path) && creates(path, flags)) \
    return real(path, flags, mode);

int open(const char *path, int flags, ...) { OPENBODY("open") }
int open64(const char *path, int flags, ...) { OPENBODY("open64") }

#define OPENATBODY(name) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, int, const char *, int, ...); \
    GATE(under(path) && creates(path, flags)) \
    return real(dir, path, flags, mode);

int openat(int dir, const char *path, int flags, ...) { OPENATBODY("openat") }
int openat64(int dir, const char *path, int flags, ...) { OPENATBODY("openat64") }

int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (armed && fdunder(fd) && hit()) {
        if (torn && n > 1) real(fd, b, n / 2);
        if (fault) { errno = fault; return -1; }
        die();
    }
    return real(fd, b, n);
}

#define PWRITEBODY(name) \
    REAL(ssize_t, name, int, const void *, size_t, off64_t); \
    if (armed && fdunder(fd) && hit()) { \
        if (torn && n > 1) real(fd, b, n / 2, off); \
        if (fault) { errno = fault; return -1; } \
        die(); \
    } \
    return real(fd, b, n, off);

ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { PWRITEBODY("pwrite") }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { PWRITEBODY("pwrite64") }

ssize_t writev(int fd, const struct iovec *v, int k)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    GATE(fdunder(fd))
    return real(fd, v, k);
}

int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); GATE(fdunder(fd)) return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); GATE(fdunder(fd)) return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(int, "truncate", const char *, off_t); GATE(under(p)) return real(p, n); }
int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    GATE(under(a) || under(b))
    return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b)
{
    REAL(int, "renameat", int, const char *, int, const char *);
    GATE(under(a) || under(b))
    return real(d, a, e, b);
}
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); GATE(under(b)) return real(a, b); }
int unlink(const char *p) { REAL(int, "unlink", const char *); GATE(under(p)) return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); GATE(under(p)) return real(d, p, f); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); GATE(under(p)) return real(p, m); }
