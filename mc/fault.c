/* LD_PRELOAD fault injector: counts the operations that can change files under a directory and, at chosen ones,
 * ends the process (before, after or in the middle of a write), fails them, or makes a write short. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, BEFORE, AFTER, TORN, FAIL, SHORT };
#define MAXF 4
static char root[PATH_MAX];
static int armed, count, nf;
static struct { int at, action; long arg; } faults[MAXF];
static char owned[4096];
static char logbuf[1 << 16];
static int loglen;

void fault_reset(const char *dir) { snprintf(root, sizeof root, "%s", dir); count = nf = loglen = 0; logbuf[0] = 0; memset(owned, 0, sizeof owned); }
void fault_add(int at, int action, long arg) { faults[nf].at = at; faults[nf].action = action; faults[nf].arg = arg; nf++; }
void fault_arm(int on) { armed = on; }
int fault_count(void) { return count; }
const char *fault_log(void) { return logbuf; }

static int inside(const char *p) {
    char full[PATH_MAX * 2];
    if (!p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, p);
        p = full;
    }
    return !strncmp(p, root, strlen(root));
}
static int own(int fd) { return fd >= 0 && fd < (int)sizeof owned && owned[fd]; }

/* next fault of this operation: returns its action, arg in *arg */
static int step(const char *name, long size, long *arg) {
    int k = ++count;
    loglen += snprintf(logbuf + loglen, loglen < (int)sizeof logbuf - 64 ? 64 : 0, "%s:%ld ", name, size);
    for (int i = 0; i < nf; i++)
        if (faults[i].at == k) {
            *arg = faults[i].arg;
            if (faults[i].action == BEFORE) _exit(77);
            return faults[i].action;
        }
    return NONE;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define FINISH(call) do { __typeof__(call) r_ = (call); int e_ = errno; if (a == AFTER || a == TORN) _exit(77); errno = e_; return r_; } while (0)
#define GUARD(cond, name, size) long arg = 0; int a = NONE; if (armed && (cond)) { a = step(name, size, &arg); if (a == FAIL) { errno = (int)arg; return -1; } }

static int mutating(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

#define OPENBODY(callreal) \
    int in = armed && inside(path) && mutating(flags); long arg = 0; int a = NONE; \
    if (in) { a = step("open", 0, &arg); if (a == FAIL) { errno = (int)arg; return -1; } } \
    int fd = callreal; int e = errno; \
    if (fd >= 0 && fd < (int)sizeof owned) owned[fd] = in; \
    if (a == AFTER || a == TORN) _exit(77); \
    errno = e; return fd;
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }

int open(const char *path, int flags, ...) { MODE REAL(int, "open", const char *, int, ...); OPENBODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE REAL(int, "open64", const char *, int, ...); OPENBODY(real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { MODE REAL(int, "openat", int, const char *, int, ...); OPENBODY(real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { MODE REAL(int, "openat64", int, const char *, int, ...); OPENBODY(real(d, path, flags, mode)) }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

FILE *fopen(const char *path, const char *m) {
    REAL(FILE *, "fopen", const char *, const char *);
    if (armed && inside(path) && m[0] != 'r') { long arg; int a = step("open", 0, &arg); if (a == FAIL) { errno = (int)arg; return NULL; }
        FILE *f = real(path, m); if (f) owned[fileno(f)] = 1; if (a == AFTER || a == TORN) _exit(77); return f; }
    return real(path, m);
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!armed || !own(fd)) return real(fd, buf, n);
    long arg = 0; int a = step("write", (long)n, &arg);
    if (a == FAIL) { errno = (int)arg; return -1; }
    if (a == TORN) { if ((size_t)arg > n) arg = n; if (arg) real(fd, buf, arg); _exit(77); }
    if (a == SHORT && (size_t)arg < n && arg > 0) return real(fd, buf, arg);
    ssize_t r = real(fd, buf, n); int e = errno; if (a == AFTER) _exit(77); errno = e; return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); GUARD(own(fd), "pwrite", n) FINISH(real(fd, b, n, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); GUARD(own(fd), "pwrite", n) FINISH(real(fd, b, n, o)); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, "writev", int, const struct iovec *, int); GUARD(own(fd), "writev", n) FINISH(real(fd, v, n)); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(ssize_t, "sendfile", int, int, off_t *, size_t); GUARD(own(o), "sendfile", n)
    if (a == TORN || a == SHORT) { ssize_t r = real(o, i, p, (size_t)arg < n ? (size_t)arg : n); if (a == TORN) _exit(77); return r; } FINISH(real(o, i, p, n)); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); GUARD(own(o), "sendfile", n)
    if (a == TORN || a == SHORT) { ssize_t r = real(o, i, p, (size_t)arg < n ? (size_t)arg : n); if (a == TORN) _exit(77); return r; } FINISH(real(o, i, p, n)); }
ssize_t copy_file_range(int i, off64_t *p, int o, off64_t *q, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); GUARD(own(o), "copy_file_range", n) FINISH(real(i, p, o, q, n, f)); }
int rename(const char *x, const char *y) { REAL(int, "rename", const char *, const char *); GUARD(inside(x) || inside(y), "rename", 0) FINISH(real(x, y)); }
int renameat(int d, const char *x, int e2, const char *y) { REAL(int, "renameat", int, const char *, int, const char *); GUARD(1, "rename", 0) FINISH(real(d, x, e2, y)); }
int link(const char *x, const char *y) { REAL(int, "link", const char *, const char *); GUARD(inside(x) || inside(y), "link", 0) FINISH(real(x, y)); }
int symlink(const char *x, const char *y) { REAL(int, "symlink", const char *, const char *); GUARD(inside(y), "symlink", 0) FINISH(real(x, y)); }
int unlink(const char *x) { REAL(int, "unlink", const char *); GUARD(inside(x), "unlink", 0) FINISH(real(x)); }
int unlinkat(int d, const char *x, int f) { REAL(int, "unlinkat", int, const char *, int); GUARD(inside(x) || d != AT_FDCWD, "unlink", 0) FINISH(real(d, x, f)); }
int truncate(const char *x, off_t n) { REAL(int, "truncate", const char *, off_t); GUARD(inside(x), "truncate", n) FINISH(real(x, n)); }
int truncate64(const char *x, off64_t n) { REAL(int, "truncate64", const char *, off64_t); GUARD(inside(x), "truncate", n) FINISH(real(x, n)); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); GUARD(own(fd), "truncate", n) FINISH(real(fd, n)); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); GUARD(own(fd), "truncate", n) FINISH(real(fd, n)); }
int fsync(int fd) { REAL(int, "fsync", int); GUARD(own(fd), "fsync", 0) FINISH(real(fd)); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); GUARD(own(fd), "fsync", 0) FINISH(real(fd)); }
int chmod(const char *x, mode_t m) { REAL(int, "chmod", const char *, mode_t); GUARD(inside(x), "chmod", 0) FINISH(real(x, m)); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); GUARD(own(fd), "chmod", 0) FINISH(real(fd, m)); }
int fchmodat(int d, const char *x, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); GUARD(inside(x), "chmod", 0) FINISH(real(d, x, m, f)); }
int mkdir(const char *x, mode_t m) { REAL(int, "mkdir", const char *, mode_t); GUARD(inside(x), "mkdir", 0) FINISH(real(x, m)); }
int rmdir(const char *x) { REAL(int, "rmdir", const char *); GUARD(inside(x), "rmdir", 0) FINISH(real(x)); }
int close(int fd) {
    REAL(int, "close", int);
    int mine = armed && own(fd);
    long arg = 0;
    int a = mine ? step("close", 0, &arg) : NONE;
    if (mine) owned[fd] = 0;
    int r = real(fd), e = errno;
    if (a == AFTER || a == TORN) _exit(77);
    if (a == FAIL) { errno = (int)arg; return -1; } /* as in Linux the descriptor is gone all the same */
    errno = e;
    return r;
}
