/* LD_PRELOAD recorder: logs every mutation of files below $FSLOG_DIR to $FSLOG_OUT, in order.
   Record: text line "op a b path [path2]\n", for writes followed by the data bytes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char tracked[4096];
static int out = -1;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static void emit(const char *line, const void *data, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (out < 0) {
        const char *p = getenv("FSLOG_OUT");
        REAL(int, "open", const char *, int, ...);
        (void)real;
        if (!p) return;
        int (*op)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
        out = op(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        if (out < 0) return;
    }
    ssize_t (*wr)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (wr(out, line, strlen(line)) < 0) return;
    const char *q = data;
    while (n) { ssize_t k = wr(out, q, n); if (k <= 0) return; q += k; n -= k; }
}
static int mine(const char *p) {
    const char *d = getenv("FSLOG_DIR");
    return d && p && strncmp(p, d, strlen(d)) == 0;
}
static void opened(int fd, const char *path, int flags) {
    char l[8192];
    if (fd < 0) {
        if (mine(path) && (flags & O_ACCMODE) != O_RDONLY) { snprintf(l, sizeof l, "openfail %d %d %s\n", flags, errno, path); emit(l, 0, 0); }
        return;
    }
    if (fd < 4096) tracked[fd] = 0;
    if (!mine(path) || fd >= 4096 || (flags & O_DIRECTORY)) return;
    if ((flags & O_ACCMODE) == O_RDONLY) return;
    tracked[fd] = 1;
    snprintf(l, sizeof l, "open %d %d %s\n", fd, flags, path);
    emit(l, 0, 0);
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); int fd = r(p, flags, m); opened(fd, p, flags); return fd; }
int open64(const char *p, int flags, ...) { MODE int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64"); int fd = r(p, flags, m); opened(fd, p, flags); return fd; }
int openat(int d, const char *p, int flags, ...) { MODE int (*r)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat"); int fd = r(d, p, flags, m); opened(fd, p, flags); return fd; }
int openat64(int d, const char *p, int flags, ...) { MODE int (*r)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat64"); int fd = r(d, p, flags, m); opened(fd, p, flags); return fd; }
ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*r)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    ssize_t k = r(fd, b, n);
    if (k > 0 && fd >= 0 && fd < 4096 && tracked[fd]) { char l[128]; snprintf(l, sizeof l, "write %d %zd -\n", fd, k); emit(l, b, k); }
    return k;
}
int close(int fd) {
    int (*r)(int) = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < 4096 && tracked[fd]) { char l[128]; tracked[fd] = 0; snprintf(l, sizeof l, "close %d 0 -\n", fd); emit(l, 0, 0); }
    return r(fd);
}
static void two(const char *op, const char *a, const char *b, int ok) {
    char l[8192];
    if (ok == 0 && (mine(a) || mine(b))) { snprintf(l, sizeof l, "%s 0 0 %s\n%s\n", op, a, b); emit(l, 0, 0); }
}
int rename(const char *a, const char *b) { int (*r)(const char *, const char *) = dlsym(RTLD_NEXT, "rename"); int k = r(a, b); two("rename", a, b, k); return k; }
int renameat(int x, const char *a, int y, const char *b) { int (*r)(int, const char *, int, const char *) = dlsym(RTLD_NEXT, "renameat"); int k = r(x, a, y, b); two("rename", a, b, k); return k; }
int link(const char *a, const char *b) { int (*r)(const char *, const char *) = dlsym(RTLD_NEXT, "link"); int k = r(a, b); two("link", a, b, k); return k; }
int unlink(const char *a) { int (*r)(const char *) = dlsym(RTLD_NEXT, "unlink"); int k = r(a); if (k == 0 && mine(a)) { char l[8192]; snprintf(l, sizeof l, "unlink 0 0 %s\n", a); emit(l, 0, 0); } return k; }
int unlinkat(int d, const char *a, int f) { int (*r)(int, const char *, int) = dlsym(RTLD_NEXT, "unlinkat"); int k = r(d, a, f); if (k == 0 && mine(a)) { char l[8192]; snprintf(l, sizeof l, "unlink 0 0 %s\n", a); emit(l, 0, 0); } return k; }
int ftruncate(int fd, off_t n) { int (*r)(int, off_t) = dlsym(RTLD_NEXT, "ftruncate"); int k = r(fd, n); if (k == 0 && fd >= 0 && fd < 4096 && tracked[fd]) { char l[128]; snprintf(l, sizeof l, "trunc %d %lld -\n", fd, (long long)n); emit(l, 0, 0); } return k; }
int ftruncate64(int fd, off64_t n) { int (*r)(int, off64_t) = dlsym(RTLD_NEXT, "ftruncate64"); int k = r(fd, n); if (k == 0 && fd >= 0 && fd < 4096 && tracked[fd]) { char l[128]; snprintf(l, sizeof l, "trunc %d %lld -\n", fd, (long long)n); emit(l, 0, 0); } return k; }
int flock(int fd, int op) { int (*r)(int, int) = dlsym(RTLD_NEXT, "flock"); int k = r(fd, op); if (k == 0 && fd >= 0 && fd < 4096 && tracked[fd]) { char l[128]; snprintf(l, sizeof l, "lock %d %d -\n", fd, (op & LOCK_UN) ? 0 : 1); emit(l, 0, 0); } return k; }
