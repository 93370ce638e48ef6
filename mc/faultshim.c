/* LD_PRELOAD shim: counts the file system writes below a directory, and fails or crashes the process at a chosen one.
 *
 * Armed by shim_arm(root, at, mode, arg). An operation is: creating or opening a file for writing, a write, a rename,
 * an unlink, a mkdir, closing a file opened for writing, (mode bit READS) opening for reading or reading.
 * mode 4: this operation, and all later ones, fail with errno arg.
 * mode 0: only count.  1: _exit before the operation.  2: a write writes only arg bytes (all but arg if arg < 0), then _exit;
 * other operations: _exit after it.  3: fails with errno arg, and so do all later writes of that file.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static char root[PATH_MAX];
static int armed, at, mode, arg, count, reads;
static char mine[4096];  /* 1: opened for writing, 2: for reading, 3: failed */
static char log_[65536];
static int loglen;

static void note(const char *op, const char *what) {
    int n = snprintf(log_ + loglen, sizeof log_ - loglen, "%s %s\n", op, what ? what : "");
    if (n > 0 && loglen + n < (int)sizeof log_) loglen += n;
}

void shim_arm(const char *r, int at_, int mode_, int arg_, int reads_) {
    strncpy(root, r, sizeof root - 1);
    at = at_; mode = mode_; arg = arg_; reads = reads_; count = 0; loglen = 0; log_[0] = 0; armed = 1;
    memset(mine, 0, sizeof mine);
}
int shim_disarm(void) { armed = 0; return count; }
const char *shim_log(void) { return log_; }

static int under(int dirfd, const char *p) {
    if (!armed || !p) return 0;
    if (p[0] == '/') return strncmp(p, root, strlen(root)) == 0;
    char cwd[PATH_MAX];
    if (dirfd != AT_FDCWD || !getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, root, strlen(root)) == 0;
}

/* 0: go on; 1: fail with errno set; 2: do it, then die */
static int point(const char *op, const char *what) {
    int me = count++;
    note(op, what);
    if (mode == 4 && me >= at) { errno = arg; return 1; }
    if (me != at) return 0;
    if (mode == 1) _exit(77);
    if (mode == 2) return 2;
    if (mode == 3) { errno = arg; return 1; }
    return 0;
}

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int do_open(int dirfd, const char *path, int flags, mode_t m, int (*go)(int, const char *, int, mode_t)) {
    int w = (flags & (O_WRONLY | O_RDWR)) != 0;
    int u = under(dirfd, path) && (w || (reads && strstr(path, "__pycache__") && !(flags & O_DIRECTORY)));
    int a = u ? point(w ? "open" : "openr", path) : 0;
    if (a == 1) return -1;
    int fd = go(dirfd, path, flags, m);
    if (a == 2) _exit(77);
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = u ? (w ? 1 : 2) : 0;
    return fd;
}
static int go_open(int d, const char *p, int f, mode_t m) { REAL(open); (void)d; return real_open(p, f, m); }
static int go_openat(int d, const char *p, int f, mode_t m) { REAL(openat); return real_openat(d, p, f, m); }

#define MODE_ARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, m, go_open); }
int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, m, go_open); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, m, go_openat); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, m, go_openat); }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (armed && fd >= 0 && fd < (int)sizeof mine && (mine[fd] == 1 || mine[fd] == 3)) {
        if (mine[fd] == 3) { errno = arg; return -1; }
        char b[32];
        snprintf(b, sizeof b, "%zu", n);
        int a = point("write", b);
        if (a == 1) {
            /* a full device: part of it is written */
            if (arg == ENOSPC && n > 1) { real_write(fd, buf, n / 2); errno = arg; }
            mine[fd] = 3;
            return -1;
        }
        if (a == 2) {
            long k = arg < 0 ? (long)n + arg : arg;
            if (k > (long)n) k = (long)n;
            if (k > 0) real_write(fd, buf, (size_t)k);
            _exit(77);
        }
    }
    return real_write(fd, buf, n);
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    if (armed && reads && fd >= 0 && fd < (int)sizeof mine && mine[fd] == 2) {
        int a = point("read", NULL);
        if (a == 1) return -1;
        if (a == 2) _exit(77);
    }
    return real_read(fd, buf, n);
}
int close(int fd) {
    REAL(close);
    if (armed && fd >= 0 && fd < (int)sizeof mine && (mine[fd] == 1 || mine[fd] == 3)) {
        mine[fd] = 0;
        int a = point("close", NULL);
        int r = real_close(fd);
        if (a == 1) { errno = arg; return -1; }
        if (a == 2) _exit(77);
        return r;
    }
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0;
    return real_close(fd);
}
#define WRAP(name, params, args, op, path, dirfd) int name params { REAL(name); int a = under(dirfd, path) ? point(op, path) : 0; \
    if (a == 1) return -1; int r = real_##name args; if (a == 2) _exit(77); return r; }
WRAP(rename, (const char *o, const char *p), (o, p), "rename", p, AT_FDCWD)
WRAP(renameat, (int d, const char *o, int e, const char *p), (d, o, e, p), "rename", p, e)
WRAP(unlink, (const char *p), (p), "unlink", p, AT_FDCWD)
WRAP(unlinkat, (int d, const char *p, int f), (d, p, f), "unlink", p, d)
WRAP(mkdir, (const char *p, mode_t m), (p, m), "mkdir", p, AT_FDCWD)
WRAP(mkdirat, (int d, const char *p, mode_t m), (d, p, m), "mkdir", p, d)
