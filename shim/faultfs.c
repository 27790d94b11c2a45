/* LD_PRELOAD recorder and fault injector for the calls a save or an open makes on files below FAULT_DIR.
 *
 * Every such call is numbered and written to FAULT_LOG ("n op fd path args -> result errno").
 * FAULT_KIND says what happens at call number FAULT_AT:
 *   err:N      the call fails with errno N (nothing is done)
 *   all:N      this call and every later open-for-writing, write, sync and rename fails with errno N
 *   short:K    a write or read transfers at most K bytes
 *   full       like all:ENOSPC, but the write at FAULT_AT still transfers FAULT_K bytes
 *   before     the process is killed before the call
 *   after      the process is killed after the call
 *   torn:K     a write transfers K bytes, then the process is killed
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[PATH_MAX];
static size_t dirlen;
static int logfd = -1, ready = 0, at = -1, code = 0, sticky = 0;
static long amount = 0;
static char kind[16];
static long seq = 0;
static int tripped = 0;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

__attribute__((constructor)) static void init(void)
{
    const char *d = getenv("FAULT_DIR"), *l = getenv("FAULT_LOG"), *k = getenv("FAULT_KIND"), *a = getenv("FAULT_AT");
    if (!d || !l)
        return;
    if (!realpath(d, dir))
        return;
    dirlen = strlen(dir);
    logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (k) {
        const char *c = strchr(k, ':');
        size_t n = c ? (size_t)(c - k) : strlen(k);
        if (n < sizeof kind)
            memcpy(kind, k, n);
        if (c)
            amount = atol(c + 1);
        code = (int)amount;
        if (!strcmp(kind, "full"))
            code = ENOSPC;
    }
    at = a ? atoi(a) : -1;
    ready = logfd >= 0;
}

static void note(long n, const char *op, int fd, const char *p, const char *q, long arg, long res, int err)
{
    char b[3 * PATH_MAX];
    int len = snprintf(b, sizeof b, "%ld\t%s\t%d\t%s\t%s\t%ld\t%ld\t%d\n", n, op, fd, p ? p : "", q ? q : "", arg, res, err);
    if (len > 0)
        (void)!syscall(SYS_write, logfd, b, (size_t)len);
}

static void die(void)
{
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;)
        pause();
}

/* absolute path of what is named; the last component need not exist */
static int absolute(int dfd, const char *p, char *out)
{
    char tmp[PATH_MAX], par[PATH_MAX];
    if (!p || !*p || strlen(p) >= PATH_MAX - 2)
        return 0;
    if (p[0] == '/')
        strcpy(tmp, p);
    else {
        char base[PATH_MAX];
        if (dfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0)
                return 0;
        } else {
            char f[64];
            snprintf(f, sizeof f, "/proc/self/fd/%d", dfd);
            ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, f, base, sizeof base - 1);
            if (n < 0)
                return 0;
            base[n] = 0;
        }
        if (strlen(base) + strlen(p) + 2 >= PATH_MAX)
            return 0;
        sprintf(tmp, "%s/%s", base, p);
    }
    char *slash = strrchr(tmp, '/');
    const char *last = slash + 1;
    if (slash == tmp)
        strcpy(par, "/");
    else {
        memcpy(par, tmp, (size_t)(slash - tmp));
        par[slash - tmp] = 0;
    }
    char real[PATH_MAX];
    if (!realpath(par, real)) {
        snprintf(out, PATH_MAX, "%s", tmp);
        return 1;
    }
    snprintf(out, PATH_MAX, "%s/%s", strcmp(real, "/") ? real : "", last);
    return 1;
}

static int inside(const char *p)
{
    return strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0);
}

static int path_in(int dfd, const char *p, char *out)
{
    return ready && absolute(dfd, p, out) && inside(out);
}

static int fd_in(int fd, char *out)
{
    char f[64];
    if (!ready || fd < 0)
        return 0;
    snprintf(f, sizeof f, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, f, out, PATH_MAX - 1);
    if (n < 0)
        return 0;
    out[n] = 0;
    return inside(out);
}

/* class: 'w' changes something and can fail for want of room, 'o' other. Returns the number; sets *fail to an errno
 * to fail with, *limit to a number of bytes (or -1), *kill to 1 (kill after). */
static long enter(char class, int *fail, long *limit, int *kill_after)
{
    *fail = 0;
    *limit = -1;
    *kill_after = 0;
    pthread_mutex_lock(&lock);
    long n = ++seq;
    if (n == at) {
        if (!strcmp(kind, "err"))
            *fail = code;
        else if (!strcmp(kind, "all")) {
            sticky = 1;
            *fail = class == 'w' ? code : 0;
        } else if (!strcmp(kind, "full")) {
            sticky = 1;
            *limit = amount;
            tripped = 1;
        } else if (!strcmp(kind, "short"))
            *limit = amount;
        else if (!strcmp(kind, "before"))
            die();
        else if (!strcmp(kind, "after"))
            *kill_after = 1;
        else if (!strcmp(kind, "torn")) {
            *limit = amount;
            *kill_after = 1;
        }
    } else if (sticky && class == 'w')
        *fail = code;
    pthread_mutex_unlock(&lock);
    return n;
}

static long leave(long n, const char *op, int fd, const char *p, const char *q, long arg, long res, int kill_after)
{
    int e = errno;
    note(n, op, fd, p, q, arg, res, res < 0 ? e : 0);
    if (kill_after)
        die();
    errno = e;
    return res;
}


static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
    char p[PATH_MAX];
    if (!path_in(dfd, path, p))
        return (int)syscall(SYS_openat, dfd, path, flags, mode);
    int fail, kill_after;
    long limit;
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    long n = enter(w ? 'w' : 'o', &fail, &limit, &kill_after);
    int r;
    if (fail) {
        errno = fail;
        r = -1;
    } else
        r = (int)syscall(SYS_openat, dfd, path, flags, mode);
    return (int)leave(n, w ? "openw" : "openr", r, p, "", flags, r, kill_after);
}

#define OPENER(name, large) \
    int name(const char *path, int flags, ...) \
    { \
        mode_t mode = 0; \
        if (flags & (O_CREAT | __O_TMPFILE)) { \
            va_list ap; \
            va_start(ap, flags); \
            mode = va_arg(ap, mode_t); \
            va_end(ap); \
        } \
        return do_open(AT_FDCWD, path, flags | large, mode); \
    }
#define OPENATER(name, large) \
    int name(int dfd, const char *path, int flags, ...) \
    { \
        mode_t mode = 0; \
        if (flags & (O_CREAT | __O_TMPFILE)) { \
            va_list ap; \
            va_start(ap, flags); \
            mode = va_arg(ap, mode_t); \
            va_end(ap); \
        } \
        return do_open(dfd, path, flags | large, mode); \
    }
OPENER(open, 0)
OPENER(open64, O_LARGEFILE)
OPENATER(openat, 0)
OPENATER(openat64, O_LARGEFILE)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC | O_LARGEFILE, m); }

#define CUT(len) (limit >= 0 && (long)(len) > limit ? (size_t)limit : (size_t)(len))

ssize_t write(int fd, const void *buf, size_t len)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return syscall(SYS_write, fd, buf, len);
    int fail, kill_after;
    long limit;
    long n = enter('w', &fail, &limit, &kill_after);
    ssize_t r;
    if (fail || (limit == 0 && tripped)) {
        errno = fail ? fail : ENOSPC;
        r = -1;
    } else
        r = syscall(SYS_write, fd, buf, CUT(len));
    return leave(n, "write", fd, p, "", (long)len, r, kill_after);
}

ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t off)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return syscall(SYS_pwrite64, fd, buf, len, off);
    int fail, kill_after;
    long limit;
    long n = enter('w', &fail, &limit, &kill_after);
    ssize_t r;
    if (fail || (limit == 0 && tripped)) {
        errno = fail ? fail : ENOSPC;
        r = -1;
    } else
        r = syscall(SYS_pwrite64, fd, buf, CUT(len), off);
    return leave(n, "write", fd, p, "", (long)len, r, kill_after);
}

ssize_t pwrite(int fd, const void *buf, size_t len, off_t off) { return pwrite64(fd, buf, len, off); }

ssize_t writev(int fd, const struct iovec *v, int c)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return syscall(SYS_writev, fd, v, c);
    int fail, kill_after;
    long limit, len = 0;
    for (int i = 0; i < c; i++)
        len += (long)v[i].iov_len;
    long n = enter('w', &fail, &limit, &kill_after);
    ssize_t r;
    if (fail || (limit == 0 && tripped)) {
        errno = fail ? fail : ENOSPC;
        r = -1;
    } else if (limit >= 0 && c > 0)
        r = syscall(SYS_write, fd, v[0].iov_base, CUT(v[0].iov_len));
    else
        r = syscall(SYS_writev, fd, v, c);
    return leave(n, "write", fd, p, "", len, r, kill_after);
}

ssize_t read(int fd, void *buf, size_t len)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return syscall(SYS_read, fd, buf, len);
    int fail, kill_after;
    long limit;
    long n = enter('o', &fail, &limit, &kill_after);
    ssize_t r;
    if (fail) {
        errno = fail;
        r = -1;
    } else
        r = syscall(SYS_read, fd, buf, limit == 0 ? 1 : CUT(len));
    return leave(n, "read", fd, p, "", (long)len, r, kill_after);
}

#define FD_CALL(name, tag, number, class) \
    int name(int fd) \
    { \
        char p[PATH_MAX]; \
        if (!fd_in(fd, p)) \
            return (int)syscall(number, fd); \
        int fail, kill_after; \
        long limit; \
        long n = enter(class, &fail, &limit, &kill_after); \
        int r; \
        if (fail) { \
            errno = fail; \
            r = -1; \
        } else \
            r = (int)syscall(number, fd); \
        return (int)leave(n, tag, fd, p, "", 0, r, kill_after); \
    }
FD_CALL(fsync, "sync", SYS_fsync, 'w')
FD_CALL(fdatasync, "sync", SYS_fdatasync, 'w')

int close(int fd)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return (int)syscall(SYS_close, fd);
    int fail, kill_after;
    long limit;
    long n = enter('o', &fail, &limit, &kill_after);
    int r = (int)syscall(SYS_close, fd);   /* closing always closes; an error may still be reported */
    if (fail && r == 0) {
        errno = fail;
        r = -1;
    }
    return (int)leave(n, "close", fd, p, "", 0, r, kill_after);
}

int ftruncate64(int fd, off64_t len)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return (int)syscall(SYS_ftruncate, fd, len);
    int fail, kill_after;
    long limit;
    long n = enter('w', &fail, &limit, &kill_after);
    int r = fail ? (errno = fail, -1) : (int)syscall(SYS_ftruncate, fd, len);
    return (int)leave(n, "truncate", fd, p, "", (long)len, r, kill_after);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

int fchmod(int fd, mode_t mode)
{
    char p[PATH_MAX];
    if (!fd_in(fd, p))
        return (int)syscall(SYS_fchmod, fd, mode);
    int fail, kill_after;
    long limit;
    long n = enter('w', &fail, &limit, &kill_after);
    int r = fail ? (errno = fail, -1) : (int)syscall(SYS_fchmod, fd, mode);
    return (int)leave(n, "chmod", fd, p, "", (long)mode, r, kill_after);
}

static int do_rename(int od, const char *o, int nd, const char *nw, unsigned flags, const char *tag)
{
    char p[PATH_MAX], q[PATH_MAX];
    int a = path_in(od, o, p), b = path_in(nd, nw, q);
    int link = tag[0] == 'l';
    if (!a && !b)
        return link ? (int)syscall(SYS_linkat, od, o, nd, nw, flags) : (int)syscall(SYS_renameat2, od, o, nd, nw, flags);
    int fail, kill_after;
    long limit;
    long n = enter('w', &fail, &limit, &kill_after);
    int r;
    if (fail) {
        errno = fail;
        r = -1;
    } else
        r = link ? (int)syscall(SYS_linkat, od, o, nd, nw, flags) : (int)syscall(SYS_renameat2, od, o, nd, nw, flags);
    return (int)leave(n, tag, -1, p, q, 0, r, kill_after);
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0, "rename"); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0, "rename"); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { return do_rename(od, o, nd, n, f, "rename"); }
int link(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0, "link"); }
int linkat(int od, const char *o, int nd, const char *n, int f) { return do_rename(od, o, nd, n, (unsigned)f, "link"); }

static int do_unlink(int dfd, const char *path, int flags)
{
    char p[PATH_MAX];
    if (!path_in(dfd, path, p))
        return (int)syscall(SYS_unlinkat, dfd, path, flags);
    int fail, kill_after;
    long limit;
    long n = enter('o', &fail, &limit, &kill_after);
    int r = fail ? (errno = fail, -1) : (int)syscall(SYS_unlinkat, dfd, path, flags);
    return (int)leave(n, "unlink", -1, p, "", flags, r, kill_after);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }

ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t len, unsigned flags)
{
    char p[PATH_MAX];
    if (fd_in(out, p)) {          /* have the caller fall back to read and write */
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_copy_file_range, in, io, out, oo, len, flags);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t len)
{
    char p[PATH_MAX];
    if (fd_in(out, p)) {
        errno = ENOSYS;
        return -1;
    }
    return syscall(SYS_sendfile, out, in, off, len);
}
ssize_t sendfile(int out, int in, off_t *off, size_t len) { return sendfile64(out, in, off, len); }
