/* LD_PRELOAD monitor and fault injector for file operations below given
 * path prefixes.  Driven from Python through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPFX 16
#define MAXLOG 20000

enum { OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_UNLINK, OP_MKDIR,
       OP_RMDIR, OP_RENAME, OP_SEEK, NOPS };

static char pfx[MAXPFX][512];
static int npfx;
static unsigned char tracked[MAXFD];    /* index of prefix + 1 */
static unsigned char wr[MAXFD];
static pid_t owner;                     /* 0: not armed */
static long seen;                       /* monitored calls so far */
static long nth = -1;                   /* the one to fail */
static int fail_errno;                  /* >0 errno, -1 short transfer */
static int sticky_op = -1;
static int fired;
static unsigned char oplog[MAXLOG];
static unsigned char pxlog[MAXLOG];
static int fired_op = -1, fired_pfx = -1;

static int where_at(int dfd, const char *p)
{
    char buf[2048], link[64];
    if (!p) return 0;
    if (p[0] != '/') {
        if (dfd == AT_FDCWD) {
            if (!getcwd(buf, sizeof buf - 1)) return 0;
        } else {
            snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
            ssize_t r = readlink(link, buf, sizeof buf - 1);
            if (r <= 0) return 0;
            buf[r] = 0;
        }
        size_t n = strlen(buf);
        snprintf(buf + n, sizeof buf - n, "/%s", p);
        p = buf;
    }
    for (int i = 0; i < npfx; i++) {
        size_t n = strlen(pfx[i]);
        if (!strncmp(p, pfx[i], n) && (p[n] == 0 || p[n] == '/'))
            return i + 1;
    }
    return 0;
}

static int where(const char *p) { return where_at(AT_FDCWD, p); }

/* opening a directory for its names is no operation on a file (and how
 * removal of a directory begins) */
static int is_dir(int dfd, const char *p)
{
    struct stat st;
    int e = errno;
    int r = fstatat(dfd, p, &st, 0) == 0 && S_ISDIR(st.st_mode);
    errno = e;
    return r;
}

/* 0: go on; >0 errno to return; -1 short transfer */
static int hit(int op, int px)
{
    if (!owner || !px || getpid() != owner) return 0;
    long k = seen++;
    if (k < MAXLOG) { oplog[k] = op; pxlog[k] = px - 1; }
    if (k == nth) {
        fired = 1; fired_op = op; fired_pfx = px - 1;
        return fail_errno;
    }
    if (fired && sticky_op == op) return fail_errno;
    return 0;
}

void shim_prefix(const char *p) { if (npfx < MAXPFX) strncpy(pfx[npfx++], p, 511); }
void shim_fd(int fd, int px, int w) { tracked[fd] = px + 1; wr[fd] = w; }
void shim_arm(long n, int e, int sticky)
{
    seen = 0; nth = n; fail_errno = e; fired = 0;
    sticky_op = sticky; owner = getpid();
}
void shim_disarm(void) { owner = 0; }
long shim_seen(void) { return seen; }
int shim_fired(void) { return fired ? fired_op * 16 + fired_pfx : -1; }
int shim_op(long k) { return k < MAXLOG ? oplog[k] * 16 + pxlog[k] : -1; }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, name)

static int note(int fd, int px, int flags)
{
    if (fd >= 0 && fd < MAXFD && (!owner || getpid() == owner)) {
        tracked[fd] = px;
        wr[fd] = (flags & O_ACCMODE) != O_RDONLY;
    }
    return fd;
}

#define OPENBODY(dfd, call) \
    mode_t mode = 0; \
    if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    int px = where_at(dfd, path); \
    if (px && ((flags & O_TMPFILE) == O_TMPFILE || \
               !((flags & O_DIRECTORY) || is_dir(dfd, path)))) { \
        int e = hit((flags & O_ACCMODE) == O_RDONLY ? OP_OPENR : OP_OPENW, px); \
        if (e > 0) { errno = e; return -1; } } \
    return note(call, px, flags);

int open(const char *path, int flags, ...)
{ REAL(int, "open", const char *, int, ...); OPENBODY(AT_FDCWD, real(path, flags, mode)) }
int open64(const char *path, int flags, ...)
{ REAL(int, "open64", const char *, int, ...); OPENBODY(AT_FDCWD, real(path, flags, mode)) }
int openat(int dfd, const char *path, int flags, ...)
{ REAL(int, "openat", int, const char *, int, ...); OPENBODY(dfd, real(dfd, path, flags, mode)) }
int openat64(int dfd, const char *path, int flags, ...)
{ REAL(int, "openat64", int, const char *, int, ...); OPENBODY(dfd, real(dfd, path, flags, mode)) }
int __open_2(const char *path, int flags)
{ return open(path, flags); }
int __open64_2(const char *path, int flags)
{ return open64(path, flags); }

static int px_of(int fd) { return fd >= 0 && fd < MAXFD ? tracked[fd] : 0; }

ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, "read", int, void *, size_t);
    int e = n ? hit(OP_READ, px_of(fd)) : 0;
    if (e > 0) { errno = e; return -1; }
    if (e < 0 && n > 1) n = (n + 1) / 2;
    return real(fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { return read(fd, b, n); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    int e = n ? hit(OP_WRITE, px_of(fd)) : 0;
    if (e > 0) { errno = e; return -1; }
    if (e < 0 && n > 1) n = (n + 1) / 2;
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    int e = hit(OP_WRITE, px_of(fd));
    if (e > 0) { errno = e; return -1; }
    return real(fd, v, c);
}

int close(int fd)
{
    REAL(int, "close", int);
    int px = px_of(fd);
    int e = px && wr[fd] ? hit(OP_CLOSE, px) : 0;
    if (px && (!owner || getpid() == owner)) tracked[fd] = 0;
    int r = real(fd);
    if (e > 0) { errno = e; return -1; }
    return r;
}

int unlink(const char *p)
{
    REAL(int, "unlink", const char *);
    int e = hit(OP_UNLINK, where(p));
    if (e > 0) { errno = e; return -1; }
    return real(p);
}
int unlinkat(int d, const char *p, int f)
{
    REAL(int, "unlinkat", int, const char *, int);
    int e = hit(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, where_at(d, p));
    if (e > 0) { errno = e; return -1; }
    return real(d, p, f);
}
int mkdir(const char *p, mode_t m)
{
    REAL(int, "mkdir", const char *, mode_t);
    int e = hit(OP_MKDIR, where(p));
    if (e > 0) { errno = e; return -1; }
    return real(p, m);
}
int rmdir(const char *p)
{
    REAL(int, "rmdir", const char *);
    int e = hit(OP_RMDIR, where(p));
    if (e > 0) { errno = e; return -1; }
    return real(p);
}
int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    int e = hit(OP_RENAME, where(a) ? where(a) : where(b));
    if (e > 0) { errno = e; return -1; }
    return real(a, b);
}
off_t lseek(int fd, off_t o, int w)
{
    REAL(off_t, "lseek", int, off_t, int);
    return real(fd, o, w);
}
