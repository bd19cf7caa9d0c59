/*
 * Deterministic-simulation seam at the libc boundary (LD_PRELOAD).
 *
 * Every file-system call, clock read, sleep and random read that the process
 * under simulation makes goes through here, whether it comes from CPython,
 * libhdf5, libxml2 or Qt.  While the seam is switched on:
 *
 *  - a call that touches a path below the simulation root is handed to the
 *    simulator's callback, which decides: let it through, fail it with an
 *    errno, cut it short, or (process crash) refuse it and all that follow;
 *  - a call that would CHANGE anything outside the root is refused (EACCES)
 *    and reported to the callback as an escape;
 *  - time comes from the simulated clock; randomness from a seeded stream;
 *  - directory listings below the root are delivered in an order the
 *    simulator chooses.
 *
 * Calls made by the simulator itself (inside the callback, or while the seam
 * is off) pass straight through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum {
    OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_ACCESS, OP_MKDIR,
    OP_RENAME, OP_UNLINK, OP_RMDIR, OP_LISTDIR, OP_LINK, OP_SYMLINK,
    OP_TRUNCATE, OP_CHMOD, OP_UTIME, OP_SYNC, OP_ESCAPE, OP_SLEEP,
    OP_READLINK
};

/* callback verdicts: 0 pass; >0 errno; negative: */
#define V_SHORT (-1)   /* transfer only *out bytes */
#define V_EOF   (-2)   /* read: pretend end of file */
#define V_TORN  (-3)   /* write *out bytes, then fail with ENOSPC/EIO = *out2 */
#define V_CRASH (-9)   /* the process dies here: this call (write: after *out
                          bytes) and every later one of this thread is lost */

typedef int (*cb_t)(int op, const char *path, const char *path2,
                    long a, long b, long *out, long *out2);

volatile int sim_on = 0;
char sim_root[PATH_MAX] = "";
long long sim_real_ns = 0;
long long sim_mono_ns = 0;
long long sim_tick_ns = 1000;
uint64_t sim_rand = 0x9E3779B97F4A7C15ull;
uint64_t sim_dirseed = 0;      /* 0: sorted order */
long sim_clock_reads = 0, sim_rand_reads = 0, sim_dir_perms = 0;
static cb_t sim_cb = 0;
void sim_set_cb(cb_t cb) { sim_cb = cb; }
void sim_set_root(const char *r) { snprintf(sim_root, sizeof sim_root, "%s", r); }

static __thread int in_cb = 0;
static __thread int sim_thread = 0;          /* this thread is simulated code */
void sim_thread_on(int v) { sim_thread = v; }
int sim_get_in_cb(void) { return in_cb; }
static __thread int dead = 0;                /* this simulated process has died */
void sim_set_dead(int v) { dead = v; }
int sim_get_dead(void) { return dead; }
long sim_after_death = 0;                    /* calls refused after a death */
void *sim_exc = 0;                           /* exception class to deliver */
unsigned long sim_exc_thread = 0;            /* Python thread ident */
volatile int sim_interrupt = 0;              /* callback asks for a SIGINT */

/* Deliver an exception to the Python code that is making this call, once the
 * callback has returned (inside it, the callback itself would receive it). */
static void deliver_exc(void)
{
    static int (*gs)(void); static void (*gr)(int);
    static int (*sx)(unsigned long, void *);
    if (!gs) {
        gs = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Ensure");
        gr = (void (*)(int))dlsym(RTLD_DEFAULT, "PyGILState_Release");
        sx = (int (*)(unsigned long, void *))dlsym(RTLD_DEFAULT, "PyThreadState_SetAsyncExc");
    }
    if (!gs || !sx || !sim_exc) return;
    in_cb = 1;
    int st = gs();
    sx(sim_exc_thread, sim_exc);
    gr(st);
    in_cb = 0;
}
static void deliver_int(void)
{
    static void (*si)(void);
    if (!si) si = (void (*)(void))dlsym(RTLD_DEFAULT, "PyErr_SetInterrupt");
    if (si) si();
}

#define ACTIVE (sim_on && sim_thread && !in_cb)

#define MAXFD 8192
static char *fdpath[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void norm(char *p)
{   /* lexical normalisation of an absolute path, in place */
    char *src = p, *dst = p;
    while (*src) {
        while (*src == '/') src++;
        char *s = src;
        while (*src && *src != '/') src++;
        size_t n = src - s;
        if (n == 0) break;
        if (n == 1 && s[0] == '.') continue;
        if (n == 2 && s[0] == '.' && s[1] == '.') {
            while (dst > p && *--dst != '/') ;
            continue;
        }
        *dst++ = '/';
        memmove(dst, s, n);
        dst += n;
    }
    if (dst == p) *dst++ = '/';
    *dst = 0;
}

static int fdname(int fd, char *buf, size_t n)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, l, buf, n - 1);
    if (k < 0) return -1;
    buf[k] = 0;
    return 0;
}

static void absolute(int dirfd, const char *path, char *buf, size_t n)
{
    char base[PATH_MAX];
    buf[0] = 0;
    if (!path) return;
    if (path[0] == '/') snprintf(buf, n, "%s", path);
    else {
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
        } else if (fdname(dirfd, base, sizeof base) < 0) base[0] = 0;
        snprintf(buf, n, "%s/%s", base, path);
    }
    norm(buf);
}

static int under(const char *p)
{
    size_t n = strlen(sim_root);
    return n && strncmp(p, sim_root, n) == 0 && (p[n] == 0 || p[n] == '/');
}

static int harmless(const char *p)
{
    return strncmp(p, "/dev/", 5) == 0 && strncmp(p, "/dev/shm", 8) != 0;
}

static int ask(int op, const char *p, const char *p2, long a, long b, long *out, long *out2)
{
    long o1 = 0, o2 = 0;
    int saved = errno;
    if (!sim_cb) return 0;
    if (dead) { sim_after_death++; return EIO; }
    sim_real_ns += sim_tick_ns;
    sim_mono_ns += sim_tick_ns;
    in_cb = 1;
    sim_interrupt = 0;
    int v = sim_cb(op, p, p2, a, b, out ? out : &o1, out2 ? out2 : &o2);
    in_cb = 0;
    if (sim_interrupt) { sim_interrupt = 0; deliver_int(); }
    if (v == V_CRASH) {
        dead = 1;
        deliver_exc();
        if (op == OP_WRITE && out && *out > 0) { *out2 = EIO; v = V_TORN; }
        else v = EIO;
    }
    errno = saved;
    return v;
}

static void settime(const char *p)
{   /* simulated mtime: the kernel's real clock must not leak in */
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = sim_real_ns / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = sim_real_ns % 1000000000LL;
    syscall(SYS_utimensat, AT_FDCWD, p, ts, 0);
}
static void setparent(const char *p)
{
    char b[PATH_MAX];
    snprintf(b, sizeof b, "%s", p);
    char *s = strrchr(b, '/');
    if (s && s != b) { *s = 0; settime(b); }
}

/* verdict for a path operation. returns 0 = go on, else errno already set and -1 */
static int gate(int op, const char *abs, const char *abs2, long a, int mutates)
{
    int u1 = under(abs), u2 = abs2 ? under(abs2) : 0;
    if (mutates && ((!u1 && !harmless(abs)) || (abs2 && !u2))) {
        ask(OP_ESCAPE, abs, abs2 ? abs2 : "", op, 0, 0, 0);
        errno = EACCES;
        return -1;
    }
    if (!u1 && !u2) return 0;
    int v = ask(op, abs, abs2 ? abs2 : "", a, 0, 0, 0);
    if (v > 0) { errno = v; return -1; }
    return 0;
}

/* ---------------------------------------------------------------- open */
static void track(int fd, const char *abs)
{
    if (fd >= 0 && fd < MAXFD) {
        if (fdpath[fd]) free(fdpath[fd]);
        fdpath[fd] = strdup(abs);
    }
}
static int writing(int flags)
{
    return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    if (!ACTIVE) return syscall(SYS_openat, dirfd, path, flags, mode);
    char abs[PATH_MAX];
    absolute(dirfd, path, abs, sizeof abs);
    if (gate(OP_OPEN, abs, 0, flags, writing(flags))) return -1;
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && under(abs)) {
        int e = errno;
        track(fd, abs);
        if (flags & (O_CREAT | O_TRUNC)) { settime(abs); setparent(abs); }
        errno = e;
    }
    return fd;
}
#define GETMODE mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); \
        mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...)   { GETMODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...)   { GETMODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m)   { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(const char *path, const char *m, FILE *(*real)(const char *, const char *))
{
    if (!ACTIVE) return real(path, m);
    char abs[PATH_MAX];
    absolute(AT_FDCWD, path, abs, sizeof abs);
    int w = m[0] != 'r' || strchr(m, '+');
    if (gate(OP_OPEN, abs, 0, w ? (O_RDWR | O_CREAT) : O_RDONLY, w)) return 0;
    FILE *f = real(path, m);
    if (f && under(abs)) track(fileno(f), abs);
    return f;
}
FILE *fopen(const char *p, const char *m)   { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, real_fopen); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, real_fopen64); }

#define TRACKED(fd) (ACTIVE && (fd) >= 0 && (fd) < MAXFD && fdpath[fd])

size_t fread(void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    int fd = fileno(f);
    if (TRACKED(fd) && s * n) {
        long out = 0;
        int v = ask(OP_READ, fdpath[fd], "", s * n, ftell(f), &out, 0);
        if (v > 0) { errno = v; f->_flags |= 0x20; /* _IO_ERR_SEEN */ return 0; }
        if (v == V_EOF) { f->_flags |= 0x10; return 0; }
        if (v == V_SHORT && s == 1 && out > 0 && out < (long)n) n = out;
    }
    return real_fread(b, s, n, f);
}
int fclose(FILE *f)
{
    REAL(int, fclose, FILE *);
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    return real_fclose(f);
}

/* ---------------------------------------------------------------- read / write */
static ssize_t do_read(int fd, void *buf, size_t n, off64_t off, int pos)
{
    if (TRACKED(fd) && n) {
        long out = 0;
        int v = ask(OP_READ, fdpath[fd], "", n, pos ? off : syscall(SYS_lseek, fd, 0, SEEK_CUR), &out, 0);
        if (v > 0) { errno = v; return -1; }
        if (v == V_EOF) return 0;
        if (v == V_SHORT && out > 0 && (size_t)out < n) n = out;
    }
    return pos ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int n)
{
    if (TRACKED(fd) && n > 0) return do_read(fd, v[0].iov_base, v[0].iov_len, 0, 0);
    return syscall(SYS_readv, fd, v, n);
}

static ssize_t do_write(int fd, const void *buf, size_t n, off64_t off, int pos)
{
    if (TRACKED(fd) && n) {
        char p[PATH_MAX];
        snprintf(p, sizeof p, "%s", fdpath[fd]);
        long out = 0, out2 = 0;
        int v = ask(OP_WRITE, p, "", n, pos ? off : -1, &out, &out2);
        if (v > 0) { errno = v; return -1; }
        if (v == V_TORN) {
            if (out > 0) {
                if (pos) syscall(SYS_pwrite64, fd, buf, (size_t)out < n ? (size_t)out : n, off);
                else syscall(SYS_write, fd, buf, (size_t)out < n ? (size_t)out : n);
                settime(p);
            }
            errno = (int)out2;
            return -1;
        }
        if (v == V_SHORT && out > 0 && (size_t)out < n) n = out;
        ssize_t r = pos ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
        int e = errno;
        settime(p);
        errno = e;
        return r;
    }
    return pos ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (TRACKED(fd) && n > 0) return do_write(fd, v[0].iov_base, v[0].iov_len, 0, 0);
    return syscall(SYS_writev, fd, v, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    if (TRACKED(o) || TRACKED(i)) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f)
{
    if (TRACKED(o) || TRACKED(i)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
}

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        if (TRACKED(fd)) {
            char p[PATH_MAX];
            snprintf(p, sizeof p, "%s", fdpath[fd]);
            free(fdpath[fd]);
            fdpath[fd] = 0;
            ask(OP_CLOSE, p, "", fd, 0, 0, 0);
            return syscall(SYS_close, fd);
        }
        if (!in_cb) { free(fdpath[fd]); fdpath[fd] = 0; }
    }
    return syscall(SYS_close, fd);
}

/* ---------------------------------------------------------------- stat family */
static int stat_gate(int dirfd, const char *path)
{
    char abs[PATH_MAX];
    absolute(dirfd, path, abs, sizeof abs);
    return gate(OP_STAT, abs, 0, 0, 0);
}
#define STATBODY(dirfd, path, flags) \
    if (ACTIVE && !(((flags) & AT_EMPTY_PATH) && path && !path[0]) && stat_gate(dirfd, path)) return -1; \
    return syscall(SYS_newfstatat, dirfd, path, st, flags);
int stat(const char *p, struct stat *st)     { STATBODY(AT_FDCWD, p, 0) }
int stat64(const char *p, struct stat64 *st) { STATBODY(AT_FDCWD, p, 0) }
int lstat(const char *p, struct stat *st)     { STATBODY(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW) }
int lstat64(const char *p, struct stat64 *st) { STATBODY(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW) }
int fstatat(int d, const char *p, struct stat *st, int f)     { STATBODY(d, p, f) }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { STATBODY(d, p, f) }
int statx(int d, const char *p, int f, unsigned m, struct statx *st)
{
    if (ACTIVE && p && p[0] && stat_gate(d, p)) return -1;
    return syscall(SYS_statx, d, p, f, m, st);
}
int access(const char *p, int m)
{
    if (ACTIVE) { char abs[PATH_MAX]; absolute(AT_FDCWD, p, abs, sizeof abs);
        if (gate(OP_ACCESS, abs, 0, m, 0)) return -1; }
    return syscall(SYS_faccessat, AT_FDCWD, p, m, 0);
}
int faccessat(int d, const char *p, int m, int f)
{
    if (ACTIVE) { char abs[PATH_MAX]; absolute(d, p, abs, sizeof abs);
        if (gate(OP_ACCESS, abs, 0, m, 0)) return -1; }
    REAL(int, faccessat, int, const char *, int, int);
    return real_faccessat(d, p, m, f);
}

/* ---------------------------------------------------------------- namespace changes */
static int do_mkdir(int d, const char *p, mode_t m)
{
    if (!ACTIVE) return syscall(SYS_mkdirat, d, p, m);
    char abs[PATH_MAX];
    absolute(d, p, abs, sizeof abs);
    if (!under(abs)) {        /* mkdir -p of an existing parent is not an escape */
        struct stat st;
        if (syscall(SYS_newfstatat, d, p, &st, 0) == 0) { errno = EEXIST; return -1; }
    }
    if (gate(OP_MKDIR, abs, 0, m, 1)) return -1;
    int r = syscall(SYS_mkdirat, d, p, m);
    if (!r) { settime(abs); setparent(abs); }
    return r;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    if (!ACTIVE) return syscall(SYS_renameat2, d1, a, d2, b, fl);
    char x[PATH_MAX], y[PATH_MAX];
    absolute(d1, a, x, sizeof x);
    absolute(d2, b, y, sizeof y);
    if (gate(OP_RENAME, x, y, fl, 1)) return -1;
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    int e = errno;
    if (!r) { setparent(x); setparent(y); }
    errno = e;
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }

static int do_unlink(int d, const char *p, int fl)
{
    if (!ACTIVE) return syscall(SYS_unlinkat, d, p, fl);
    char abs[PATH_MAX];
    absolute(d, p, abs, sizeof abs);
    if (gate(fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, abs, 0, 0, 1)) return -1;
    int r = syscall(SYS_unlinkat, d, p, fl);
    int e = errno;
    if (!r) setparent(abs);
    errno = e;
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int remove(const char *p)
{
    int r = unlink(p);
    return (r && errno == EISDIR) ? rmdir(p) : r;
}

static int do_link(int d1, const char *a, int d2, const char *b, int fl)
{
    if (ACTIVE) {
        char x[PATH_MAX], y[PATH_MAX];
        absolute(d1, a, x, sizeof x);
        absolute(d2, b, y, sizeof y);
        if (gate(OP_LINK, x, y, fl, 1)) return -1;
    }
    return syscall(SYS_linkat, d1, a, d2, b, fl);
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }
static int do_symlink(const char *t, int d, const char *p)
{
    if (ACTIVE) { char abs[PATH_MAX]; absolute(d, p, abs, sizeof abs);
        if (gate(OP_SYMLINK, abs, 0, 0, 1)) return -1; }
    return syscall(SYS_symlinkat, t, d, p);
}
int symlink(const char *t, const char *p) { return do_symlink(t, AT_FDCWD, p); }
int symlinkat(const char *t, int d, const char *p) { return do_symlink(t, d, p); }

static int do_truncate(const char *p, off64_t n)
{
    if (ACTIVE) { char abs[PATH_MAX]; absolute(AT_FDCWD, p, abs, sizeof abs);
        if (gate(OP_TRUNCATE, abs, 0, n, 1)) return -1; }
    return syscall(SYS_truncate, p, n);
}
int truncate(const char *p, off_t n) { return do_truncate(p, n); }
int truncate64(const char *p, off64_t n) { return do_truncate(p, n); }
static int do_ftruncate(int fd, off64_t n)
{
    if (TRACKED(fd)) { int v = ask(OP_TRUNCATE, fdpath[fd], "", n, 0, 0, 0);
        if (v > 0) { errno = v; return -1; } }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftruncate(fd, n); }

static int do_chmod(int d, const char *p, mode_t m)
{
    if (ACTIVE) { char abs[PATH_MAX]; absolute(d, p, abs, sizeof abs);
        if (gate(OP_CHMOD, abs, 0, m, 1)) return -1; }
    return syscall(SYS_fchmodat, d, p, m, 0);
}
int chmod(const char *p, mode_t m) { return do_chmod(AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; return do_chmod(d, p, m); }
int fchmod(int fd, mode_t m)
{
    if (TRACKED(fd)) { int v = ask(OP_CHMOD, fdpath[fd], "", m, 0, 0, 0);
        if (v > 0) { errno = v; return -1; } }
    return syscall(SYS_fchmod, fd, m);
}
int utimensat(int d, const char *p, const struct timespec *ts, int f)
{
    if (ACTIVE && p) { char abs[PATH_MAX]; absolute(d, p, abs, sizeof abs);
        if (gate(OP_UTIME, abs, 0, 0, 1)) return -1; }
    return syscall(SYS_utimensat, d, p, ts, f);
}
int futimens(int fd, const struct timespec *ts) { return syscall(SYS_utimensat, fd, 0, ts, 0); }

static int do_sync(int fd, int nr)
{
    if (TRACKED(fd)) { int v = ask(OP_SYNC, fdpath[fd], "", 0, 0, 0, 0);
        if (v > 0) { errno = v; return -1; } return 0; }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* ---------------------------------------------------------------- directory listing */
struct shadow { DIR *d; struct dirent64 **v; int n, i; struct shadow *next; };
static struct shadow *shadows = 0;
static pthread_mutex_t shadow_mx = PTHREAD_MUTEX_INITIALIZER;

static int cmpent(const void *a, const void *b)
{
    return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static void slurp(DIR *d, const char *abs)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    struct shadow *s = calloc(1, sizeof *s);
    struct dirent64 *e;
    int cap = 0;
    s->d = d;
    while ((e = real_readdir64(d))) {
        if (s->n == cap) s->v = realloc(s->v, (cap = cap ? cap * 2 : 64) * sizeof *s->v);
        s->v[s->n] = malloc(sizeof *e);
        memcpy(s->v[s->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    qsort(s->v, s->n, sizeof *s->v, cmpent);
    if (sim_dirseed) {
        /* order depends on the seed and on the names, not on inode or history */
        uint64_t h = sim_dirseed;
        const char *c = abs + strlen(sim_root);
        while (*c) h = mix(h ^ (unsigned char)*c++);
        for (int i = s->n - 1; i > 0; i--) {
            h = mix(h);
            int j = h % (i + 1);
            struct dirent64 *t = s->v[i]; s->v[i] = s->v[j]; s->v[j] = t;
        }
        sim_dir_perms++;
    }
    pthread_mutex_lock(&shadow_mx);
    s->next = shadows;
    shadows = s;
    pthread_mutex_unlock(&shadow_mx);
}
static struct shadow *findshadow(DIR *d, int unhook)
{
    pthread_mutex_lock(&shadow_mx);
    struct shadow **pp = &shadows, *s;
    while ((s = *pp) && s->d != d) pp = &s->next;
    if (s && unhook) *pp = s->next;
    pthread_mutex_unlock(&shadow_mx);
    return s;
}
DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    if (!ACTIVE) return real_opendir(p);
    char abs[PATH_MAX];
    absolute(AT_FDCWD, p, abs, sizeof abs);
    if (gate(OP_LISTDIR, abs, 0, 0, 0)) return 0;
    DIR *d = real_opendir(p);
    if (d && under(abs)) slurp(d, abs);
    return d;
}
DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int);
    if (!ACTIVE) return real_fdopendir(fd);
    char abs[PATH_MAX];
    if (fdname(fd, abs, sizeof abs) < 0) abs[0] = 0;
    if (gate(OP_LISTDIR, abs, 0, 0, 0)) return 0;
    DIR *d = real_fdopendir(fd);
    if (d && under(abs)) slurp(d, abs);
    return d;
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    struct shadow *s = findshadow(d, 0);
    if (!s) return real_readdir64(d);
    return s->i < s->n ? s->v[s->i++] : 0;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d)
{
    REAL(void, rewinddir, DIR *);
    struct shadow *s = findshadow(d, 0);
    if (s) s->i = 0; else real_rewinddir(d);
}
int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    struct shadow *s = findshadow(d, 1);
    if (s) { for (int i = 0; i < s->n; i++) free(s->v[i]); free(s->v); free(s); }
    int fd = dirfd(d);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    return real_closedir(d);
}

/* ---------------------------------------------------------------- clock, sleep, randomness */
static void simtime(clockid_t c, struct timespec *ts)
{
    sim_clock_reads++;
    sim_real_ns += sim_tick_ns;
    sim_mono_ns += sim_tick_ns;
    long long t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim_real_ns : sim_mono_ns;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (ACTIVE && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE
                   || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW)) {
        simtime(c, ts);
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static int simsleep(long long ns)
{
    if (ns < 0) ns = 0;
    sim_real_ns += ns;
    sim_mono_ns += ns;
    ask(OP_SLEEP, "", "", (long)(ns / 1000), 0, 0, 0);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem)
{
    if (ACTIVE) {
        long long t = r->tv_sec * 1000000000LL + r->tv_nsec;
        if (fl & TIMER_ABSTIME) t -= (c == CLOCK_REALTIME) ? sim_real_ns : sim_mono_ns;
        return simsleep(t);
    }
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
    return real_clock_nanosleep(c, fl, r, rem);
}
int nanosleep(const struct timespec *r, struct timespec *rem)
{
    if (ACTIVE) return simsleep(r->tv_sec * 1000000000LL + r->tv_nsec);
    REAL(int, nanosleep, const struct timespec *, struct timespec *);
    return real_nanosleep(r, rem);
}
ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (ACTIVE) {
        unsigned char *p = b;
        sim_rand_reads++;
        for (size_t i = 0; i < n; i++) { sim_rand = mix(sim_rand); p[i] = (unsigned char)sim_rand; }
        return n;
    }
    return syscall(SYS_getrandom, b, n, f);
}
pid_t getpid(void)
{
    if (ACTIVE) return 4242;
    return syscall(SYS_getpid);
}
