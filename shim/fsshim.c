/* LD_PRELOAD seam for file I/O below one directory: records every operation and injects the faults the
   simulator planned.  Inert until fs_enable() is called; operations on other paths are never touched. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

enum { K_OPENW, K_WRITE, K_CLOSEW, K_FSYNC, K_OPENR, K_READ, K_UNLINK, K_RENAME, K_TRUNC, K_CLOSER, NK };
#define MAXFD 4096
#define MAXPLAN 64
static char prefix[PATH_MAX];
static size_t plen;
static int enabled;
static unsigned char fdmode[MAXFD];       /* 0 untracked, 1 read, 2 write */
static int fdfile[MAXFD];
static struct { int kind; long nth; int action; long arg; int hits; } plan[MAXPLAN]; /* action 1 errno 2 short 3 crash */
static int nplan;
static long counts[NK];
static long budget = -1;                  /* bytes that still fit on the disk, -1 unlimited */
static long readcap = 0;                  /* every read returns at most so many bytes, 0 unlimited */
static long writecap = 0;
static int dead;                          /* the process has crashed: nothing reaches the disk any more */
static long fired[4];
static long enospc;
/* log of operations: int32 kind, int32 file, int64 off, int64 len, then path or data */
static char *logbuf;
static size_t loglen, logcap;
static int recording;
static char *names[4096];
static int nnames;

typedef int (*open_t)(const char *, int, ...);
typedef int (*openat_t)(int, const char *, int, ...);
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, pread, int, void *, size_t, off_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate, int, off_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(int, rename, const char *, const char *);
REAL(int, renameat, int, const char *, int, const char *);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(ssize_t, sendfile, int, int, off_t *, size_t);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
static int inited;
static void init(void) {
    if (inited) return;
    inited = 1;
#define L(n) real_##n = dlsym(RTLD_NEXT, #n)
    L(open); L(open64); L(openat); L(openat64); L(close); L(read); L(pread); L(pread64); L(readv); L(write);
    L(pwrite); L(pwrite64); L(writev); L(fsync); L(fdatasync); L(ftruncate); L(ftruncate64); L(unlink);
    L(unlinkat); L(rename); L(renameat); L(copy_file_range); L(sendfile); L(sendfile64);
}

/* ---- control interface (ctypes) */
void fs_enable(const char *p) { init(); strncpy(prefix, p, PATH_MAX - 1); plen = strlen(prefix); enabled = 1; }
void fs_disable(void) { enabled = 0; }
void fs_reset(void) {
    nplan = 0; budget = -1; readcap = writecap = 0; dead = 0; enospc = 0; loglen = 0; recording = 0;
    memset(counts, 0, sizeof counts); memset(fired, 0, sizeof fired);
    for (int i = 0; i < nnames; i++) free(names[i]);
    nnames = 0;
    memset(fdmode, 0, sizeof fdmode);
}
void fs_plan(int kind, long nth, int action, long arg) {
    if (nplan < MAXPLAN) { plan[nplan].kind = kind; plan[nplan].nth = nth; plan[nplan].action = action;
        plan[nplan].arg = arg; plan[nplan].hits = 0; nplan++; }
}
void fs_budget(long n) { budget = n; }
void fs_readcap(long n) { readcap = n; }
void fs_writecap(long n) { writecap = n; }
void fs_record(int on) { recording = on; }
long fs_count(int kind) { return counts[kind]; }
long fs_fired(int action) { return action == 0 ? enospc : fired[action]; }
char *fs_log(void) { return logbuf; }
long fs_loglen(void) { return (long)loglen; }
int fs_dead(void) { return dead; }
const char *fs_name(int i) { return i >= 0 && i < nnames ? names[i] : NULL; }
int fs_leaked(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fdmode[i] == 2; return n; }

static void rec(int kind, int file, int64_t off, const void *data, int64_t len) {
    if (!recording) return;
    size_t need = 24 + (data ? len : 0);
    if (loglen + need > logcap) {
        logcap = (loglen + need) * 2 + 65536;
        logbuf = realloc(logbuf, logcap);
    }
    int32_t h[2] = {kind, file};
    int64_t g[2] = {off, data ? len : -len};
    memcpy(logbuf + loglen, h, 8);
    memcpy(logbuf + loglen + 8, g, 16);
    if (data) memcpy(logbuf + loglen + 24, data, len);
    loglen += need;
}
static int under(const char *p) {
    if (!enabled || !p) return 0;
    return strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0);
}
static int fileid(const char *p) {
    for (int i = 0; i < nnames; i++) if (!strcmp(names[i], p)) return i;
    if (nnames >= 4096) return 4095;
    names[nnames] = strdup(p);
    return nnames++;
}
/* returns the action planned for this operation (0 none), *arg its argument */
static int hit(int kind, long *arg) {
    long n = counts[kind]++;
    for (int i = 0; i < nplan; i++)
        if (plan[i].kind == kind && (plan[i].nth == n || (plan[i].nth < 0 && n >= -plan[i].nth - 1))) {
            plan[i].hits++; fired[plan[i].action]++;
            *arg = plan[i].arg;
            return plan[i].action;
        }
    return 0;
}
static int pre_open(const char *p, int flags, int *tracked) {
    *tracked = 0;
    if (!under(p)) return 0;
    struct stat st;
    if (flags & O_DIRECTORY) return 0;
    if (!stat(p, &st) && S_ISDIR(st.st_mode)) return 0;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    long a;
    *tracked = w ? 2 : 1;
    int act = hit(w ? K_OPENW : K_OPENR, &a);
    if (act == 1) { errno = (int)a; return -1; }
    if (act == 3) dead = 1;
    return 0;
}
static void post_open(const char *p, int flags, int fd, int tracked) {
    if (fd >= 0 && fd < MAXFD) {
        fdmode[fd] = tracked;
        if (tracked) {
            fdfile[fd] = fileid(p);
            if (tracked == 2) rec(K_OPENW, fdfile[fd], (flags & O_TRUNC) ? 1 : 0, NULL, 0);
        }
    }
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE init(); int t; if (pre_open(p, flags, &t)) return -1;
    if (dead && t == 2) flags &= ~O_TRUNC;
    int fd = real_open(p, flags, mode); post_open(p, flags, fd, t); return fd; }
int open64(const char *p, int flags, ...) { MODE init(); int t; if (pre_open(p, flags, &t)) return -1;
    int fd = real_open64(p, flags, mode); post_open(p, flags, fd, t); return fd; }
int openat(int d, const char *p, int flags, ...) { MODE init(); int t; if (pre_open(p, flags, &t)) return -1;
    int fd = real_openat(d, p, flags, mode); post_open(p, flags, fd, t); return fd; }
int openat64(int d, const char *p, int flags, ...) { MODE init(); int t; if (pre_open(p, flags, &t)) return -1;
    int fd = real_openat64(d, p, flags, mode); post_open(p, flags, fd, t); return fd; }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    init();
    if (enabled && fd >= 0 && fd < MAXFD && fdmode[fd]) {
        int w = fdmode[fd] == 2; long a;
        int act = hit(w ? K_CLOSEW : K_CLOSER, &a);
        if (w) rec(K_CLOSEW, fdfile[fd], 0, NULL, 0);
        fdmode[fd] = 0;
        if (act == 1) { real_close(fd); errno = (int)a; return -1; }
    } else if (fd >= 0 && fd < MAXFD) fdmode[fd] = 0;
    return real_close(fd);
}
static ssize_t cap_read(int fd, size_t *n) {
    long a; int act = hit(K_READ, &a);
    if (act == 1) { errno = (int)a; return -1; }
    if (act == 2 && *n > (size_t)a && a > 0) *n = a;
    if (act == 3) return 0;               /* the rest of the file is gone */
    if (readcap && *n > (size_t)readcap) { *n = readcap; fired[2]++; }
    return 1;
}
#define TR(fd) (enabled && (fd) >= 0 && (fd) < MAXFD && fdmode[fd])
ssize_t read(int fd, void *b, size_t n) { init(); if (TR(fd)) { ssize_t r = cap_read(fd, &n); if (r <= 0) return r; } return real_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { init(); if (TR(fd)) { ssize_t r = cap_read(fd, &n); if (r <= 0) return r; } return real_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { init(); if (TR(fd)) { ssize_t r = cap_read(fd, &n); if (r <= 0) return r; } return real_pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) { init(); if (TR(fd) && c > 0) { size_t n = v[0].iov_len; ssize_t r = cap_read(fd, &n); if (r <= 0) return r; return real_read(fd, v[0].iov_base, n); } return real_readv(fd, v, c); }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off, int positioned) {
    long a; int act = hit(K_WRITE, &a);
    if (act == 1) { errno = (int)a; return -1; }
    if (act == 2 && (long)n > a && a > 0) n = a;
    if (act == 3) { dead = 1; }
    if (writecap && n > (size_t)writecap) { n = writecap; fired[2]++; }
    if (budget >= 0) {
        if (budget == 0 && n > 0) { enospc++; errno = ENOSPC; return -1; }
        if ((long)n > budget) n = budget;
        budget -= n;
    }
    if (!positioned) {
        int fl = fcntl(fd, F_GETFL);
        if (fl & O_APPEND) { struct stat st; off = fstat(fd, &st) ? 0 : st.st_size; }
        else off = lseek(fd, 0, SEEK_CUR);
    }
    ssize_t r = positioned ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
    if (r > 0) rec(K_WRITE, fdfile[fd], off, b, r);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { init(); return TR(fd) ? do_write(fd, b, n, 0, 0) : real_write(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { init(); return TR(fd) ? do_write(fd, b, n, o, 1) : real_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { init(); return TR(fd) ? do_write(fd, b, n, o, 1) : real_pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    init();
    if (TR(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); return 0; }
    return real_writev(fd, v, c);
}
static int do_sync(int fd, int (*f)(int)) {
    if (TR(fd)) { long a; int act = hit(K_FSYNC, &a); if (act == 1) { errno = (int)a; return -1; }
        rec(K_FSYNC, fdfile[fd], 0, NULL, 0); return 0; }
    return f(fd);
}
int fsync(int fd) { init(); return do_sync(fd, real_fsync); }
int fdatasync(int fd) { init(); return do_sync(fd, real_fdatasync); }
static int do_trunc(int fd, int64_t n) {
    if (TR(fd)) { long a; int act = hit(K_TRUNC, &a); if (act == 1) { errno = (int)a; return -1; }
        rec(K_TRUNC, fdfile[fd], n, NULL, 0); }
    return real_ftruncate64(fd, n);
}
int ftruncate(int fd, off_t n) { init(); return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { init(); return do_trunc(fd, n); }
int unlink(const char *p) {
    init();
    if (under(p)) { long a; if (hit(K_UNLINK, &a) == 1) { errno = (int)a; return -1; }
        struct stat st; if (!stat(p, &st)) rec(K_UNLINK, fileid(p), 0, NULL, 0); }
    return real_unlink(p);
}
int unlinkat(int d, const char *p, int f) {
    init();
    if (under(p) && !(f & AT_REMOVEDIR)) { long a; if (hit(K_UNLINK, &a) == 1) { errno = (int)a; return -1; } rec(K_UNLINK, fileid(p), 0, NULL, 0); }
    return real_unlinkat(d, p, f);
}
static int pre_rename(const char *o, const char *n) {
    if (under(o) || under(n)) { long a; if (hit(K_RENAME, &a) == 1) { errno = (int)a; return -1; }
        rec(K_RENAME, fileid(o), fileid(n), NULL, 0); }
    return 0;
}
int rename(const char *o, const char *n) { init(); if (pre_rename(o, n)) return -1; return real_rename(o, n); }
int renameat(int d, const char *o, int e, const char *n) { init(); if (pre_rename(o, n)) return -1; return real_renameat(d, o, e, n); }
/* data paths that bypass write(): refuse them for tracked files, callers fall back to read/write */
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { init();
    if (TR(i) || TR(o)) { errno = EXDEV; return -1; } return real_copy_file_range(i, io, o, oo, n, f); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { init(); if (TR(i) || TR(o)) { errno = ENOTSOCK; return -1; } return real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { init(); if (TR(i) || TR(o)) { errno = ENOTSOCK; return -1; } return real_sendfile64(o, i, off, n); }
