/* Interposes the libc calls that change files.  When armed on a directory, the k-th such call under that directory
   kills the process before it happens (mode 0), after a prefix of the data was written (mode 1), or fails (mode 2). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXEV 4096
static char dir[PATH_MAX];
static size_t dirlen;
static int armed, target, mode, err;
static long torn;
static int nev;
static long sizes[MAXEV];      /* bytes of data of the event, -1 for calls without data */

void vmc_arm(const char *d, int k, int m, long t, int e)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    target = k; mode = m; torn = t; err = e; nev = 0; armed = 1;
}
void vmc_disarm(void) { armed = 0; }
int vmc_count(void) { return nev; }
long vmc_size(int i) { return sizes[i]; }

static int under(const char *p)
{
    char buf[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        return !strncmp(buf, dir, dirlen) && (buf[dirlen] == 0 || buf[dirlen] == '/');
    }
    return !strncmp(p, dir, dirlen) && p[dirlen] == '/';
}
static int fdunder(int fd)
{
    char l[64], buf[PATH_MAX];
    ssize_t n;
    if (!armed) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return !strncmp(buf, dir, dirlen) && buf[dirlen] == '/';
}
/* returns 0: go on; 1: fail with errno; >= 2: write torn bytes, then die */
static int event(long size)
{
    int k = nev++;
    if (k < MAXEV) sizes[k] = size;
    if (k != target) return 0;
    if (mode == 0) _exit(77);
    if (mode == 2) { errno = err; return 1; }
    return 2;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define WR (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)
#define OPENLIKE(fn) \
int fn(const char *p, int fl, ...) { int md = 0; REAL(fn); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); md = va_arg(a, int); va_end(a); } \
    if ((fl & WR) && under(p)) { int r = event(-1); if (r == 1) return -1; if (r) _exit(77); } \
    return real(p, fl, md); }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(fn) \
int fn(int d, const char *p, int fl, ...) { int md = 0; REAL(fn); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); md = va_arg(a, int); va_end(a); } \
    if ((fl & WR) && under(p)) { int r = event(-1); if (r == 1) return -1; if (r) _exit(77); } \
    return real(d, p, fl, md); }
OPENATLIKE(openat)
OPENATLIKE(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (fdunder(fd)) { int r = event((long)n); if (r == 1) return -1; if (r) { if (torn) real(fd, b, torn < (long)n ? torn : (long)n); _exit(77); } }
    return real(fd, b, n);
}
#define PWRITELIKE(fn, off) \
ssize_t fn(int fd, const void *b, size_t n, off o) { REAL(fn); \
    if (fdunder(fd)) { int r = event((long)n); if (r == 1) return -1; if (r) { if (torn) real(fd, b, torn < (long)n ? torn : (long)n, o); _exit(77); } } \
    return real(fd, b, n, o); }
PWRITELIKE(pwrite, off_t)
PWRITELIKE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(writev);
    if (fdunder(fd)) { int r = event(-1); if (r == 1) return -1; if (r) { if (torn && n) { struct iovec w = v[0]; if ((long)w.iov_len > torn) w.iov_len = torn; real(fd, &w, 1); } _exit(77); } }
    return real(fd, v, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(sendfile);
    if (fdunder(o)) { int r = event((long)n); if (r == 1) return -1; if (r) { if (torn) real(o, i, off, torn); _exit(77); } }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(sendfile64);
    if (fdunder(o)) { int r = event((long)n); if (r == 1) return -1; if (r) { if (torn) real(o, i, off, torn); _exit(77); } }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    REAL(copy_file_range);
    if (fdunder(o)) { int r = event((long)n); if (r == 1) return -1; if (r) { if (torn) real(i, io, o, oo, torn, f); _exit(77); } }
    return real(i, io, o, oo, n, f);
}
#define PLAIN { int r = event(-1); if (r == 1) return -1; if (r) _exit(77); }
int rename(const char *a, const char *b) { REAL(rename); if (under(a) || under(b)) PLAIN return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if (under(a) || under(b)) PLAIN return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(renameat2); if (under(a) || under(b)) PLAIN return real(d, a, e, b, f); }
int link(const char *a, const char *b) { REAL(link); if (under(a) || under(b)) PLAIN return real(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(linkat); if (under(a) || under(b)) PLAIN return real(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (under(b)) PLAIN return real(a, b); }
int unlink(const char *a) { REAL(unlink); if (under(a)) PLAIN return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (under(a)) PLAIN return real(d, a, f); }
int truncate(const char *a, off_t n) { REAL(truncate); if (under(a)) PLAIN return real(a, n); }
int truncate64(const char *a, off64_t n) { REAL(truncate64); if (under(a)) PLAIN return real(a, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (fdunder(fd)) PLAIN return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (fdunder(fd)) PLAIN return real(fd, n); }
