/* LD_PRELOAD: numbers the file-modifying libc calls of an armed process and ends it at a chosen one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, count, at, torn;
static char names[4096];

void shim_arm(int k, int t) { armed = 1; count = 0; at = k; torn = t; names[0] = 0; }
int shim_disarm(void) { armed = 0; return count; }
const char *shim_names(void) { return names; }

static int hit(const char *name) {
    if (!armed) return 0;
    if (strlen(names) < sizeof names - 24) { strcat(names, name); strcat(names, " "); }
    return count++ == at;
}
static void die(void) { syscall(SYS_exit_group, 77); }

static size_t part(size_t n) { return torn == 0 ? 0 : torn == 1 ? (n > 1 ? 1 : 0) : torn == 2 ? n / 2 : (n ? n - 1 : 0); }

ssize_t write(int fd, const void *b, size_t n) {
    if (hit("write")) { if (part(n)) syscall(SYS_write, fd, b, part(n)); die(); }
    return syscall(SYS_write, fd, b, n);
}
static ssize_t pw(int fd, const void *b, size_t n, off_t o) {
    if (hit("pwrite")) { if (part(n)) syscall(SYS_pwrite64, fd, b, part(n), o); die(); }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (hit("writev")) { if (torn && n) syscall(SYS_write, fd, v[0].iov_base, part(v[0].iov_len)); die(); }
    return syscall(SYS_writev, fd, v, n);
}
static int mod(int f) { return (f & (O_CREAT | O_TRUNC)) != 0; }
static int op(int dir, const char *p, int f, int m) { if (mod(f) && hit("open")) die(); return syscall(SYS_openat, dir, p, f, m); }
#define OPEN(NAME, DECL, DIR) int NAME DECL { va_list a; va_start(a, f); int m = (f & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return op(DIR, p, f, m); }
OPEN(open, (const char *p, int f, ...), AT_FDCWD)
OPEN(open64, (const char *p, int f, ...), AT_FDCWD)
OPEN(openat, (int d, const char *p, int f, ...), d)
OPEN(openat64, (int d, const char *p, int f, ...), d)
int creat(const char *p, mode_t m) { return op(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
#define CALL(NAME, DECL, SYS, ...) int NAME DECL { if (hit(#NAME)) die(); return syscall(SYS, __VA_ARGS__); }
CALL(rename, (const char *a, const char *b), SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0)
CALL(renameat, (int x, const char *a, int y, const char *b), SYS_renameat2, x, a, y, b, 0)
CALL(renameat2, (int x, const char *a, int y, const char *b, unsigned f), SYS_renameat2, x, a, y, b, f)
CALL(unlink, (const char *a), SYS_unlinkat, AT_FDCWD, a, 0)
CALL(unlinkat, (int d, const char *a, int f), SYS_unlinkat, d, a, f)
CALL(remove, (const char *a), SYS_unlinkat, AT_FDCWD, a, 0)
CALL(ftruncate, (int fd, off_t n), SYS_ftruncate, fd, n)
CALL(ftruncate64, (int fd, off_t n), SYS_ftruncate, fd, n)
CALL(truncate, (const char *a, off_t n), SYS_truncate, a, n)
CALL(link, (const char *a, const char *b), SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)
CALL(linkat, (int x, const char *a, int y, const char *b, int f), SYS_linkat, x, a, y, b, f)
CALL(symlink, (const char *a, const char *b), SYS_symlinkat, a, AT_FDCWD, b)
CALL(fsync, (int fd), SYS_fsync, fd)
CALL(fdatasync, (int fd), SYS_fdatasync, fd)
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (hit("sendfile")) die(); return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { if (hit("sendfile")) die(); return syscall(SYS_sendfile, o, i, off, n); }
