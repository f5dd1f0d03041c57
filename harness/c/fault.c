// Preloaded into the command line tools: fails, shortens or interrupts the chosen calls on files of the scratch directory.
// VH_FAULT="op nth kind sticky"  op: open read write; kind: an errno number, "short", "zero"; VH_FAULT_DIR, VH_FAULT_LOG
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int ready, nth, sticky, err, shorten, zero, count;
static char op[16], kind[16];
static const char *dir, *logf_;
static char mine[4096];   // 1: read, 2: written

static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *f = getenv("VH_FAULT");
    dir = getenv("VH_FAULT_DIR");
    logf_ = getenv("VH_FAULT_LOG");
    if (!f || !dir || sscanf(f, "%15s %d %15s %d", op, &nth, kind, &sticky) != 4) { op[0] = 0; return; }
    if (!strcmp(kind, "short")) shorten = 1;
    else if (!strcmp(kind, "zero")) zero = 1;
    else err = atoi(kind);
}
static int scratch(const char *p) { setup(); return dir && (p[0] != '/' || !strncmp(p, dir, strlen(dir))); }
static void note(const char *s) {
    if (!logf_) return;
    int fd = syscall(SYS_openat, AT_FDCWD, logf_, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd >= 0) { syscall(SYS_write, fd, s, strlen(s)); syscall(SYS_close, fd); }
}
// every path that is opened for writing, made, renamed or removed
static void touch(const char *p) {
    char b[4200];
    if (p && scratch(p) && strlen(p) < 4096 && !strchr(p, '\n')) { snprintf(b, sizeof b, "touch %s\n", p); int e = errno; note(b); errno = e; }
}
static int hit(const char *what) {
    setup();
    if (strcmp(op, what)) return 0;
    count++;
    return sticky ? count >= nth : count == nth;
}
static int opened(const char *p, int flags, int mode, int at) {
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (w || flags & O_CREAT) touch(p);
    int m = scratch(p) && !(flags & O_DIRECTORY);
    if (m && hit("open") && err) { note(w ? "open-write\n" : "open-read\n"); errno = err; return -1; }
    int fd = syscall(SYS_openat, at, p, flags, mode);
    if (fd < 0) { errno = errno; return -1; }
    if (fd < (int)sizeof mine) mine[fd] = m ? 1 + w : 0;
    return fd;
}
#define MODE int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return opened(p, flags, mode, AT_FDCWD); }
int open64(const char *p, int flags, ...) { MODE return opened(p, flags | O_LARGEFILE, mode, AT_FDCWD); }
int openat(int at, const char *p, int flags, ...) { MODE return opened(p, flags, mode, at); }
int openat64(int at, const char *p, int flags, ...) { MODE return opened(p, flags | O_LARGEFILE, mode, at); }
int creat(const char *p, mode_t m) { return opened(p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
static int is(int fd) { return fd >= 0 && fd < (int)sizeof mine && mine[fd]; }
int close(int fd) { if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0; return syscall(SYS_close, fd); }
ssize_t write(int fd, const void *b, size_t n) {
    if (is(fd) && n > 0 && hit("write")) {
        if (shorten) { if (n > 1) { note("short-write\n"); n = (n + 1) / 2; } }
        else if (zero) { note("zero-write\n"); return 0; }
        else { note(err == EINTR ? "interrupted-write\n" : "write\n"); errno = err; return -1; }
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    if (is(fd) && k > 0) return write(fd, v[0].iov_base, v[0].iov_len);
    return syscall(SYS_writev, fd, v, k);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (is(fd) && n > 0 && hit("write") && err) { note(err == EINTR ? "interrupted-write\n" : "write\n"); errno = err; return -1; }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t read(int fd, void *b, size_t n) {
    if (is(fd) && n > 0 && hit("read")) {
        if (shorten) { if (n > 1) { note("short-read\n"); n = n > 64 ? 7 : 1; } }
        else if (!zero) { note(err == EINTR ? "interrupted-read\n" : "read\n"); errno = err; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
int rename(const char *a, const char *b) { touch(a); touch(b); return syscall(SYS_rename, a, b); }
int renameat(int x, const char *a, int y, const char *b) { touch(a); touch(b); return syscall(SYS_renameat, x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { touch(a); touch(b); return syscall(SYS_renameat2, x, a, y, b, f); }
int unlink(const char *p) { touch(p); return syscall(SYS_unlink, p); }
int unlinkat(int x, const char *p, int f) { touch(p); return syscall(SYS_unlinkat, x, p, f); }
int rmdir(const char *p) { touch(p); return syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { touch(p); return syscall(SYS_mkdir, p, m); }
int link(const char *a, const char *b) { touch(b); return syscall(SYS_link, a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { touch(b); return syscall(SYS_linkat, x, a, y, b, f); }
int symlink(const char *a, const char *b) { touch(b); return syscall(SYS_symlink, a, b); }
int symlinkat(const char *a, int x, const char *b) { touch(b); return syscall(SYS_symlinkat, a, x, b); }
int truncate64(const char *p, off_t n) { touch(p); return syscall(SYS_truncate, p, n); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int chmod(const char *p, mode_t m) { touch(p); return syscall(SYS_chmod, p, m); }
