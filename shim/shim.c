/* Decides, by a script, what system calls on one file or stream return, and logs what they returned.
   SHIM_IN, SHIM_OUT: file descriptors of streams; SHIM_PATH: a file whose descriptors are watched instead.
   SHIM_READ, SHIM_WRITE, SHIM_OPEN, SHIM_STAT, SHIM_MMAP: scripts, steps separated by commas:
     n    at most n bytes            i    interrupted (EINTR)        eN   fails with errno N
     z    returns 0                  -    as it is
     a last step of *n (or *i ...) is repeated, without it calls behind the script are left as they are.
   SHIM_LOG: file to which lines "call requested result errno" are appended.
   FAKE_CORES: number of processors that sched_getaffinity shows. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

typedef struct { const char *env; const char *at; int open; } script;
static script s_read = {"SHIM_READ"}, s_write = {"SHIM_WRITE"}, s_open = {"SHIM_OPEN"}, s_stat = {"SHIM_STAT"}, s_mmap = {"SHIM_MMAP"};
static int in_fd = -1, out_fd = -1, log_fd = -1;
static const char *path;
static char watched[1024];

__attribute__((constructor)) static void start(void) {
    const char *e;
    if ((e = getenv("SHIM_IN"))) in_fd = atoi(e);
    if ((e = getenv("SHIM_OUT"))) out_fd = atoi(e);
    path = getenv("SHIM_PATH");
    if ((e = getenv("SHIM_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
    script *all[] = {&s_read, &s_write, &s_open, &s_stat, &s_mmap};
    for (int i = 0; i < 5; i++) all[i]->at = getenv(all[i]->env);
}

static void note(const char *call, long req, long ret) {
    int e = errno;
    char line[128];
    if (log_fd >= 0) {
        int n = snprintf(line, sizeof line, "%s %ld %ld %d\n", call, req, ret, ret < 0 ? e : 0);
        syscall(SYS_write, log_fd, line, n);
    }
    errno = e;
}

/* the next step: 0 as it is, 1 at most *n bytes, 2 fails with errno *n, 3 returns 0 */
static int step(script *s, long *n) {
    const char *p = s->at;
    if (!p || !*p) return 0;
    int repeat = *p == '*';
    if (repeat) p++;
    int kind;
    char *end = (char *)p + 1;
    if (*p == 'i') { kind = 2; *n = EINTR; }
    else if (*p == 'e') { kind = 2; *n = strtol(p + 1, &end, 10); }
    else if (*p == 'z') kind = 3;
    else if (*p == '-') kind = 0;
    else { kind = 1; *n = strtol(p, &end, 10); }
    if (!repeat) s->at = *end == ',' ? end + 1 : end;
    return kind;
}

static int is_in(int fd) { return fd == in_fd || (fd >= 0 && fd < (int)sizeof watched && watched[fd]); }

ssize_t read(int fd, void *buf, size_t n) {
    if (!is_in(fd)) return syscall(SYS_read, fd, buf, n);
    long k = 0;
    size_t m = n;
    ssize_t r;
    switch (step(&s_read, &k)) {
    case 1: if (m > (size_t)k) m = k; /* fall through */
    case 0: r = syscall(SYS_read, fd, buf, m); break;
    case 2: r = -1; errno = k; break;
    default: r = 0;
    }
    note("read", n, r);
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!is_in(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    if (!is_in(fd)) return syscall(SYS_pread64, fd, buf, n, off);
    long k = 0;
    size_t m = n;
    ssize_t r;
    switch (step(&s_read, &k)) {
    case 1: if (m > (size_t)k) m = k; /* fall through */
    case 0: r = syscall(SYS_pread64, fd, buf, m, off); break;
    case 2: r = -1; errno = k; break;
    default: r = 0;
    }
    note("read", n, r);
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }

ssize_t write(int fd, const void *buf, size_t n) {
    if (fd != out_fd) return syscall(SYS_write, fd, buf, n);
    long k = 0;
    size_t m = n;
    ssize_t r;
    switch (step(&s_write, &k)) {
    case 1: if (m > (size_t)k) m = k; /* fall through */
    case 0: r = syscall(SYS_write, fd, buf, m); break;
    case 2: r = -1; errno = k; break;
    default: r = 0;
    }
    note("write", n, r);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd != out_fd) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (is_in(a) || b == out_fd) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (is_in(a) || b == out_fd) { errno = EINVAL; return -1; }
    return syscall(SYS_splice, a, ao, b, bo, n, f);
}
ssize_t sendfile64(int b, int a, off64_t *o, size_t n) {
    if (is_in(a) || b == out_fd) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, b, a, o, n);
}

static int watch(int fd, const char *p) {
    if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = path && !strcmp(p, path);
    return fd;
}
static int open_it(int dir, const char *p, int flags, int mode) {
    if (!path || strcmp(p, path)) return watch(syscall(SYS_openat, dir, p, flags, mode), p);
    long k = 0;
    int r;
    if (step(&s_open, &k) == 2) { r = -1; errno = k; }
    else r = syscall(SYS_openat, dir, p, flags, mode);
    note("open", 0, r < 0 ? -1 : 1);
    return watch(r, p);
}
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE return open_it(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return open_it(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return open_it(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return open_it(d, p, flags, mode); }
int close(int fd) {
    if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = 0;
    return syscall(SYS_close, fd);
}

static int stat_fails(int w) {
    long k = 0;
    if (w && step(&s_stat, &k) == 2) { errno = k; note("stat", 0, -1); return 1; }
    if (w) note("stat", 0, 1);
    return 0;
}
#define REAL(type, name, ...) ((type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name))
int fstat64(int fd, struct stat64 *s) { return stat_fails(is_in(fd)) ? -1 : REAL(int, "fstat64", int, struct stat64 *)(fd, s); }
int fstat(int fd, struct stat *s) { return stat_fails(is_in(fd)) ? -1 : REAL(int, "fstat", int, struct stat *)(fd, s); }
int stat64(const char *p, struct stat64 *s) { return stat_fails(path && !strcmp(p, path)) ? -1 : REAL(int, "stat64", const char *, struct stat64 *)(p, s); }
int statx(int d, const char *p, int flags, unsigned mask, struct statx *s) {
    const char *volatile q = p;          /* std asks with null pointers whether there is statx */
    if (!q) return syscall(SYS_statx, d, p, flags, mask, s);
    int w = *p ? path && !strcmp(p, path) : is_in(d);
    if (stat_fails(w)) return -1;
    return syscall(SYS_statx, d, p, flags, mask, s);
}

static void *mmap_it(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    long k = 0;
    if (fd >= 0 && is_in(fd)) {
        if (step(&s_mmap, &k) == 2) { errno = k; note("mmap", n, -1); return MAP_FAILED; }
        note("mmap", n, n);
    }
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap_it(a, n, prot, flags, fd, off); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) { return mmap_it(a, n, prot, flags, fd, off); }

int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    const char *e = getenv("FAKE_CORES");
    if (!e) { int r = syscall(SYS_sched_getaffinity, pid, n, set); if (r > 0) { if ((size_t)r < n) memset((char *)set + r, 0, n - r); return 0; } return r; }
    memset(set, 0, n);
    for (int i = 0; i < atoi(e) && i < (int)n * 8; i++) CPU_SET_S(i, n, set);
    return 0;
}
