/* LD_PRELOAD shim: counts the file system calls made on paths below a directory, and makes the
 * k-th one (or all from the k-th on, or all later ones on the same path as well) fail with a given errno.  Armed through mbv_arm() by the
 * process itself; inert otherwise. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>

enum { K_WOPEN = 1, K_WRITE = 2, K_COPY = 4, K_LINK = 8, K_MKDIR = 16, K_REMOVE = 32, K_META = 64,
       K_ROPEN = 128, K_READ = 256, K_DIR = 512, K_CLOSE = 1024 };

static volatile int armed = 0;
static char prefix[PATH_MAX];
static size_t plen;
static int mask, target, err, sticky, count, fired, firstkind;
static char firstpath[PATH_MAX];
static char kinds[1 << 20];

void mbv_arm(const char *p, int m, int k, int e, int s) {
    strncpy(prefix, p, sizeof(prefix) - 1);
    plen = strlen(prefix);
    mask = m; target = k; err = e; sticky = s; count = 0; fired = 0; firstkind = 0; firstpath[0] = 0;
    armed = 1;
}
/* hard links are not possible (as between two file systems) */
static int nolink = 0;
void mbv_nolink(int yes) { nolink = yes; }
int mbv_disarm(void) { armed = 0; return count; }
int mbv_fired(void) { return fired; }
int mbv_firstkind(void) { return firstkind; }
const char *mbv_firstpath(void) { return firstpath; }
/* the kind (as bit number) of the i-th counted call, 1-based */
int mbv_kind(int i) { return i > 0 && i < (int)sizeof(kinds) ? kinds[i] : -1; }

static int bitno(int k) { int n = 0; while (k > 1) { k >>= 1; n++; } return n; }

static int under(const char *path) {
    return strncmp(path, prefix, plen) == 0 && (path[plen] == 0 || path[plen] == '/');
}

static int hit(int kind, const char *path) {
    if (!(mask & kind)) return 0;
    count++;
    if (count < (int)sizeof(kinds)) kinds[count] = bitno(kind);
    if (target > 0 && (count == target || (sticky == 1 && count > target) ||
                       (sticky == 2 && fired && strcmp(path, firstpath) == 0))) {
        if (!fired) {
            firstkind = kind;
            strncpy(firstpath, path, sizeof(firstpath) - 1);
        }
        fired++;
        return 1;
    }
    return 0;
}

static int resolve(int dirfd, const char *path, char *out) {
    if (path == NULL) return 0;
    if (path[0] == '/') { strncpy(out, path, PATH_MAX - 1); out[PATH_MAX - 1] = 0; return 1; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof(base))) return 0; }
    else {
        char l[64]; snprintf(l, sizeof(l), "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(l, base, sizeof(base) - 1);
        if (n < 0) return 0;
        base[n] = 0;
    }
    size_t b = strlen(base), q = strlen(path);
    if (b + q + 2 > PATH_MAX) return 0;
    memcpy(out, base, b); out[b] = '/'; memcpy(out + b + 1, path, q + 1);
    return 1;
}

static int fail_path(int kind, int dirfd, const char *path) {
    if (!armed || !(mask & kind)) return 0;
    int e = errno;
    char full[PATH_MAX];
    int r = resolve(dirfd, path, full) && under(full) && hit(kind, full);
    errno = r ? err : e;
    return r;
}

static int fail_fd(int kind, int fd) {
    if (!armed || !(mask & kind)) return 0;
    int e = errno;
    char l[64], full[PATH_MAX];
    snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, full, sizeof(full) - 1);
    int r = 0;
    if (n > 0) { full[n] = 0; r = under(full) && hit(kind, full); }
    errno = r ? err : e;
    return r;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int openkind(int flags) {
    if (flags & O_DIRECTORY) return K_DIR;
    return (flags & (O_WRONLY | O_RDWR | O_CREAT)) ? K_WOPEN : K_ROPEN;
}

#define OPENAT(sym) int sym(int d, const char *p, int flags, ...) { \
    REAL(int, #sym, int, const char *, int, ...); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if (fail_path(openkind(flags), d, p)) return -1; \
    return real(d, p, flags, m); }
#define OPEN(sym) int sym(const char *p, int flags, ...) { \
    REAL(int, #sym, const char *, int, ...); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if (fail_path(openkind(flags), AT_FDCWD, p)) return -1; \
    return real(p, flags, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)

static FILE *fopen_any(const char *sym, const char *p, const char *m) {
    FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, sym);
    if (fail_path(m[0] == 'r' && !strchr(m, '+') ? K_ROPEN : K_WOPEN, AT_FDCWD, p)) return NULL;
    return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopen_any("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen_any("fopen64", p, m); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (fail_fd(K_WRITE, fd)) return -1;
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t);
    if (fail_fd(K_WRITE, fd)) return -1;
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (fail_fd(K_WRITE, fd)) return -1;
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fail_fd(K_WRITE, fd)) return -1;
    return real(fd, v, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (fail_fd(K_READ, fd)) return -1;
    return real(fd, b, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (fail_fd(K_COPY, o)) return -1;
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (fail_fd(K_COPY, o)) return -1;
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (fail_fd(K_COPY, o)) return -1;
    return real(i, io, o, oo, n, f);
}
int close(int fd) {
    REAL(int, "close", int);
    if (armed && (mask & K_CLOSE)) {
        int fl = fcntl(fd, F_GETFL);
        if (fl >= 0 && (fl & (O_WRONLY | O_RDWR)) && fail_fd(K_CLOSE, fd)) { real(fd); errno = err; return -1; }
    }
    return real(fd);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *);
    if (fail_path(K_LINK, AT_FDCWD, b)) return -1;
    if (armed && nolink) { errno = EXDEV; return -1; }
    return real(a, b);
}
int linkat(int d1, const char *a, int d2, const char *b, int f) {
    REAL(int, "linkat", int, const char *, int, const char *, int);
    if (fail_path(K_LINK, d2, b)) return -1;
    if (armed && nolink) { errno = EXDEV; return -1; }
    return real(d1, a, d2, b, f);
}
int symlink(const char *a, const char *b) {
    REAL(int, "symlink", const char *, const char *);
    if (fail_path(K_LINK, AT_FDCWD, b)) return -1;
    return real(a, b);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (fail_path(K_MKDIR, AT_FDCWD, p)) return -1;
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, "mkdirat", int, const char *, mode_t);
    if (fail_path(K_MKDIR, d, p)) return -1;
    return real(d, p, m);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *);
    if (fail_path(K_REMOVE, AT_FDCWD, b)) return -1;
    return real(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if (fail_path(K_REMOVE, d2, b)) return -1;
    return real(d1, a, d2, b);
}
int unlink(const char *p) {
    REAL(int, "unlink", const char *);
    if (fail_path(K_REMOVE, AT_FDCWD, p)) return -1;
    return real(p);
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int);
    if (fail_path(K_REMOVE, d, p)) return -1;
    return real(d, p, f);
}
int rmdir(const char *p) {
    REAL(int, "rmdir", const char *);
    if (fail_path(K_REMOVE, AT_FDCWD, p)) return -1;
    return real(p);
}
int ftruncate(int fd, off_t n) {
    REAL(int, "ftruncate", int, off_t);
    if (fail_fd(K_WRITE, fd)) return -1;
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t);
    if (fail_fd(K_WRITE, fd)) return -1;
    return real(fd, n);
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(int, "utimensat", int, const char *, const struct timespec *, int);
    if (p && fail_path(K_META, d, p)) return -1;
    return real(d, p, t, f);
}
int chmod(const char *p, mode_t m) {
    REAL(int, "chmod", const char *, mode_t);
    if (fail_path(K_META, AT_FDCWD, p)) return -1;
    return real(p, m);
}
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL(int, "fchmodat", int, const char *, mode_t, int);
    if (fail_path(K_META, d, p)) return -1;
    return real(d, p, m, f);
}
DIR *opendir(const char *p) {
    REAL(DIR *, "opendir", const char *);
    if (fail_path(K_DIR, AT_FDCWD, p)) return NULL;
    return real(p);
}
DIR *fdopendir(int fd) {
    REAL(DIR *, "fdopendir", int);
    if (fail_fd(K_DIR, fd)) return NULL;
    return real(fd);
}
