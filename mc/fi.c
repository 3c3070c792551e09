/* Fault injection for the command-line modules: counts the calls of one class that concern files
 * below FI_DIR and makes the FI_AT-th one behave as FI_MODE says. With FI_LOG set it records calls. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char mine[65536];
static const char *dir, *mode, *logp;
static char cls;
static long at = -1, count[256];
static int ready, full;

static void init(void) {
    if (ready) return;
    ready = 1;
    dir = getenv("FI_DIR");
    mode = getenv("FI_MODE");
    logp = getenv("FI_LOG");
    if (getenv("FI_OP")) cls = getenv("FI_OP")[0];
    if (getenv("FI_AT")) at = atol(getenv("FI_AT"));
    if (!mode) mode = "";
}
static void note(char c, long n) {
    char b[64];
    int l;
    if (!logp) return;
    l = snprintf(b, sizeof b, "%c %ld\n", c, n);
    int f = syscall(SYS_openat, AT_FDCWD, logp, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (f >= 0) { syscall(SYS_write, f, b, l); syscall(SYS_close, f); }
}
static int is(const char *m) { return !strcmp(mode, m); }
/* is this call the one to fault? */
static int due(char c, long n) {
    count[(unsigned char)c]++;
    note(c, n);
    if (c != cls) return 0;
    if (full) return 1;
    if (count[(unsigned char)c] - 1 != at) return 0;
    if (is("enospc")) full = 1;
    return 1;
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }

static int track(int fd) {
    char p[64], t[4096];
    if (fd < 0 || fd >= (int)sizeof mine || !dir) return fd;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, t, sizeof t - 1);
    if (n < 0) n = 0;
    t[n] = 0;
    mine[fd] = !strncmp(t, dir, strlen(dir));
    return fd;
}
static int below(const char *p) {
    char t[8192];
    if (!dir || !p) return 0;
    if (p[0] == '/') snprintf(t, sizeof t, "%s", p);
    else { char c[4096]; if (!getcwd(c, sizeof c)) return 0; snprintf(t, sizeof t, "%s/%s", c, p); }
    return !strncmp(t, dir, strlen(dir));
}
static int do_open(int dfd, const char *p, int fl, int md) {
    init();
    if (below(p) && due('o', fl)) {
        if (is("kill0")) die();
        if (is("eintr")) { at = -2; errno = EINTR; return -1; }
        errno = is("enospc") ? ENOSPC : EIO;
        return -1;
    }
    return track(syscall(SYS_openat, dfd, p, fl, md));
}
#define MD int md = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); md = va_arg(v, int); va_end(v); }
int open(const char *p, int fl, ...) { MD return do_open(AT_FDCWD, p, fl, md); }
int open64(const char *p, int fl, ...) { MD return do_open(AT_FDCWD, p, fl | O_LARGEFILE, md); }
int openat(int d, const char *p, int fl, ...) { MD return do_open(d, p, fl, md); }
int openat64(int d, const char *p, int fl, ...) { MD return do_open(d, p, fl | O_LARGEFILE, md); }
int creat(const char *p, mode_t md) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, md); }
int creat64(const char *p, mode_t md) { return creat(p, md); }
int close(int fd) {
    if (fd >= 0 && fd < (int)sizeof mine) mine[fd] = 0;
    return syscall(SYS_close, fd);
}
static int ours(int fd) { init(); return fd >= 0 && fd < (int)sizeof mine && mine[fd]; }

static ssize_t put(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t fault_w(int fd, const void *b, size_t n) {
    if (is("kill0")) die();
    if (is("kill1")) { if (n) put(fd, b, n / 2); die(); }
    if (is("kill2")) { put(fd, b, n); die(); }
    if (is("short")) return put(fd, b, n ? 1 : 0);
    if (is("half")) return put(fd, b, (n + 1) / 2);
    if (is("zero")) return 0;
    if (is("eintr")) { errno = EINTR; return -1; }
    if (is("torn")) { put(fd, b, n / 2); errno = EIO; return -1; }
    errno = is("enospc") ? ENOSPC : EIO;
    return -1;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (ours(fd) && due('w', n)) return fault_w(fd, b, n);
    return put(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (ours(fd) && c > 0) return write(fd, v[0].iov_base, v[0].iov_len);
    return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (ours(fd) && due('w', n)) { errno = EIO; if (is("kill0") || is("kill1") || is("kill2")) die(); return is("zero") ? 0 : -1; }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
static ssize_t get(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
ssize_t read(int fd, void *b, size_t n) {
    if (ours(fd) && due('r', n)) {
        if (is("short")) return get(fd, b, n ? 1 : 0);
        if (is("half")) return get(fd, b, (n + 1) / 2);
        if (is("zero")) return 0;
        if (is("eintr")) { errno = EINTR; return -1; }
        if (is("kill0")) die();
        errno = EIO;
        return -1;
    }
    return get(fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (ours(fd) && c > 0) return read(fd, v[0].iov_base, v[0].iov_len);
    return syscall(SYS_readv, fd, v, c);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (ours(fd) && due('r', n)) { if (is("zero")) return 0; errno = EIO; return -1; }
    return syscall(SYS_pread64, fd, b, n, o);
}
#define META(c) if (c && due('m', 0)) { if (is("kill0") || is("kill1")) die(); errno = EIO; return -1; }
int fsync(int fd) { META(ours(fd)) return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { META(ours(fd)) return syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off64_t l) { META(ours(fd)) return syscall(SYS_ftruncate, fd, l); }
int rename(const char *a, const char *b) { init(); META(below(b)) return syscall(SYS_rename, a, b); }
/* copies between files must go through the calls above */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (ours(a) || ours(b)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    if (ours(a) || ours(b)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, a, b, o, n);
}
