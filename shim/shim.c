/* LD_PRELOAD monitor for the tool under test.
 *
 * - logs every operation that changes the file system (and, as a separate class, reads),
 * - refuses changes outside TIV_ROOT (containment) and logs them as DENY,
 * - injects one fault at the TIV_AT-th operation of class TIV_CLASS (w = changing, r = reading,
 *   d = listing a directory):
 *   err:<errno>, errp:<errno> (from there on), short (half of a write/read), killb, killa;
 *   TIV_AT2 and TIV_KIND2 inject a second one of the same class,
 * - stops the process before the TIV_STOP-th operation of any class, looks included (the driver lets
 *   it go on), and gives out TIV_PID as its process id,
 * - logs what the program reads and looks for inside TIV_ROOT (look).
 *
 * - gives standard input out line by line, as a terminal does, and logs how much had been written to
 *   standard output when more of it was asked for (ask); TIV_TTY=1 makes the standard streams terminals,
 * - logs the names of the environment variables asked for and shifts the clock by TIV_CLOCK seconds.
 *
 * Log line: <seq> <op> <ret> <errno> <n> <path>\t<path2>\n      (paths absolute)
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int log_fd = -1;
static char root[PATH_MAX];
static char cls = 'w';
static struct fault { long at; char kind[16]; int err; } faults[2] = {{-1, "", EIO}, {-1, "", EIO}};
static long wseq = 0, rseq = 0, dseq = 0, aseq = 0, stop_at = -1, fake_pid = 0;
static int ready = 0, tty = 0;
#define MAXFD 1024
static char *fdpath[MAXFD];
static char fdmode[MAXFD]; /* 0 none, 'r', 'w' */

extern char **environ;
static long clock_shift = 0;
static char *env_of(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
static void init(void) {
    if (ready) return;
    ready = 1;
    const char *p = env_of("TIV_ROOT");
    if (p) strncpy(root, p, sizeof root - 1);
    p = env_of("TIV_LOG");
    if (p) {
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (fd >= 0) {
            log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
            if (log_fd < 0) log_fd = fd; else syscall(SYS_close, fd);
        }
    }
    p = env_of("TIV_CLASS");
    if (p) cls = *p;
    for (int i = 0; i < 2; i++) {
        struct fault *f = &faults[i];
        p = env_of(i ? "TIV_AT2" : "TIV_AT");
        if (p) f->at = atol(p);
        p = env_of(i ? "TIV_KIND2" : "TIV_KIND");
        if (!p) continue;
        const char *c = strchr(p, ':');
        size_t n = c ? (size_t)(c - p) : strlen(p);
        if (n > 15) n = 15;
        memcpy(f->kind, p, n);
        if (c) f->err = atoi(c + 1);
    }
    p = env_of("TIV_STOP");
    if (p) stop_at = atol(p);
    p = env_of("TIV_PID");
    if (p) fake_pid = atol(p);
    p = env_of("TIV_CLOCK");
    if (p) clock_shift = atol(p);
    p = env_of("TIV_TTY");
    if (p) tty = atoi(p);
    unsetenv("LD_PRELOAD");
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void put_log(long seq, const char *op, long ret, int err, long n, const char *a, const char *b) {
    if (log_fd < 0) return;
    char buf[PATH_MAX * 2 + 128];
    int l = snprintf(buf, sizeof buf, "%ld %s %ld %d %ld %s\t%s\n", seq, op, ret, err, n, a ? a : "", b ? b : "");
    if (l > (int)sizeof buf) l = sizeof buf;
    syscall(SYS_write, log_fd, buf, l);
}

/* absolute, lexically cleaned path with the directory part resolved */
static void abspath(int dirfd, const char *p, char *out) {
    char tmp[PATH_MAX * 2], dir[PATH_MAX], real[PATH_MAX];
    if (p[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", p);
    } else {
        char base[PATH_MAX] = "";
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, p);
    }
    size_t n = strlen(tmp);
    while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
    char *s = strrchr(tmp, '/');
    if (!s) { snprintf(out, PATH_MAX, "%s", tmp); return; }
    snprintf(dir, sizeof dir, "%.*s", (int)(s - tmp), tmp);
    if (!dir[0]) strcpy(dir, "/");
    int e = errno;
    if (strcmp(s + 1, "..") == 0 || strcmp(s + 1, ".") == 0) {
        if (realpath(tmp, real)) { snprintf(out, PATH_MAX, "%s", real); errno = e; return; }
    }
    if (realpath(dir, real)) snprintf(out, PATH_MAX, "%s/%s", strcmp(real, "/") ? real : "", s + 1);
    else snprintf(out, PATH_MAX, "%s", tmp);
    errno = e;
}
static int outside(const char *abs) {
    if (!root[0]) return 0;
    size_t n = strlen(root);
    if (strncmp(abs, root, n) == 0 && (abs[n] == '/' || abs[n] == 0) && !strstr(abs, "/../")) return 0;
    if (!strncmp(abs, "/dev/null", 9) || !strncmp(abs, "/dev/tty", 8) || !strncmp(abs, "/proc/self/", 11)) return 0;
    return 1;
}
static void die(void) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}
static void step(const char *op, const char *a) {
    if (++aseq != stop_at) return;
    int e = errno;
    put_log(aseq, "STOP", 0, 0, 0, op, a);
    syscall(SYS_kill, syscall(SYS_getpid), SIGSTOP);
    errno = e;
}
pid_t getpid(void) { init(); return fake_pid ? (pid_t)fake_pid : (pid_t)syscall(SYS_getpid); }
/* returns 0: run the call; 1: fail with errno set; 2: short */
static int before(char c, long *seq, const char *op, const char *a, const char *b, int shortable) {
    init();
    long s = c == 'w' ? ++wseq : c == 'd' ? ++dseq : ++rseq;
    *seq = s;
    if (c != 'd') step(op, a);
    if (c == 'w' && ((a && a[0] == '/' && outside(a)) || (b && b[0] == '/' && outside(b)))) {
        put_log(s, "DENY", -1, EACCES, 0, a, b);
        errno = EACCES;
        return 1;
    }
    if (c != cls) return 0;
    for (int i = 0; i < 2; i++) {
        struct fault *f = &faults[i];
        if (f->at < 0) continue;
        if (s == f->at && !strcmp(f->kind, "killb")) { put_log(s, "KILLB", 0, 0, 0, op, a); die(); }
        if (s == f->at && !strcmp(f->kind, "short") && shortable) { put_log(s, "SHORT", 0, 0, 0, op, a); return 2; }
        if ((s == f->at && !strcmp(f->kind, "err")) || (s >= f->at && !strcmp(f->kind, "errp"))) {
            put_log(s, "FAULT", -1, f->err, 0, op, a);
            errno = f->err;
            return 1;
        }
    }
    return 0;
}
static void after(char c, long seq, const char *op, long ret, long n, const char *a, const char *b) {
    int e = errno;
    if (c == 'w') put_log(seq, op, ret, ret < 0 ? e : 0, n, a, b);
    for (int i = 0; i < 2; i++)
        if (c == cls && seq == faults[i].at && !strcmp(faults[i].kind, "killa")) { put_log(seq, "KILLA", 0, 0, 0, op, a); die(); }
    errno = e;
}
#define REAL(name, type) static type real_##name; if (!real_##name) real_##name = (type)dlsym(RTLD_NEXT, #name)

static void track(int fd, const char *p, char m) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = strdup(p);
    fdmode[fd] = m;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if ((flags & O_TMPFILE) == O_TMPFILE) w = 1;
    char a[PATH_MAX];
    abspath(dirfd, path, a);
    char t[PATH_MAX], real[PATH_MAX];
    snprintf(t, sizeof t, "%s", a);
    int e = errno;
    if (w && !(flags & O_NOFOLLOW) && !(flags & O_EXCL) && realpath(a, real)) snprintf(t, sizeof t, "%s", real);
    errno = e;
    if (!w && !outside(a)) put_log(0, "look", 0, 0, 0, a, NULL);
    if (!w && outside(a)) return syscall(SYS_openat, dirfd, path, flags, mode);
    long seq;
    struct stat st;
    int existed = syscall(SYS_newfstatat, AT_FDCWD, t, &st, 0) == 0;
    long size = existed ? (long)st.st_size : -1;
    errno = e;
    int f = before(w ? 'w' : 'r', &seq, "open", t, NULL, 0);
    if (f) return -1;
    int r = syscall(SYS_openat, dirfd, path, flags, mode);
    if (r >= 0) track(r, t, w ? 'w' : 'r');
    after(w ? 'w' : 'r', seq, !w ? "openr" : (flags & O_TRUNC) ? "opent" : (flags & O_EXCL) ? "openx" : "openw", r, size, t, NULL);
    return r;
}
/* listing directories */
typedef DIR *(*opendir_t)(const char *);
typedef struct dirent64 *(*readdir_t)(DIR *);
DIR *opendir(const char *p) {
    REAL(opendir, opendir_t);
    long seq;
    return before('d', &seq, "opendir", p, NULL, 0) ? NULL : real_opendir(p);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64, readdir_t);
    long seq;
    int e = errno;
    if (before('d', &seq, "readdir", NULL, NULL, 0)) return NULL;
    errno = e;
    return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int tracked(int fd, char m) { return fd >= 0 && fd < MAXFD && fdmode[fd] == m; }

int close(int fd) {
    if (fd == log_fd && fd >= 0) return 0;
    if (fd >= 0 && fd < MAXFD && fdmode[fd]) {
        if (fdmode[fd] == 'w') put_log(wseq, "close", 0, 0, 0, fdpath[fd], NULL);
        fdmode[fd] = 0;
    }
    return syscall(SYS_close, fd);
}
#define WR(op, call, shortcall, len) \
    if (!tracked(fd, 'w')) return call; \
    long seq; int f = before('w', &seq, op, fdpath[fd], NULL, 1); \
    if (f == 1) return -1; \
    ssize_t r = (f == 2) ? shortcall : call; \
    after('w', seq, op, r, len, fdpath[fd], NULL); \
    return r;
ssize_t write(int fd, const void *b, size_t n) {
    WR("write", syscall(SYS_write, fd, b, n), syscall(SYS_write, fd, b, n / 2 ? n / 2 : n), (long)n)
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    WR("write", syscall(SYS_pwrite64, fd, b, n, o), syscall(SYS_pwrite64, fd, b, n / 2 ? n / 2 : n, o), (long)n)
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    WR("write", syscall(SYS_writev, fd, v, c), syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2 ? v[0].iov_len / 2 : v[0].iov_len), 0)
}
ssize_t sendfile64(int fd, int in, off_t *o, size_t n) { WR("write", syscall(SYS_sendfile, fd, in, o, n), syscall(SYS_sendfile, fd, in, o, n / 2 ? n / 2 : n), (long)n) }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { return sendfile64(fd, in, o, n); }
ssize_t copy_file_range(int in, off_t *oi, int fd, off_t *oo, size_t n, unsigned fl) {
    WR("write", syscall(SYS_copy_file_range, in, oi, fd, oo, n, fl), syscall(SYS_copy_file_range, in, oi, fd, oo, n > 1 ? 1 : n, fl), (long)n)
}
ssize_t read(int fd, void *b, size_t n) {
    if (fd == 0 && !fdmode[0]) {
        init();
        int e = errno;
        put_log(0, "ask", 0, 0, (long)syscall(SYS_lseek, 1, 0L, SEEK_CUR), NULL, NULL);
        errno = e;
        ssize_t r = syscall(SYS_read, fd, b, n);
        if (r > 0) {
            char *l = memchr(b, 10, r);
            off_t over = l ? r - (l + 1 - (char *)b) : 0;
            if (over > 0 && (long)syscall(SYS_lseek, fd, -over, SEEK_CUR) >= 0) r -= over;
        }
        return r;
    }
    if (!tracked(fd, 'r')) return syscall(SYS_read, fd, b, n);
    long seq;
    int f = before('r', &seq, "read", fdpath[fd], NULL, 1);
    if (f == 1) return -1;
    ssize_t r = syscall(SYS_read, fd, b, f == 2 ? (n / 2 > 7 ? 7 : n) : n);
    after('r', seq, "read", r, (long)n, fdpath[fd], NULL);
    return r;
}
int fsync(int fd) {
    if (!tracked(fd, 'w') && !tracked(fd, 'r')) return syscall(SYS_fsync, fd);
    long seq; if (before('w', &seq, "fsync", fdpath[fd], NULL, 0)) return -1;
    int r = syscall(SYS_fsync, fd); after('w', seq, "fsync", r, 0, fdpath[fd], NULL); return r;
}
int fdatasync(int fd) {
    if (!tracked(fd, 'w') && !tracked(fd, 'r')) return syscall(SYS_fdatasync, fd);
    long seq; if (before('w', &seq, "fsync", fdpath[fd], NULL, 0)) return -1;
    int r = syscall(SYS_fdatasync, fd); after('w', seq, "fsync", r, 0, fdpath[fd], NULL); return r;
}
int ftruncate64(int fd, off_t l) {
    if (!tracked(fd, 'w')) return syscall(SYS_ftruncate, fd, l);
    long seq; if (before('w', &seq, "ftruncate", fdpath[fd], NULL, 0)) return -1;
    int r = syscall(SYS_ftruncate, fd, l); after('w', seq, "ftruncate", r, (long)l, fdpath[fd], NULL); return r;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fchmod(int fd, mode_t m) {
    if (!tracked(fd, 'w')) return syscall(SYS_fchmod, fd, m);
    long seq; if (before('w', &seq, "fchmod", fdpath[fd], NULL, 0)) return -1;
    int r = syscall(SYS_fchmod, fd, m); after('w', seq, "fchmod", r, (long)m, fdpath[fd], NULL); return r;
}
#define ONE(op, dirfd, path, call, n) \
    char a[PATH_MAX]; abspath(dirfd, path, a); \
    long seq; if (before('w', &seq, op, a, NULL, 0)) return -1; \
    int r = call; after('w', seq, op, r, n, a, NULL); return r;
#define TWO(op, d1, p1, d2, p2, call) \
    char a[PATH_MAX], b[PATH_MAX]; abspath(d1, p1, a); abspath(d2, p2, b); \
    long seq; if (before('w', &seq, op, a, b, 0)) return -1; \
    int r = call; after('w', seq, op, r, 0, a, b); return r;
int truncate64(const char *p, off_t l) { ONE("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, l), (long)l) }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int chmod(const char *p, mode_t m) { ONE("chmod", AT_FDCWD, p, syscall(SYS_chmod, p, m), (long)m) }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; ONE("chmod", d, p, syscall(SYS_fchmodat, d, p, m), (long)m) }
int chown(const char *p, uid_t u, gid_t g) { ONE("chown", AT_FDCWD, p, syscall(SYS_chown, p, u, g), 0) }
int lchown(const char *p, uid_t u, gid_t g) { ONE("chown", AT_FDCWD, p, syscall(SYS_lchown, p, u, g), 0) }
int unlink(const char *p) { ONE("unlink", AT_FDCWD, p, syscall(SYS_unlink, p), 0) }
int unlinkat(int d, const char *p, int f) { ONE(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, syscall(SYS_unlinkat, d, p, f), 0) }
int remove(const char *p) { ONE("unlink", AT_FDCWD, p, (syscall(SYS_unlink, p) == 0 ? 0 : errno == EISDIR ? syscall(SYS_rmdir, p) : -1), 0) }
int rmdir(const char *p) { ONE("rmdir", AT_FDCWD, p, syscall(SYS_rmdir, p), 0) }
int mkdir(const char *p, mode_t m) { ONE("mkdir", AT_FDCWD, p, syscall(SYS_mkdir, p, m), 0) }
int mkdirat(int d, const char *p, mode_t m) { ONE("mkdir", d, p, syscall(SYS_mkdirat, d, p, m), 0) }
int rename(const char *p, const char *q) { TWO("rename", AT_FDCWD, p, AT_FDCWD, q, syscall(SYS_rename, p, q)) }
int renameat(int d, const char *p, int e, const char *q) { TWO("rename", d, p, e, q, syscall(SYS_renameat, d, p, e, q)) }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { TWO("rename", d, p, e, q, syscall(SYS_renameat2, d, p, e, q, f)) }
int link(const char *p, const char *q) { TWO("link", AT_FDCWD, p, AT_FDCWD, q, syscall(SYS_link, p, q)) }
int linkat(int d, const char *p, int e, const char *q, int f) { TWO("link", d, p, e, q, syscall(SYS_linkat, d, p, e, q, f)) }
int symlink(const char *t, const char *q) { ONE("symlink", AT_FDCWD, q, syscall(SYS_symlink, t, q), 0) }
int symlinkat(const char *t, int d, const char *q) { ONE("symlink", d, q, syscall(SYS_symlinkat, t, d, q), 0) }

/* what the program asks its surroundings for */
static void look(int d, const char *p) {
    init();
    if (!p || !*p) return;
    int e = errno;
    char a[PATH_MAX];
    abspath(d, p, a);
    if (!outside(a)) {
        put_log(0, "look", 0, 0, 0, a, NULL);
        step("look", a);
    }
    errno = e;
}
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) { look(d, p); return syscall(SYS_statx, d, p, f, m, b); }
int stat(const char *restrict p, struct stat *restrict b) { look(AT_FDCWD, p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int lstat(const char *restrict p, struct stat *restrict b) { look(AT_FDCWD, p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *restrict p, struct stat *restrict b, int f) { look(d, p); return syscall(SYS_newfstatat, d, p, b, f); }
int stat64(const char *restrict p, struct stat64 *restrict b) { return stat(p, (struct stat *)b); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { return lstat(p, (struct stat *)b); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict b, int f) { return fstatat(d, p, (struct stat *)b, f); }
int access(const char *p, int m) { look(AT_FDCWD, p); return syscall(SYS_faccessat, AT_FDCWD, p, m); }
int faccessat(int d, const char *p, int m, int f) { look(d, p); return f ? syscall(SYS_faccessat2, d, p, m, f) : syscall(SYS_faccessat, d, p, m); }
char *getenv(const char *name) { init(); put_log(0, "env", 0, 0, 0, name, NULL); return env_of(name); }
char *secure_getenv(const char *name) { return getenv(name); }
int clock_gettime(clockid_t c, struct timespec *t) {
    init();
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0) t->tv_sec += clock_shift;
    put_log(0, "clock", 0, 0, 0, NULL, NULL);
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    (void)z;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
int isatty(int fd) {
    init();
    if (tty && fd >= 0 && fd <= 2) return 1;
    struct { char x[256]; } t;
    return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, &t) == 0;
}
