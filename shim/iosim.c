/* iosim: the simulator's operating system seam for one process of the system under test.
 *
 * Loaded with LD_PRELOAD into the unmodified xsd-parser / wsdl-parser binaries.  Every libc
 * entry point through which those programs meet nondeterminism or faults is intercepted:
 * files, directories, stdout/stderr, the clock, randomness (hash seeds), pids, the allocator,
 * and (when a control pipe is given) the order in which several processes take steps.
 * The plan file decides every choice; nothing here draws from a real clock or real entropy.
 *
 * plan file lines:
 *   root <abs dir>              operations on paths below root are simulated ("tracked")
 *   seed <u64>                  getrandom bytes, pid, clock origin
 *   shuffle <u64>               directory listing order
 *   quota <bytes>               total bytes file writes may add before ENOSPC
 *   ctl <rfd> <wfd>             step pipe: ask before every tracked operation
 *   act <class> <nth> <kind> <arg>
 * classes: open read write mkdir opendir readdir stat close out err alloc rename unlink sync
 * kinds: short N | err E | errall E | crash 0 | crashafter 0 | crashmid N
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OPEN, C_READ, C_WRITE, C_MKDIR, C_OPENDIR, C_READDIR, C_STAT, C_CLOSE, C_OUT, C_ERR,
       C_ALLOC, C_RENAME, C_UNLINK, C_SYNC, NCLASS };
static const char *cls_name[NCLASS] = {"open", "read", "write", "mkdir", "opendir", "readdir",
    "stat", "close", "out", "err", "alloc", "rename", "unlink", "sync"};
enum { K_SHORT = 1, K_ERR, K_ERRALL, K_CRASH, K_CRASHAFTER, K_CRASHMID };
static const char *kind_name[] = {"", "short", "err", "errall", "crash", "crashafter", "crashmid"};

struct act { int cls; long nth; int kind; long arg; };
#define MAXACT 8192
static struct act acts[MAXACT];
static int nacts;
static long count[NCLASS];
static int armed, active, inhook;
static char root[PATH_MAX];
static size_t rootlen;
static char cwd0[PATH_MAX];
static uint64_t seed = 1, rstate = 1, shuf = 0;
static long quota = -1;
static int logfd = -1, ctl_r = -1, ctl_w = -1;
static int64_t simclock_ns;
static unsigned char fdtracked[4096];
static char fdname[256][160];

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static long ret_errno(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static void logline(const char *fmt, ...) {
    if (logfd < 0) return;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    raw(SYS_write, logfd, (long)b, n, 0, 0, 0);
}

static void die(const char *why) {
    logline("CRASH %s\n", why);
    raw(SYS_exit_group, 137, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("IOSIM_PLAN");
    if (!p) return;
    const char *l = getenv("IOSIM_LOG");
    if (l) {
        long fd = raw(SYS_openat, AT_FDCWD, (long)l, O_WRONLY | O_CREAT | O_APPEND, 0644, 0, 0);
        if (fd >= 0) {
            long hi = raw(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900, 0, 0, 0);
            if (hi >= 0) { raw(SYS_close, fd, 0, 0, 0, 0, 0); fd = hi; }
            logfd = (int)fd;
        }
    }
    long fd = raw(SYS_openat, AT_FDCWD, (long)p, O_RDONLY, 0, 0, 0);
    if (fd < 0) { logline("BADPLAN\n"); raw(SYS_exit_group, 99, 0, 0, 0, 0, 0); }
    static char buf[1 << 20];
    long n = 0, k;
    while ((k = raw(SYS_read, fd, (long)buf + n, sizeof buf - 1 - n, 0, 0, 0)) > 0) n += k;
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
    buf[n] = 0;
    for (char *line = buf; line && *line;) {
        char *nl = strchr(line, '\n');
        if (nl) *nl = 0;
        char c[32], kd[32];
        long nth, arg;
        unsigned long long u;
        if (!strncmp(line, "root ", 5)) { strncpy(root, line + 5, sizeof root - 1); rootlen = strlen(root); }
        else if (sscanf(line, "seed %llu", &u) == 1) seed = u;
        else if (sscanf(line, "shuffle %llu", &u) == 1) shuf = u;
        else if (sscanf(line, "quota %ld", &arg) == 1) quota = arg;
        else if (sscanf(line, "ctl %ld %ld", &nth, &arg) == 2) { ctl_r = (int)nth; ctl_w = (int)arg; }
        else if (sscanf(line, "act %31s %ld %31s %ld", c, &nth, kd, &arg) == 4 && nacts < MAXACT) {
            struct act a = {-1, nth, 0, arg};
            for (int i = 0; i < NCLASS; i++) if (!strcmp(c, cls_name[i])) a.cls = i;
            for (int i = 1; i <= K_CRASHMID; i++) if (!strcmp(kd, kind_name[i])) a.kind = i;
            if (a.cls >= 0 && a.kind) acts[nacts++] = a;
        }
        line = nl ? nl + 1 : NULL;
    }
    rstate = seed ^ 0xA5A5A5A5DEADBEEFULL;
    uint64_t t = seed;
    simclock_ns = (int64_t)(mix(&t) % 4000000000ULL) * 1000000000LL + (int64_t)(mix(&t) % 1000000000ULL);
    if (raw(SYS_getcwd, (long)cwd0, sizeof cwd0, 0, 0, 0, 0) < 0) cwd0[0] = 0;
    active = 1;
}

static struct act *lookup(int cls, long nth) {
    struct act *all = NULL;
    for (int i = 0; i < nacts; i++) {
        if (acts[i].cls != cls) continue;
        if (acts[i].nth == nth) return &acts[i];
        if (acts[i].kind == K_ERRALL && acts[i].nth <= nth) all = &acts[i];
    }
    return all;
}

static void step_gate(void) {
    if (ctl_w < 0) return;
    char c = 'R';
    if (raw(SYS_write, ctl_w, (long)&c, 1, 0, 0, 0) != 1) die("ctl");
    long r;
    do r = raw(SYS_read, ctl_r, (long)&c, 1, 0, 0, 0); while (r == -EINTR);
    if (r != 1) die("ctl-closed");
    if (c == 'K') die("killed");
}

/* Decide what happens at this operation.  Returns the action or NULL (proceed). */
static struct act *begin(int cls, const char *what) {
    armed = 1;
    if (cls != C_ALLOC) step_gate();
    long nth = count[cls]++;
    struct act *a = lookup(cls, nth);
    if (cls != C_ALLOC || a)
        logline("OP %s %ld %s%s%s %ld\n", cls_name[cls], nth, what ? what : "-", a ? " ! " : "", a ? kind_name[a->kind] : "", a ? a->arg : 0);
    if (a && a->kind == K_CRASH) die("before-op");
    return a;
}
static int fails(struct act *a) { return a && (a->kind == K_ERR || a->kind == K_ERRALL); }
static void endop(struct act *a) { if (a && a->kind == K_CRASHAFTER) die("after-op"); }

/* lexical absolute normal form; 1 when below root */
static int resolve(const char *path, char *out) {
    char tmp[PATH_MAX * 2];
    if (!path) return 0;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else snprintf(tmp, sizeof tmp, "%s/%s", cwd0, path);
    char *segs[512];
    int n = 0;
    char *save = NULL;
    for (char *s = strtok_r(tmp, "/", &save); s; s = strtok_r(NULL, "/", &save)) {
        if (!strcmp(s, ".")) continue;
        if (!strcmp(s, "..")) { if (n) n--; continue; }
        if (n < 512) segs[n++] = s;
    }
    size_t o = 0;
    out[0] = 0;
    for (int i = 0; i < n; i++) {
        size_t l = strlen(segs[i]);
        if (o + l + 2 >= PATH_MAX) return 0;
        out[o++] = '/';
        memcpy(out + o, segs[i], l);
        o += l;
        out[o] = 0;
    }
    return rootlen && !strncmp(out, root, rootlen) && (out[rootlen] == '/' || out[rootlen] == 0);
}
static const char *rel(const char *abs) {
    static __thread char enc[200];
    const char *s = abs + (strlen(abs) >= rootlen ? rootlen : 0);
    if (*s == '/') s++;
    size_t o = 0;
    for (; *s && o < sizeof enc - 2; s++) enc[o++] = (*s <= ' ' || *s == '!') ? '_' : *s;
    if (!o) enc[o++] = '.';
    enc[o] = 0;
    return enc;
}
static int escape_ok(const char *abs) { return !strcmp(abs, "/dev/null") || !strcmp(abs, "/dev/tty"); }

/* ---------------------------------------------------------------- files */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!active || inhook) return (int)ret_errno(raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    char abs[PATH_MAX];
    int in = (dirfd == AT_FDCWD || path[0] == '/') && resolve(path, abs);
    if (!in) {
        if ((flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY) {
            if (!escape_ok(path)) { logline("ESCAPE open %s\n", path); errno = EACCES; return -1; }
        }
        return (int)ret_errno(raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    }
    char w[220];
    snprintf(w, sizeof w, "%c:%s", (flags & O_ACCMODE) == O_RDONLY ? 'r' : 'w', rel(abs));
    struct act *a = begin(C_OPEN, w);
    if (fails(a)) { errno = (int)a->arg; return -1; }
    int fd = (int)ret_errno(raw(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
    if (fd >= 0 && fd < 4096) { fdtracked[fd] = 1; if (fd < 256) snprintf(fdname[fd], sizeof fdname[fd], "%.150s", w); }
    int e = errno;
    endop(a);
    errno = e;
    return fd;
}
int open(const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); return do_open(d, p, f, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int tracked(int fd) { return active && !inhook && fd >= 0 && fd < 4096 && fdtracked[fd]; }
static const char *fdn(int fd) { return fd >= 0 && fd < 256 && fdname[fd][0] ? fdname[fd] : "?"; }

static ssize_t do_read(int fd, void *b, size_t n, long off) {
    if (!tracked(fd)) return ret_errno(off < 0 ? raw(SYS_read, fd, (long)b, n, 0, 0, 0) : raw(SYS_pread64, fd, (long)b, n, off, 0, 0));
    struct act *a = begin(C_READ, fdn(fd));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    if (a && a->kind == K_SHORT && (size_t)a->arg < n) n = a->arg > 0 ? (size_t)a->arg : 1;
    ssize_t r = ret_errno(off < 0 ? raw(SYS_read, fd, (long)b, n, 0, 0, 0) : raw(SYS_pread64, fd, (long)b, n, off, 0, 0));
    int e = errno; endop(a); errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!tracked(fd) || c < 1) return ret_errno(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}

static int wclass(int fd) { return fd == 1 ? C_OUT : fd == 2 ? C_ERR : C_WRITE; }
static ssize_t rawwrite(int fd, const void *b, size_t n, long off) {
    return ret_errno(off < 0 ? raw(SYS_write, fd, (long)b, n, 0, 0, 0) : raw(SYS_pwrite64, fd, (long)b, n, off, 0, 0));
}
static ssize_t do_write(int fd, const void *b, size_t n, long off) {
    if (!active || inhook || !((fd == 1 || fd == 2) || tracked(fd))) return rawwrite(fd, b, n, off);
    int cls = tracked(fd) ? C_WRITE : wclass(fd);
    struct act *a = begin(cls, cls == C_WRITE ? fdn(fd) : "-");
    if (fails(a)) { errno = (int)a->arg; return -1; }
    if (a && (a->kind == K_SHORT || a->kind == K_CRASHMID) && (size_t)a->arg < n) n = a->arg > 0 ? (size_t)a->arg : (a->kind == K_SHORT ? 1 : 0);
    if (cls == C_WRITE && quota >= 0) {
        if (n > 0 && quota == 0) { logline("ENOSPC\n"); errno = ENOSPC; return -1; }
        if ((long)n > quota) n = (size_t)quota;
        quota -= (long)n;
    }
    ssize_t r = n ? rawwrite(fd, b, n, off) : 0;
    int e = errno;
    if (a && a->kind == K_CRASHMID) die("mid-write");
    endop(a);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!active || inhook || !((fd == 1 || fd == 2) || tracked(fd))) return ret_errno(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
/* kernel-side copies are refused so that callers fall back to read/write, which are simulated */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a;(void)b;(void)c;(void)d;(void)e;(void)f; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { (void)a;(void)b;(void)c;(void)d; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a;(void)b;(void)c;(void)d; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a;(void)b;(void)c;(void)d;(void)e;(void)f; errno = ENOSYS; return -1; }

int close(int fd) {
    if (!tracked(fd)) return (int)ret_errno(raw(SYS_close, fd, 0, 0, 0, 0, 0));
    struct act *a = begin(C_CLOSE, fdn(fd));
    fdtracked[fd] = 0;
    int r = (int)ret_errno(raw(SYS_close, fd, 0, 0, 0, 0, 0));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    endop(a);
    return r;
}
static int simple_path(int cls, const char *p, long nr, long x1, long x2, long x3, int pathpos, int mutating) {
    long args[4] = {0, 0, 0, 0};
    (void)pathpos;
    args[0] = x1; args[1] = x2; args[2] = x3;
    if (!active || inhook) return (int)ret_errno(raw(nr, args[0], args[1], args[2], 0, 0, 0));
    char abs[PATH_MAX];
    if (!resolve(p, abs)) {
        size_t al = strlen(abs);
        if (cls == C_MKDIR && nr == SYS_mkdirat && !strncmp(root, abs, al) && (root[al] == '/' || al <= 1)) { errno = EEXIST; return -1; } /* an ancestor of the world */
        if (mutating) { logline("ESCAPE %s %s\n", cls_name[cls], p); errno = EACCES; return -1; }
        return (int)ret_errno(raw(nr, args[0], args[1], args[2], 0, 0, 0));
    }
    struct act *a = begin(cls, rel(abs));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    int r = (int)ret_errno(raw(nr, args[0], args[1], args[2], 0, 0, 0));
    int e = errno; endop(a); errno = e;
    return r;
}
int mkdir(const char *p, mode_t m) { return simple_path(C_MKDIR, p, SYS_mkdirat, AT_FDCWD, (long)p, m, 1, 1); }
int mkdirat(int d, const char *p, mode_t m) { if (d != AT_FDCWD) return (int)ret_errno(raw(SYS_mkdirat, d, (long)p, m, 0, 0, 0)); return mkdir(p, m); }
int unlink(const char *p) { return simple_path(C_UNLINK, p, SYS_unlinkat, AT_FDCWD, (long)p, 0, 1, 1); }
int rmdir(const char *p) { return simple_path(C_UNLINK, p, SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR, 1, 1); }
int unlinkat(int d, const char *p, int f) {
    if (d != AT_FDCWD) { if (active) logline("OP unlink -1 at:%s 0\n", p); return (int)ret_errno(raw(SYS_unlinkat, d, (long)p, f, 0, 0, 0)); }
    return simple_path(C_UNLINK, p, SYS_unlinkat, AT_FDCWD, (long)p, f, 1, 1);
}
int truncate(const char *p, off_t n) { return simple_path(C_WRITE, p, SYS_truncate, (long)p, n, 0, 0, 1); }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int chmod(const char *p, mode_t m) { return simple_path(C_UNLINK, p, SYS_fchmodat, AT_FDCWD, (long)p, m, 1, 1); }
int symlink(const char *t, const char *p) { return simple_path(C_MKDIR, p, SYS_symlinkat, (long)t, AT_FDCWD, (long)p, 2, 1); }
int link(const char *o, const char *p) { (void)o; (void)p; errno = EPERM; return -1; }
int ftruncate(int fd, off_t n) {
    if (!tracked(fd)) return (int)ret_errno(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0));
    struct act *a = begin(C_WRITE, fdn(fd));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    int r = (int)ret_errno(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0));
    int e = errno; endop(a); errno = e;
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int rename(const char *o, const char *n) {
    if (!active) return (int)ret_errno(raw(SYS_rename, (long)o, (long)n, 0, 0, 0, 0));
    char a1[PATH_MAX], a2[PATH_MAX];
    if (!resolve(o, a1) || !resolve(n, a2)) { logline("ESCAPE rename %s\n", n); errno = EACCES; return -1; }
    struct act *a = begin(C_RENAME, rel(a2));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    int r = (int)ret_errno(raw(SYS_rename, (long)o, (long)n, 0, 0, 0, 0));
    int e = errno; endop(a); errno = e;
    return r;
}
int renameat(int d, const char *o, int d2, const char *n) { (void)d; (void)d2; return rename(o, n); }
int renameat2(int d, const char *o, int d2, const char *n, unsigned f) { (void)d; (void)d2; (void)f; return rename(o, n); }
static int do_sync(int fd, long nr) {
    if (!tracked(fd)) return (int)ret_errno(raw(nr, fd, 0, 0, 0, 0, 0));
    struct act *a = begin(C_SYNC, fdn(fd));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    endop(a);
    return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* ---------------------------------------------------------------- stat */
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
    char abs[PATH_MAX];
    const char *volatile vp = p; /* std probes statx(0, NULL, ...); the header says nonnull */
    if (!active || inhook || !vp || !*vp || (d != AT_FDCWD && p[0] != '/') || !resolve(p, abs))
        return (int)ret_errno(raw(SYS_statx, d, (long)p, f, m, (long)b, 0));
    struct act *a = begin(C_STAT, rel(abs));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    int r = (int)ret_errno(raw(SYS_statx, d, (long)p, f, m, (long)b, 0));
    int e = errno; endop(a); errno = e;
    return r;
}
static int do_stat(const char *p, struct stat *b, int fl) {
    char abs[PATH_MAX];
    if (!active || inhook || !resolve(p, abs)) return (int)ret_errno(raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)b, fl, 0, 0));
    struct act *a = begin(C_STAT, rel(abs));
    if (fails(a)) { errno = (int)a->arg; return -1; }
    int r = (int)ret_errno(raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)b, fl, 0, 0));
    int e = errno; endop(a); errno = e;
    return r;
}
int stat(const char *restrict p, struct stat *restrict b) { return do_stat(p, b, 0); }
int lstat(const char *restrict p, struct stat *restrict b) { return do_stat(p, b, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *restrict p, struct stat64 *restrict b) { return do_stat(p, (struct stat *)b, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { return do_stat(p, (struct stat *)b, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int m) { return simple_path(C_STAT, p, SYS_faccessat, AT_FDCWD, (long)p, m, 1, 0); }

/* ---------------------------------------------------------------- directories */
struct simdir { int used; DIR *real; struct dirent64 *ents; int n, pos; char name[160]; };
static struct simdir dirs[64];

static DIR *(*real_opendir)(const char *);
static struct dirent64 *(*real_readdir64)(DIR *);
static int (*real_closedir)(DIR *);
static void dirsyms(void) {
    if (real_opendir) return;
    real_opendir = dlsym(RTLD_NEXT, "opendir");
    real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
    real_closedir = dlsym(RTLD_NEXT, "closedir");
}
static int entcmp(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }

DIR *opendir(const char *p) {
    inhook++; dirsyms(); inhook--;
    char abs[PATH_MAX];
    if (!active || !resolve(p, abs)) { inhook++; DIR *d = real_opendir(p); inhook--; return d; }
    struct act *a = begin(C_OPENDIR, rel(abs));
    if (fails(a)) { errno = (int)a->arg; return NULL; }
    inhook++;
    DIR *d = real_opendir(p);
    if (d) {
        for (int i = 0; i < 64; i++) if (!dirs[i].used) {
            struct simdir *s = &dirs[i];
            memset(s, 0, sizeof *s);
            s->used = 1; s->real = d;
            snprintf(s->name, sizeof s->name, "%s", rel(abs));
            int cap = 0;
            struct dirent64 *e;
            while ((e = real_readdir64(d))) {
                if (s->n == cap) { cap = cap ? cap * 2 : 16; s->ents = realloc(s->ents, cap * sizeof *s->ents); }
                memset(&s->ents[s->n], 0, sizeof *s->ents);
                memcpy(&s->ents[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
                s->n++;
            }
            qsort(s->ents, s->n, sizeof *s->ents, entcmp);
            uint64_t st = shuf;
            for (const char *c = s->name; *c; c++) st = st * 1099511628211ULL + (unsigned char)*c;
            if (shuf) for (int k = s->n - 1; k > 0; k--) {
                int j = (int)(mix(&st) % (uint64_t)(k + 1));
                struct dirent64 t = s->ents[k]; s->ents[k] = s->ents[j]; s->ents[j] = t;
            }
            for (int k = 0; k < s->n; k++) { s->ents[k].d_ino = 1000 + k; s->ents[k].d_off = k + 1; if (shuf & 1) s->ents[k].d_type = DT_UNKNOWN; }
            break;
        }
    }
    inhook--;
    endop(a);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    inhook++; dirsyms(); inhook--;
    for (int i = 0; i < 64; i++) if (dirs[i].used && dirs[i].real == d) {
        struct simdir *s = &dirs[i];
        struct act *a = begin(C_READDIR, s->name);
        if (fails(a)) { errno = (int)a->arg; return NULL; }
        struct dirent64 *r = s->pos < s->n ? &s->ents[s->pos++] : NULL;
        if (r) logline("ENT %s\n", r->d_name);
        endop(a);
        return r; /* errno untouched at end of directory */
    }
    return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    inhook++; dirsyms();
    for (int i = 0; i < 64; i++) if (dirs[i].used && dirs[i].real == d) { dirs[i].used = 0; free(dirs[i].ents); }
    int r = real_closedir(d);
    inhook--;
    return r;
}

/* ---------------------------------------------------------------- clock, entropy, identity */
static int64_t tick(void) { uint64_t t = seed + (uint64_t)simclock_ns; simclock_ns += 1000 + (int64_t)(mix(&t) % 50000000ULL); return simclock_ns; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!active) return (int)ret_errno(raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
    int64_t n = tick();
    logline("OP clock 0 - 0\n");
    ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; struct timespec ts; clock_gettime(0, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(0, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec *r, struct timespec *m) { (void)m; if (!active) return (int)ret_errno(raw(SYS_nanosleep, (long)r, (long)m, 0, 0, 0, 0)); simclock_ns += r->tv_sec * 1000000000LL + r->tv_nsec; logline("OP sleep 0 - %ld\n", (long)r->tv_sec); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) { (void)c; (void)f; return nanosleep(r, m) ? errno : 0; }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!active) return ret_errno(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0));
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)mix(&rstate);
    if (armed) logline("OP getrandom 0 - %ld\n", (long)n);
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) {
    if (!active) return (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    return (pid_t)(2 + seed % 30000);
}

/* ---------------------------------------------------------------- allocator */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static int allocfail(void) {
    if (!active || !armed || inhook) return 0;
    inhook++;
    struct act *a = begin(C_ALLOC, NULL);
    inhook--;
    return fails(a);
}
void *malloc(size_t n) { if (allocfail()) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (allocfail()) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (n && allocfail()) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (allocfail()) return ENOMEM; void *r = __libc_memalign(a, n); if (!r) return ENOMEM; *p = r; return 0; }
void *aligned_alloc(size_t a, size_t n) { if (allocfail()) { errno = ENOMEM; return NULL; } return __libc_memalign(a, n); }

__attribute__((destructor)) static void fini(void) {
    if (active) logline("END alloc=%ld\n", count[C_ALLOC]);
}
