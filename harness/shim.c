/* LD_PRELOAD library used by the harness: virtual time, injected errors,
   kill points, and a log of the operations on files.

   SHIM_NOW=secs          the time (only ever advanced by sleeping)
   SHIM_CTIMES=file       "ino ctime" lines: virtual ctimes (secs)
   SHIM_SLEEPHOOK=cmd     run (once) when the process first sleeps, after the time advanced
   SHIM_FAIL=spec[\n...]  "op errno skip path": op in open read lstat readlink opendir xattr
   SHIM_ROOT=prefix       paths that count for the following
   SHIM_COUNTER=file      shared counter of operations (8 bytes)
   SHIM_GIT=1             count git commands that are started
   SHIM_KILLAT=n          SIGKILL the process group just before operation n
   SHIM_TORN=1            ... but if it is a write, after writing half of it
   SHIM_ONLY=ops          comma separated ops which count (default all)
   SHIM_LOG=file          log of operations (and of what's renamed to references)
   SHIM_KEEP=dir          keep links to the pack files that are unlinked there
   SHIM_GATES="m n ..."   before operation n, create SHIM_GATEDIR/at.n and wait for SHIM_GATEDIR/go.n
   SHIM_GITOPS=1          count git's own operations too
   Otherwise processes running git don't count operations (they are taken to be atomic).
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define REAL(name) ({ static __typeof__(&name) r_; \
    if (!r_) r_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); r_; })

static int have_now, hooked;
static double fake_now;
static struct ct { unsigned long long ino; long long t; } *cts;
static int n_cts;
static int inited;
static const char *root; static size_t root_len;
static int64_t *counter; static int64_t killat; static int torn;
static const char *only;
static int log_fd = -1;
static int is_git, gitops;
static int64_t gates[16]; static int n_gates; static const char *gatedir;
static const char *keep;
static struct fail { char op[16]; int err; int skip; char path[PATH_MAX]; } fails[64];
static int n_fails;

static void load_ctimes(void)
{
    const char *p = getenv("SHIM_CTIMES");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return;
    static char buf[1 << 20];
    size_t n = 0; ssize_t r;
    while (n < sizeof buf - 1 && (r = syscall(SYS_read, fd, buf + n, sizeof buf - 1 - n)) > 0) n += r;
    buf[n] = 0;
    syscall(SYS_close, fd);
    free(cts); cts = malloc(sizeof *cts * 65536); n_cts = 0;
    for (char *s = buf; *s && n_cts < 65536; ) {
        char *e;
        unsigned long long i = strtoull(s, &e, 10);
        if (e == s) break;
        long long t = strtoll(e, &e, 10);
        cts[n_cts].ino = i; cts[n_cts++].t = t;
        s = e; while (*s == '\n') s++;
    }
}

static void git_started(void);
__attribute__((constructor)) static void init(void)
{
    if (inited) return;
    inited = 1;
    const char *s;
    if ((s = getenv("SHIM_NOW"))) { have_now = 1; fake_now = atof(s); }
    load_ctimes();
    if ((s = getenv("SHIM_ROOT"))) { root = strdup(s); root_len = strlen(root); }
    if ((s = getenv("SHIM_COUNTER"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_RDWR | O_CLOEXEC);
        if (fd >= 0) {
            void *m = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) counter = m;
            syscall(SYS_close, fd);
        }
    }
    if ((s = getenv("SHIM_KEEP"))) keep = strdup(s);
    {
        char b[64] = "";
        int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/comm", O_RDONLY | O_CLOEXEC);
        if (fd >= 0) { long r_ = syscall(SYS_read, fd, b, sizeof b - 1); (void)r_; syscall(SYS_close, fd); }
        is_git = !strncmp(b, "git", 3);
    }
    if ((s = getenv("SHIM_KILLAT"))) killat = atoll(s);
    torn = getenv("SHIM_TORN") != NULL;
    gitops = getenv("SHIM_GITOPS") != NULL;
    if ((s = getenv("SHIM_GATES"))) {
        char *e;
        for (long long v = strtoll(s, &e, 10); e != s && n_gates < 16; s = e, v = strtoll(s, &e, 10)) gates[n_gates++] = v;
    }
    if ((s = getenv("SHIM_GATEDIR"))) gatedir = strdup(s);
    if ((s = getenv("SHIM_ONLY"))) only = strdup(s);
    if ((s = getenv("SHIM_LOG")))
        log_fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    if (log_fd >= 0) { /* keep out of the way */
        int f2 = syscall(SYS_fcntl, log_fd, F_DUPFD_CLOEXEC, 900);
        if (f2 >= 0) { syscall(SYS_close, log_fd); log_fd = f2; }
    }
    if ((s = getenv("SHIM_FAIL"))) {
        char *d = strdup(s), *save;
        for (char *l = strtok_r(d, "\n", &save); l && n_fails < 64; l = strtok_r(NULL, "\n", &save)) {
            struct fail *f = &fails[n_fails];
            int off;
            if (sscanf(l, "%15s %d %d %n", f->op, &f->err, &f->skip, &off) == 3) {
                snprintf(f->path, sizeof f->path, "%s", l + off);
                n_fails++;
            }
        }
        free(d);
    }
    if (is_git && root && getenv("SHIM_GIT")) git_started();
}

/* ---- paths */
static void fdpath(int fd, char *out)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, PATH_MAX - 1);
    out[n > 0 ? n : 0] = 0;
}

static void abspath(int dirfd, const char *p, char *out)
{
    if (!p) { out[0] = 0; return; }
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
    } else
        fdpath(dirfd, base);
    if (p[0] == '.' && p[1] == '/') p += 2;
    int l = snprintf(out, PATH_MAX, "%s/", base);
    if (l < PATH_MAX) snprintf(out + l, PATH_MAX - l, "%s", p);
}

static int injected(const char *op, const char *path)
{
    for (int i = 0; i < n_fails; i++)
        if (!strcmp(fails[i].op, op) && !strcmp(fails[i].path, path)) {
            if (fails[i].skip > 0) { fails[i].skip--; continue; }
            return fails[i].err;
        }
    return 0;
}
#define INJECT(op, dirfd, path, bad) do { if (n_fails) { char a_[PATH_MAX]; \
    abspath(dirfd, path, a_); int e_ = injected(op, a_); if (e_) { errno = e_; return bad; } } } while (0)

/* ---- operations */
static int active(void) { init(); return counter || log_fd >= 0; }

/* 1: go on; 2: torn (do half of it, then die) */
static int op(const char *name, const char *p1, const char *p2, long long n)
{
    if (root && strncmp(p1, root, root_len) && (!p2 || strncmp(p2, root, root_len))) return 1;
    int saved = errno, ret = 1;
    int counts = 1;
    if (only) {
        const char *m = only; size_t l = strlen(name); counts = 0;
        while ((m = strstr(m, name))) {
            if ((m == only || m[-1] == ',') && (m[l] == 0 || m[l] == ',')) { counts = 1; break; }
            m++;
        }
    }
    int64_t k = 0;
    if (counter && counts && (!is_git || gitops)) {
        k = __atomic_add_fetch(counter, 1, __ATOMIC_SEQ_CST);
        for (int i = 0; i < n_gates; i++)
            if (gates[i] == k) {
                char g[PATH_MAX];
                snprintf(g, sizeof g, "%s/at.%lld", gatedir, (long long)k);
                int fd = syscall(SYS_openat, AT_FDCWD, g, O_WRONLY | O_CREAT | O_CLOEXEC, 0666);
                if (fd >= 0) syscall(SYS_close, fd);
                snprintf(g, sizeof g, "%s/go.%lld", gatedir, (long long)k);
                for (int t = 0; t < 60000; t++) {
                    struct timespec ts = { 0, 1000000 };
                    if (syscall(SYS_faccessat, AT_FDCWD, g, F_OK) == 0) break;
                    syscall(SYS_nanosleep, &ts, NULL);
                }
            }
        if (killat && k > killat) { for (;;) kill(0, SIGKILL); }
        if (killat && k == killat) {
            if (torn && !strcmp(name, "write") && n > 1) ret = 2;
            else for (;;) kill(0, SIGKILL);
        }
    }
    if (log_fd >= 0) {
        char b[2 * PATH_MAX + 256], v[64] = "";
        if (p2 && strstr(p2, "/refs/")) {
            int fd = syscall(SYS_openat, AT_FDCWD, p1, O_RDONLY | O_CLOEXEC);
            if (fd >= 0) {
                long r_ = syscall(SYS_read, fd, v, 40);
                v[r_ > 0 ? r_ : 0] = 0;
                syscall(SYS_close, fd);
            }
        }
        int l = snprintf(b, sizeof b, "%s\t%s\t%s\t%lld\t%d\t%s\t%d\n", name, p1, p2 ? p2 : "", n, getpid(), v, is_git);
        if (l > 0 && l < (int)sizeof b) { long r_ = syscall(SYS_write, log_fd, b, l); (void)r_; }
    }
    errno = saved;
    return ret;
}
/* A git command that bup starts counts as one operation (those within it don't) */
static void git_started(void)
{
    char p[64], b[64] = "";
    snprintf(p, sizeof p, "/proc/%d/comm", getppid());
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC);
    if (fd >= 0) { long r_ = syscall(SYS_read, fd, b, sizeof b - 1); (void)r_; syscall(SYS_close, fd); }
    if (!strncmp(b, "git", 3)) return;
    is_git = 0;
    op("git", root, NULL, 0);
    is_git = 1;
}
static int fdop(const char *name, int fd, long long n)
{
    char p[PATH_MAX];
    fdpath(fd, p);
    if (p[0] != '/') return 1;
    return op(name, p, NULL, n);
}

#define OPENFLAGS (O_CREAT | O_TRUNC)
static void openop(int dirfd, const char *path, int flags)
{
    if (!active()) return;
    if (!(flags & OPENFLAGS)) return;
    char a[PATH_MAX];
    abspath(dirfd, path, a);
    struct stat st;
    int exists = syscall(SYS_newfstatat, AT_FDCWD, a, &st, 0) == 0;
    if (!exists && (flags & O_CREAT)) op("create", a, NULL, 0);
    else if (exists && (flags & O_TRUNC)) op("truncate", a, NULL, 0);
}

#define MODE va_list ap; va_start(ap, flags); mode_t mode = \
    (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char *path, int flags, ...)
{ MODE; INJECT("open", AT_FDCWD, path, -1); openop(AT_FDCWD, path, flags); return REAL(open)(path, flags, mode); }
int open64(const char *path, int flags, ...)
{ MODE; INJECT("open", AT_FDCWD, path, -1); openop(AT_FDCWD, path, flags); return REAL(open64)(path, flags, mode); }
int openat(int d, const char *path, int flags, ...)
{ MODE; INJECT("open", d, path, -1); openop(d, path, flags); return REAL(openat)(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...)
{ MODE; INJECT("open", d, path, -1); openop(d, path, flags); return REAL(openat64)(d, path, flags, mode); }

static void die(void) { for (;;) kill(0, SIGKILL); }

ssize_t write(int fd, const void *b, size_t n)
{
    if (active()) {
        int r = fdop("write", fd, n);
        if (r == 2) { REAL(write)(fd, b, n / 2); die(); }
    }
    return REAL(write)(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ if (active()) fdop("pwrite", fd, n); return REAL(pwrite64)(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ if (active()) fdop("pwrite", fd, n); return REAL(pwrite)(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n)
{ if (active()) fdop("write", fd, 1); return REAL(writev)(fd, v, n); }
int ftruncate64(int fd, off64_t n)
{ if (active()) fdop("truncate", fd, n); return REAL(ftruncate64)(fd, n); }
int ftruncate(int fd, off_t n)
{ if (active()) fdop("truncate", fd, n); return REAL(ftruncate)(fd, n); }
int fsync(int fd) { if (active()) fdop("fsync", fd, 0); return REAL(fsync)(fd); }
int fdatasync(int fd) { if (active()) fdop("fsync", fd, 0); return REAL(fdatasync)(fd); }
static int rn(int d1, const char *a, int d2, const char *b, const char *name)
{
    if (!active()) return 1;
    char p[PATH_MAX], q[PATH_MAX];
    abspath(d1, a, p); abspath(d2, b, q);
    return op(name, p, q, 0);
}
int rename(const char *a, const char *b) { rn(AT_FDCWD, a, AT_FDCWD, b, "rename"); return REAL(rename)(a, b); }
int renameat(int d1, const char *a, int d2, const char *b) { rn(d1, a, d2, b, "rename"); return REAL(renameat)(d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { rn(d1, a, d2, b, "rename"); return REAL(renameat2)(d1, a, d2, b, f); }
int link(const char *a, const char *b) { rn(AT_FDCWD, a, AT_FDCWD, b, "link"); return REAL(link)(a, b); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { rn(d1, a, d2, b, "link"); return REAL(linkat)(d1, a, d2, b, f); }
static void p1op(const char *name, int d, const char *a)
{ if (active()) { char p[PATH_MAX]; abspath(d, a, p); op(name, p, NULL, 0); } }
static void keepit(int d, const char *a)
{
    if (!keep) return;
    char p[PATH_MAX], q[PATH_MAX + 300];
    abspath(d, a, p);
    const char *b = strrchr(p, '/');
    if (b && strstr(p, "/objects/pack/pack-")) {
        snprintf(q, sizeof q, "%s%s", keep, b);
        syscall(SYS_linkat, AT_FDCWD, p, AT_FDCWD, q, 0);
    }
}
int unlink(const char *a) { keepit(AT_FDCWD, a); p1op("unlink", AT_FDCWD, a); return REAL(unlink)(a); }
int unlinkat(int d, const char *a, int f) { keepit(d, a); p1op("unlink", d, a); return REAL(unlinkat)(d, a, f); }
int rmdir(const char *a) { p1op("rmdir", AT_FDCWD, a); return REAL(rmdir)(a); }
int mkdir(const char *a, mode_t m) { p1op("mkdir", AT_FDCWD, a); return REAL(mkdir)(a, m); }
int mkdirat(int d, const char *a, mode_t m) { p1op("mkdir", d, a); return REAL(mkdirat)(d, a, m); }
int symlink(const char *t, const char *a) { p1op("symlink", AT_FDCWD, a); return REAL(symlink)(t, a); }
int symlinkat(const char *t, int d, const char *a) { p1op("symlink", d, a); return REAL(symlinkat)(t, d, a); }

/* ---- time */
int clock_gettime(clockid_t c, struct timespec *ts)
{
    init();
    if (have_now && c == CLOCK_REALTIME) {
        ts->tv_sec = (time_t)fake_now; ts->tv_nsec = (long)((fake_now - (time_t)fake_now) * 1e9);
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
static void slept(double d)
{
    fake_now += d;
    /* absolute monotonic deadlines lose a few microseconds: back to the tick */
    double r = (double)(long long)(fake_now + 0.5);
    if (fake_now - r < 0.2 && r - fake_now < 0.2) fake_now = r;
    const char *h = getenv("SHIM_SLEEPHOOK");
    if (h && !hooked) {
        hooked = 1;
        pid_t pid = fork();
        if (pid == 0) {
            unsetenv("LD_PRELOAD");
            execl("/bin/sh", "sh", "-c", h, (char *)NULL);
            _exit(127);
        }
        int st; waitpid(pid, &st, 0);
        load_ctimes();
    }
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
    init();
    if (!have_now) return REAL(clock_nanosleep)(c, flags, t, rem);
    double d = t->tv_sec + t->tv_nsec / 1e9;
    if (flags & TIMER_ABSTIME) {
        struct timespec n;
        clock_gettime(c, &n);
        d -= n.tv_sec + n.tv_nsec / 1e9;
    }
    if (d > 0) slept(d);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
    init();
    if (!have_now) return REAL(nanosleep)(t, rem);
    slept(t->tv_sec + t->tv_nsec / 1e9);
    return 0;
}

/* ---- stat */
static void fixst(struct stat64 *st)
{
    for (int i = n_cts - 1; i >= 0; i--)
        if (cts[i].ino == st->st_ino) {
            st->st_ctim.tv_sec = cts[i].t; st->st_ctim.tv_nsec = 0;
            return;
        }
}
int stat64(const char *p, struct stat64 *st)
{ init(); int r = REAL(stat64)(p, st); if (!r && n_cts) fixst(st); return r; }
int lstat64(const char *p, struct stat64 *st)
{ init(); INJECT("lstat", AT_FDCWD, p, -1); int r = REAL(lstat64)(p, st); if (!r && n_cts) fixst(st); return r; }
int fstat64(int fd, struct stat64 *st)
{ init(); int r = REAL(fstat64)(fd, st); if (!r && n_cts) fixst(st); return r; }
int fstatat64(int d, const char *p, struct stat64 *st, int f)
{
    init();
    if (f & AT_SYMLINK_NOFOLLOW) INJECT("lstat", d, p, -1);
    int r = REAL(fstatat64)(d, p, st, f);
    if (!r && n_cts) fixst(st);
    return r;
}

/* ---- faults */
ssize_t read(int fd, void *b, size_t n)
{
    if (n_fails) {
        char p[PATH_MAX];
        fdpath(fd, p);
        int e = injected("read", p);
        if (e) { errno = e; return -1; }
    }
    return REAL(read)(fd, b, n);
}
ssize_t readlink(const char *p, char *b, size_t n)
{ INJECT("readlink", AT_FDCWD, p, -1); return REAL(readlink)(p, b, n); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n)
{ INJECT("readlink", d, p, -1); return REAL(readlinkat)(d, p, b, n); }
DIR *opendir(const char *p)
{ INJECT("opendir", AT_FDCWD, p, NULL); return REAL(opendir)(p); }
DIR *fdopendir(int fd)
{
    if (n_fails) {
        char p[PATH_MAX];
        fdpath(fd, p);
        int e = injected("opendir", p);
        if (e) { errno = e; return NULL; }
    }
    return REAL(fdopendir)(fd);
}
ssize_t llistxattr(const char *p, char *b, size_t n)
{
  INJECT("xattr", AT_FDCWD, p, -1);
  static ssize_t (*r)(const char *, char *, size_t);
  if (!r) r = dlsym(RTLD_NEXT, "llistxattr");
  return r(p, b, n); }
