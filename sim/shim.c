/* Simulation seam at the libc boundary.
 *
 * Loaded with LD_PRELOAD. Inert until sim_attach() is called in a process; from then on every file
 * operation of that process on a path below the simulated root is announced to the controller
 * over a socket and waits for its verdict: go on, fail with an errno, do only part of it, die
 * before / in the middle of / after it, or receive SIGINT at it.  Directory listings come back
 * sorted, or shuffled by a seed chosen by the controller; getrandom() and the real-time clock
 * can be made deterministic.  A process that forks is not simulated in the child.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPENR = 1, OP_OPENW, OP_READ, OP_WRITE, OP_TRUNC, OP_FSYNC, OP_CLOSEW, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_RMDIR, OP_OPENDIR, OP_LINK, OP_CHMOD, OP_STAT, OP_LOCK };
enum { A_GO = 0, A_FAIL, A_SHORT, A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_PARTIAL, A_SIGINT, A_SIGINT_EINTR };

struct msg { uint32_t op; int32_t fd; uint64_t arg; uint64_t arg2; char path[232]; char path2[232]; };
struct rep { uint32_t action; int32_t err; uint64_t n; };

#define MAXFD 4096
static volatile int active = 0;
static pid_t attached_pid;
static int ctl = -1;
static char root[512];
static size_t rootlen;
static uint32_t mask;
static uint64_t rng;
static int rng_on;
static int64_t clock_off;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char *fdpath[MAXFD];
static unsigned char fdwr[MAXFD];

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int sim_attach(int fd, const char *r, uint32_t m, uint64_t seed, int64_t off) {
    ctl = fd; strncpy(root, r, sizeof root - 1); rootlen = strlen(root); mask = m;
    rng = seed; rng_on = seed != 0; clock_off = off; attached_pid = getpid();
    memset(fdwr, 0, sizeof fdwr);
    memset(fdpath, 0, sizeof fdpath);
    active = 1; return 0;
}
void sim_detach(void) { active = 0; }

static int on(void) { return active && getpid() == attached_pid; }

/* absolute, lexically normalised path; returns pointer relative to root or NULL */
static const char *under(int dirfd, const char *path, char *buf, size_t n) {
    char tmp[1400];
    if (!path) return NULL;
    if (path[0] == '/') { if (snprintf(tmp, sizeof tmp, "%s", path) >= (int)sizeof tmp) return NULL; }
    else {
        char cwd[600];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL; }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = syscall(SYS_readlink, l, cwd, sizeof cwd - 1);
            if (k < 0) return NULL;
            cwd[k] = 0;
        }
        if (snprintf(tmp, sizeof tmp, "%s/%s", cwd, path) >= (int)sizeof tmp) return NULL;
    }
    size_t o = 0; buf[0] = 0;
    char *p = tmp;
    while (*p) {
        while (*p == '/') p++;
        char *q = p; while (*q && *q != '/') q++;
        size_t len = q - p;
        if (len == 0) break;
        if (len == 1 && p[0] == '.') ;
        else if (len == 2 && p[0] == '.' && p[1] == '.') { while (o > 0 && buf[o - 1] != '/') o--; if (o > 0) o--; buf[o] = 0; }
        else { if (o + len + 2 >= n) return NULL; buf[o++] = '/'; memcpy(buf + o, p, len); o += len; buf[o] = 0; }
        p = q;
    }
    if (strncmp(buf, root, rootlen) || (buf[rootlen] && buf[rootlen] != '/')) return NULL;
    return buf[rootlen] ? buf + rootlen + 1 : ".";
}

static void die(void) { syscall(SYS_exit_group, 137); for (;;) ; }

static struct rep ask(uint32_t op, int fd, const char *path, const char *path2, uint64_t arg, uint64_t arg2) {
    struct rep r = {A_GO, 0, 0};
    if (!(mask & (1u << op))) return r;
    int e = errno;
    struct msg m; memset(&m, 0, sizeof m);
    m.op = op; m.fd = fd; m.arg = arg; m.arg2 = arg2;
    if (path) strncpy(m.path, path, sizeof m.path - 1);
    if (path2) strncpy(m.path2, path2, sizeof m.path2 - 1);
    pthread_mutex_lock(&mu);
    ssize_t k;
    do k = syscall(SYS_sendto, ctl, &m, sizeof m, MSG_NOSIGNAL, NULL, 0); while (k < 0 && errno == EINTR);
    if (k != sizeof m) die();
    do k = syscall(SYS_recvfrom, ctl, &r, sizeof r, 0, NULL, NULL); while (k < 0 && errno == EINTR);
    if (k != sizeof r) die();
    pthread_mutex_unlock(&mu);
    errno = e;
    if (r.action == A_CRASH_BEFORE) die();
    if (r.action == A_SIGINT) kill(attached_pid, SIGINT);
    if (r.action == A_SIGINT_EINTR) { kill(attached_pid, SIGINT); r.action = A_FAIL; r.err = EINTR; }
    return r;
}
#define VERDICT(r, failval) do { if ((r).action == A_FAIL) { errno = (r).err; return failval; } } while (0)
#define AFTER(r) do { if ((r).action == A_CRASH_AFTER || (r).action == A_CRASH_PARTIAL) die(); } while (0)

static void track(int fd, const char *p, int wr) {
    if (fd < 0 || fd >= MAXFD) return;
    fdpath[fd] = strdup(p); fdwr[fd] = wr;
}
static int wrflags(int f) { return (f & O_ACCMODE) != O_RDONLY || (f & (O_CREAT | O_TRUNC)); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char buf[1400]; const char *rel = NULL;
    if (on()) rel = under(dirfd, path, buf, sizeof buf);
    if (rel) {
        struct rep r = ask(wrflags(flags) ? OP_OPENW : OP_OPENR, -1, rel, NULL, flags, mode);
        VERDICT(r, -1);
        int fd = syscall(SYS_openat, dirfd, path, flags, mode);
        int e = errno;
        if (fd >= 0 && !(flags & O_DIRECTORY)) track(fd, rel, wrflags(flags));
        AFTER(r);
        errno = e;
        return fd;
    }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags); return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags); return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags); return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return creat(p, mode); }

static int tracked(int fd) { return on() && fd >= 0 && fd < MAXFD && fdpath[fd]; }

ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (tracked(fd)) {
        struct rep r = ask(OP_READ, fd, fdpath[fd], NULL, n, 0);
        VERDICT(r, -1);
        if (r.action == A_SHORT && r.n < n) n = r.n ? r.n : 1;
        ssize_t k = real(fd, b, n); int e = errno; AFTER(r); errno = e; return k;
    }
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    if (tracked(fd)) {
        struct rep r = ask(OP_READ, fd, fdpath[fd], NULL, n, 0);
        VERDICT(r, -1);
        if (r.action == A_SHORT && r.n < n) n = r.n ? r.n : 1;
        ssize_t k = real(fd, b, n, o); int e = errno; AFTER(r); errno = e; return k;
    }
    return real(fd, b, n, o);
}
static size_t clipw(struct rep *r, size_t n) {
    if ((r->action == A_SHORT || r->action == A_CRASH_PARTIAL) && r->n < n) return r->n;
    return n;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (tracked(fd)) {
        struct rep r = ask(OP_WRITE, fd, fdpath[fd], NULL, n, 0);
        VERDICT(r, -1);
        size_t m = clipw(&r, n);
        if (m == 0 && n && r.action == A_SHORT) m = 1;
        ssize_t k = m || !n ? real(fd, b, m) : 0; int e = errno; AFTER(r); errno = e; return k;
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (tracked(fd)) {
        struct rep r = ask(OP_WRITE, fd, fdpath[fd], NULL, n, 0);
        VERDICT(r, -1);
        size_t m = clipw(&r, n);
        if (m == 0 && n && r.action == A_SHORT) m = 1;
        ssize_t k = m || !n ? real(fd, b, m, o) : 0; int e = errno; AFTER(r); errno = e; return k;
    }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (tracked(fd)) {
        size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
        struct rep r = ask(OP_WRITE, fd, fdpath[fd], NULL, n, 0);
        VERDICT(r, -1);
        ssize_t k = real(fd, v, c); int e = errno; AFTER(r); errno = e; return k;
    }
    return real(fd, v, c);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(sendfile64);
    if (tracked(o)) {
        struct rep r = ask(OP_WRITE, o, fdpath[o], NULL, n, 0);
        VERDICT(r, -1);
        size_t m = clipw(&r, n);
        ssize_t k = real(o, i, off, m ? m : 1); int e = errno; AFTER(r); errno = e; return k;
    }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
    REAL(copy_file_range);
    if (tracked(o)) {
        struct rep r = ask(OP_WRITE, o, fdpath[o], NULL, n, 0);
        VERDICT(r, -1);
        ssize_t k = real(i, oi, o, oo, n, fl); int e = errno; AFTER(r); errno = e; return k;
    }
    return real(i, oi, o, oo, n, fl);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (tracked(fd)) {
        struct rep r = ask(OP_TRUNC, fd, fdpath[fd], NULL, n, 0);
        VERDICT(r, -1);
        int k = real(fd, n), e = errno; AFTER(r); errno = e; return k;
    }
    return real(fd, n);
}
int truncate64(const char *p, off64_t n) {
    REAL(truncate64);
    char buf[1400]; const char *rel = on() ? under(AT_FDCWD, p, buf, sizeof buf) : NULL;
    if (rel) {
        struct rep r = ask(OP_TRUNC, -1, rel, NULL, n, 0);
        VERDICT(r, -1);
        int k = real(p, n), e = errno; AFTER(r); errno = e; return k;
    }
    return real(p, n);
}
static int do_fsync(int fd, int nr) {
    if (tracked(fd)) {
        struct rep r = ask(OP_FSYNC, fd, fdpath[fd], NULL, 0, 0);
        VERDICT(r, -1);
        int k = syscall(nr, fd), e = errno; AFTER(r); errno = e; return k;
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
int close(int fd) {
    if (tracked(fd)) {
        char *p = fdpath[fd]; int w = fdwr[fd];
        struct rep r = {A_GO, 0, 0};
        if (w) r = ask(OP_CLOSEW, fd, p, NULL, 0, 0);
        fdpath[fd] = NULL; fdwr[fd] = 0;
        free(p);
        int k = syscall(SYS_close, fd), e = errno;
        AFTER(r);
        if (r.action == A_FAIL) { errno = r.err; return -1; }
        errno = e;
        return k;
    }
    return syscall(SYS_close, fd);
}
static int do_dup(int o, int n) {
    if (n >= 0 && tracked(o)) track(n, fdpath[o], fdwr[o]);
    return n;
}
int dup(int o) { return do_dup(o, syscall(SYS_dup, o)); }
int dup2(int o, int n) { REAL(dup2); if (n >= 0 && n < MAXFD && on()) fdpath[n] = NULL; return do_dup(o, real(o, n)); }
int dup3(int o, int n, int f) { REAL(dup3); if (n >= 0 && n < MAXFD && on()) fdpath[n] = NULL; return do_dup(o, real(o, n, f)); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    char ba[1400], bb[1400]; const char *ra = NULL, *rb = NULL;
    if (on()) { ra = under(d1, a, ba, sizeof ba); rb = under(d2, b, bb, sizeof bb); }
    if (ra || rb) {
        struct rep r = ask(OP_RENAME, -1, ra ? ra : a, rb ? rb : b, fl, 0);
        VERDICT(r, -1);
        int k = syscall(SYS_renameat2, d1, a, d2, b, fl), e = errno; AFTER(r); errno = e; return k;
    }
    return syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }

#define PATHOP(dirfd, p, op, arg, CALL) do { \
    char buf[1400]; const char *rel = on() ? under(dirfd, p, buf, sizeof buf) : NULL; \
    if (rel) { struct rep r = ask(op, -1, rel, NULL, arg, 0); VERDICT(r, -1); \
        int k = CALL, e = errno; AFTER(r); errno = e; return k; } \
    return CALL; } while (0)
int unlink(const char *p) { PATHOP(AT_FDCWD, p, OP_UNLINK, 0, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { PATHOP(d, p, (f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, f, syscall(SYS_unlinkat, d, p, f)); }
int rmdir(const char *p) { PATHOP(AT_FDCWD, p, OP_RMDIR, 0, syscall(SYS_rmdir, p)); }
int mkdir(const char *p, mode_t m) { PATHOP(AT_FDCWD, p, OP_MKDIR, m, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(d, p, OP_MKDIR, m, syscall(SYS_mkdirat, d, p, m)); }
int chmod(const char *p, mode_t m) { PATHOP(AT_FDCWD, p, OP_CHMOD, m, syscall(SYS_chmod, p, m)); }
int link(const char *a, const char *b) {
    REAL(link);
    char ba[1400], bb[1400]; const char *ra = NULL, *rb = NULL;
    if (on()) { ra = under(AT_FDCWD, a, ba, sizeof ba); rb = under(AT_FDCWD, b, bb, sizeof bb); }
    if (rb) { struct rep r = ask(OP_LINK, -1, ra ? ra : a, rb, 0, 0); VERDICT(r, -1);
        int k = real(a, b), e = errno; AFTER(r); errno = e; return k; }
    return real(a, b);
}
int linkat(int d1, const char *a, int d2, const char *b, int f) {
    REAL(linkat);
    char bb[1400]; const char *rb = on() ? under(d2, b, bb, sizeof bb) : NULL;
    if (rb) { struct rep r = ask(OP_LINK, -1, a, rb, 0, 0); VERDICT(r, -1);
        int k = real(d1, a, d2, b, f), e = errno; AFTER(r); errno = e; return k; }
    return real(d1, a, d2, b, f);
}
int symlink(const char *a, const char *b) {
    REAL(symlink);
    PATHOP(AT_FDCWD, b, OP_LINK, 1, real(a, b));
}
int stat64(const char *p, struct stat64 *s) { REAL(stat64); PATHOP(AT_FDCWD, p, OP_STAT, 0, real(p, s)); }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); PATHOP(AT_FDCWD, p, OP_STAT, 1, real(p, s)); }

int flock(int fd, int how) {
    REAL(flock);
    if (tracked(fd) && !(how & LOCK_NB) && !(how & LOCK_UN)) {
        for (;;) {
            int k = real(fd, how | LOCK_NB);
            if (k == 0 || errno != EWOULDBLOCK) return k;
            struct rep r = ask(OP_LOCK, fd, fdpath[fd], NULL, how, 1);
            VERDICT(r, -1);
        }
    }
    return real(fd, how);
}
int fcntl64(int fd, int cmd, ...) {
    REAL(fcntl64);
    va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
    if (cmd == F_SETLKW && tracked(fd)) {
        for (;;) {
            int k = real(fd, F_SETLK, a);
            if (k == 0 || (errno != EAGAIN && errno != EACCES)) return k;
            struct rep r = ask(OP_LOCK, fd, fdpath[fd], NULL, 0, 1);
            VERDICT(r, -1);
        }
    }
    int k = real(fd, cmd, a);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) do_dup(fd, k);
    return k;
}

/* ---- directory order */
struct lst { DIR *d; struct dirent64 *e; size_t n, i; };
static struct lst lists[256];
static uint64_t mix(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int cmpe(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static void slurp(DIR *d, uint64_t seed) {
    static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
    struct lst *l = NULL;
    for (int i = 0; i < 256; i++) if (!lists[i].d) { l = &lists[i]; break; }
    if (!l) return;
    size_t cap = 16; l->d = d; l->n = l->i = 0; l->e = malloc(cap * sizeof *l->e);
    struct dirent64 *x;
    while ((x = rd(d))) { if (l->n == cap) l->e = realloc(l->e, (cap *= 2) * sizeof *l->e); memcpy(&l->e[l->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x); }
    qsort(l->e, l->n, sizeof *l->e, cmpe);
    if (seed) for (size_t i = l->n; i > 1; i--) { size_t j = mix(&seed) % i; struct dirent64 t = l->e[i - 1]; l->e[i - 1] = l->e[j]; l->e[j] = t; }
}
static struct lst *find(DIR *d) { for (int i = 0; i < 256; i++) if (lists[i].d == d) return &lists[i]; return NULL; }
DIR *opendir(const char *p) {
    REAL(opendir);
    char buf[1400]; const char *rel = on() ? under(AT_FDCWD, p, buf, sizeof buf) : NULL;
    if (rel) {
        struct rep r = ask(OP_OPENDIR, -1, rel, NULL, 0, 0);
        VERDICT(r, NULL);
        DIR *d = real(p);
        if (d) slurp(d, r.action == A_GO ? r.n : 0);
        AFTER(r);
        return d;
    }
    return real(p);
}
DIR *fdopendir(int fd) {
    REAL(fdopendir);
    char l[64], tgt[600], buf[1400]; const char *rel = NULL;
    if (on()) { snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = syscall(SYS_readlink, l, tgt, sizeof tgt - 1); if (k > 0) { tgt[k] = 0; rel = under(AT_FDCWD, tgt, buf, sizeof buf); } }
    if (rel) {
        struct rep r = ask(OP_OPENDIR, fd, rel, NULL, 0, 0);
        VERDICT(r, NULL);
        DIR *d = real(fd);
        if (d) slurp(d, r.action == A_GO ? r.n : 0);
        AFTER(r);
        return d;
    }
    return real(fd);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    if (on()) { struct lst *l = find(d); if (l) { errno = 0; return l->i < l->n ? &l->e[l->i++] : NULL; } }
    return real(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) { REAL(rewinddir); if (on()) { struct lst *l = find(d); if (l) { l->i = 0; return; } } real(d); }
int closedir(DIR *d) {
    REAL(closedir);
    if (on()) { struct lst *l = find(d); if (l) { free(l->e); memset(l, 0, sizeof *l); } }
    return real(d);
}

/* ---- randomness and clock */
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (on() && rng_on) { unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = mix(&rng) >> 13; return n; }
    return syscall(SYS_getrandom, b, n, f);
}
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(clock_gettime);
    int k = real(c, t);
    if (!k && c == CLOCK_REALTIME && on()) t->tv_sec += clock_off;
    return k;
}
