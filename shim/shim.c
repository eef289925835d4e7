/* LD_PRELOAD shim: logs, fails, cuts or schedules the file operations of a program under the
 * directories in SHIM_DIRS.  Nothing outside them is touched.
 *   SHIM_LOG=file              one line per tracked operation
 *   SHIM_CLASS=wrlt            classes that count: w writes/syncs, r reads, l locks, t stat/dirs
 *   SHIM_FAIL=N:errno[:sticky] the N-th counted operation (from 1) fails; sticky: all later ones too
 *   SHIM_FAIL=N:short          the N-th counted operation, a write, is cut in half; later writes get ENOSPC
 *   SHIM_KILL=N:before|after|half
 *   SHIM_NOSLEEP=1             sleeping returns at once
 *   SHIM_PIECES=a,b,0,...      reads and writes move at most that many bytes, in turn; 0: interrupted
 *   SHIM_COARSE=n              timestamps have a granularity of n seconds
 *   SHIM_SCHED=socket SHIM_TAG=name SHIM_SCHEDCLASS=lsw   ask before each lock / sleep / write
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static char *fdpath[MAXFD];
static char *dirs[16];
static int ndirs, logfd = -1, schedfd = -1, ready;
static long failn = -1, killn = -1, counter;
static int failerr, sticky, shortw, nospc, killmode, nosleep;
static char cls[16] = "wrlt", scls[16] = "ls";
static const char *tag = "p";
static long pieces[64];
static int npieces, piece;
static long coarse;

#define REAL(name) static __typeof__(&name) real_; if (!real_) real_ = dlsym(RTLD_NEXT, #name)

static void out(int fd, const char *b, size_t n)
{
    while (n) {
        ssize_t k = syscall(SYS_write, fd, b, n);
        if (k <= 0) return;
        b += k; n -= k;
    }
}

static void init(void)
{
    char *e;
    if (ready) return;
    ready = 1;
    e = getenv("SHIM_DIRS");
    if (e) {
        char *s = strdup(e), *t;
        for (t = strtok(s, ":"); t && ndirs < 16; t = strtok(NULL, ":")) dirs[ndirs++] = t;
    }
    e = getenv("SHIM_LOG");
    if (e) {
        int fd = syscall(SYS_openat, AT_FDCWD, e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 800);
        syscall(SYS_close, fd);
    }
    if ((e = getenv("SHIM_CLASS"))) snprintf(cls, sizeof cls, "%s", e);
    if ((e = getenv("SHIM_SCHEDCLASS"))) snprintf(scls, sizeof scls, "%s", e);
    if ((e = getenv("SHIM_TAG"))) tag = e;
    if ((e = getenv("SHIM_NOSLEEP"))) nosleep = atoi(e);
    if ((e = getenv("SHIM_COARSE"))) coarse = atol(e);
    if ((e = getenv("SHIM_PIECES"))) {
        char *s = strdup(e), *t;
        for (t = strtok(s, ","); t && npieces < 64; t = strtok(NULL, ",")) pieces[npieces++] = atol(t);
    }
    if ((e = getenv("SHIM_FAIL"))) {
        char *c = strchr(e, ':');
        failn = atol(e);
        if (c && !strncmp(c + 1, "short", 5)) shortw = 1;
        else if (c) { failerr = atoi(c + 1); sticky = strstr(c, "sticky") != NULL; }
    }
    if ((e = getenv("SHIM_KILL"))) {
        char *c = strchr(e, ':');
        killn = atol(e);
        killmode = !c ? 'b' : c[1];
    }
    e = getenv("SHIM_SCHED");
    if (e) {
        struct sockaddr_un a = { .sun_family = AF_UNIX };
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        snprintf(a.sun_path, sizeof a.sun_path, "%s", e);
        if (fd >= 0 && connect(fd, (struct sockaddr *)&a, sizeof a) == 0) {
            schedfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 801);
            syscall(SYS_close, fd);
        } else _exit(97);
    }
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

static void ask(char c, const char *op, const char *path, long a, long b)
{
    char buf[4400], r;
    int n;
    if (schedfd < 0 || !strchr(scls, c)) return;
    n = snprintf(buf, sizeof buf, "%s %s %ld %ld %s\n", tag, op, a, b, path ? path : "-");
    out(schedfd, buf, n);
    do n = syscall(SYS_read, schedfd, &r, 1); while (n < 0 && errno == EINTR);
    if (n <= 0 || r == 'k') die();
}

static void told(char c, const char *op, long r)
{
    char buf[200];
    if (schedfd < 0 || !strchr(scls, c)) return;
    int n = snprintf(buf, sizeof buf, "%s =%s %ld 0 -\n", tag, op, r);
    out(schedfd, buf, n);
}

static char *absolute(const char *p)
{
    char cwd[4096], tmp[8300], *o, *q, *save;
    if (!p) return NULL;
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) return NULL;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
    }
    o = malloc(strlen(tmp) + 2);
    o[0] = 0;
    for (q = strtok_r(tmp, "/", &save); q; q = strtok_r(NULL, "/", &save)) {
        if (!strcmp(q, ".")) continue;
        if (!strcmp(q, "..")) { char *s = strrchr(o, '/'); if (s) *s = 0; continue; }
        strcat(o, "/"); strcat(o, q);
    }
    if (!o[0]) strcpy(o, "/");
    return o;
}

static int tracked(const char *abs)
{
    if (!abs) return 0;
    for (int i = 0; i < ndirs; i++) {
        size_t n = strlen(dirs[i]);
        if (!strncmp(abs, dirs[i], n) && (abs[n] == 0 || abs[n] == '/')) return 1;
    }
    return 0;
}

static const char *fdp(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

static void logop(const char *op, const char *path, long off, long len, long res, const void *data, size_t dn)
{
    if (logfd < 0) return;
    size_t pn = strlen(path);
    char *b = malloc(200 + 2 * pn + 2 * dn);
    int n = sprintf(b, "%ld %s %ld %ld %ld ", counter, op, off, len, res);
    for (size_t i = 0; i < pn; i++) n += sprintf(b + n, "%02x", (unsigned char)path[i]);
    b[n++] = ' ';
    static const char H[] = "0123456789abcdef";
    if (!dn) b[n++] = '-';
    for (size_t i = 0; i < dn; i++) {
        unsigned char c = ((const unsigned char *)data)[i];
        b[n++] = H[c >> 4]; b[n++] = H[c & 15];
    }
    b[n++] = '\n';
    out(logfd, b, n);
    free(b);
}

/* what to do with this operation: 0 go on, >0 fail with that errno, -1 short write, -2 kill after, -3 kill half */
static int gate(char c, int iswrite)
{
    if (!strchr(cls, c)) return 0;
    counter++;
    if (nospc && iswrite) return ENOSPC;
    if (killn == counter) {
        if (killmode == 'a') return -2;
        if (killmode == 'h' && iswrite) return -3;
        die();
    }
    if (failn > 0 && (failn == counter || (sticky && counter > failn))) {
        if (shortw) { if (failn == counter && iswrite) return -1; return 0; }
        return failerr;
    }
    return 0;
}
#define AFTER(g) do { if ((g) == -2) die(); } while (0)

/* ---------------------------------------------------------------- open and close */
static int doopen(const char *path, int flags, mode_t mode)
{
    char *a;
    int g = 0, fd, wr = (flags & (O_CREAT | O_TRUNC)) != 0;
    init();
    a = absolute(path);
    if (tracked(a)) {
        struct stat sb;
        /* only opens that create or truncate something count as writes */
        int creates = wr && ((flags & O_TRUNC) || syscall(SYS_newfstatat, AT_FDCWD, path, &sb, 0) < 0);
        if (creates) ask('w', "open", a, flags, 0);
        g = gate(creates ? 'w' : 'r', 0);
        if (g > 0) { logop("open", a, flags, creates, -g, NULL, 0); free(a); errno = g; return -1; }
        fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
        int e = errno;
        logop("open", a, flags, creates, fd < 0 ? -e : fd, NULL, 0);
        if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = a; a = NULL; }
        AFTER(g);
        free(a);
        errno = e;
        return fd;
    }
    free(a);
    return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return doopen(path, flags, m);
}
int open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    return doopen(path, flags, m);
}
int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        logop("close", fdpath[fd], 0, 0, 0, NULL, 0);
        free(fdpath[fd]);
        fdpath[fd] = NULL;
    }
    if (fd == logfd || fd == schedfd) return 0;
    return syscall(SYS_close, fd);
}

/* ---------------------------------------------------------------- reading */
#define READER(body, fd, opn, off, len) \
    const char *p = fdp(fd); \
    if (!p) return body; \
    int g = gate('r', 0); \
    if (g > 0) { logop(opn, p, off, len, -g, NULL, 0); errno = g; return -1; } \
    ssize_t r = body; int e = errno; \
    logop(opn, p, off, len, r < 0 ? -e : r, NULL, 0); AFTER(g); errno = e; return r;

/* how much of a transfer of n bytes happens: -1 it is interrupted */
static long limit(int fd, size_t n)
{
    if (!npieces || !fdp(fd)) return n;
    long k = pieces[piece++ % npieces];
    return k == 0 ? -1 : k < (long)n ? k : (long)n;
}
ssize_t read(int fd, void *b, size_t n) { long l = limit(fd, n); if (l < 0) { errno = EINTR; return -1; } n = l; READER(syscall(SYS_read, fd, b, n), fd, "read", -1, n) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { READER(syscall(SYS_pread64, fd, b, n, o), fd, "pread", o, n) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { READER(syscall(SYS_pread64, fd, b, n, o), fd, "pread", o, n) }
ssize_t readv(int fd, const struct iovec *v, int n) { READER(syscall(SYS_readv, fd, v, n), fd, "readv", -1, n) }

/* ---------------------------------------------------------------- writing */
static ssize_t dowrite(int fd, const void *b, size_t n, off64_t o, int positioned)
{
    const char *p = fdp(fd);
    if (!p) return positioned ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
    const char *op = positioned ? "pwrite" : "write";
    if (!positioned) o = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ask('w', op, p, o, n);
    int g = gate('w', 1);
    if (g > 0) { logop(op, p, o, n, -g, NULL, 0); errno = g; return -1; }
    if (g == -1 || g == -3) {
        size_t h = n / 2;
        ssize_t r = h ? (positioned ? syscall(SYS_pwrite64, fd, b, h, o) : syscall(SYS_write, fd, b, h)) : 0;
        logop(op, p, o, n, r, b, r > 0 ? r : 0);
        if (g == -3) die();
        nospc = 1;
        if (r <= 0) { errno = ENOSPC; return -1; }
        return r;
    }
    ssize_t r = positioned ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
    int e = errno;
    logop(op, p, o, n, r < 0 ? -e : r, b, r > 0 ? r : 0);
    AFTER(g);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { long l = limit(fd, n); if (l < 0) { errno = EINTR; return -1; } n = l; return dowrite(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return dowrite(fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return dowrite(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int k)
{
    if (!fdp(fd)) return syscall(SYS_writev, fd, v, k);
    size_t n = 0;
    for (int i = 0; i < k; i++) n += v[i].iov_len;
    char *b = malloc(n + 1), *q = b;
    for (int i = 0; i < k; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    ssize_t r = dowrite(fd, b, n, 0, 0);
    int e = errno;
    free(b);
    errno = e;
    return r;
}

#define SIMPLE(c, opn, path, a, b, body) \
    ask(c, opn, path, a, b); \
    int g = gate(c, 0); \
    if (g > 0) { logop(opn, path, a, b, -g, NULL, 0); errno = g; return -1; } \
    int r = body; int e = errno; \
    logop(opn, path, a, b, r < 0 ? -e : r, NULL, 0); AFTER(g); errno = e; 

int fdatasync(int fd)
{
    const char *p = fdp(fd);
    if (!p) return syscall(SYS_fdatasync, fd);
    SIMPLE('w', "sync", p, 0, 0, syscall(SYS_fdatasync, fd))
    return r;
}
int fsync(int fd)
{
    const char *p = fdp(fd);
    if (!p) return syscall(SYS_fsync, fd);
    SIMPLE('w', "sync", p, 0, 0, syscall(SYS_fsync, fd))
    return r;
}
static int dotrunc(int fd, off64_t n)
{
    const char *p = fdp(fd);
    if (!p) return syscall(SYS_ftruncate, fd, n);
    SIMPLE('w', "trunc", p, n, 0, syscall(SYS_ftruncate, fd, n))
    return r;
}
int ftruncate64(int fd, off64_t n) { return dotrunc(fd, n); }
int ftruncate(int fd, off_t n) { return dotrunc(fd, n); }

#define STATOP(opn, path, body) \
    init(); char *a = absolute(path); \
    if (!tracked(a)) { free(a); return body; } \
    SIMPLE('t', opn, a, 0, 0, body) free(a); if (!r) coarsen(s); errno = e; return r;
#define PATHOP(opn, c, path, body) \
    init(); char *a = absolute(path); \
    if (!tracked(a)) { free(a); return body; } \
    SIMPLE(c, opn, a, 0, 0, body) free(a); errno = e; return r;

int unlink(const char *path) { PATHOP("unlink", 'w', path, syscall(SYS_unlinkat, AT_FDCWD, path, 0)) }
int rmdir(const char *path) { PATHOP("rmdir", 'w', path, syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR)) }
int mkdir(const char *path, mode_t m) { PATHOP("mkdir", 'w', path, syscall(SYS_mkdirat, AT_FDCWD, path, m)) }
int rename(const char *path, const char *to)
{
    init();
    char *a = absolute(path), *b = absolute(to);
    if (!tracked(a) && !tracked(b)) { free(a); free(b); return syscall(SYS_renameat2, AT_FDCWD, path, AT_FDCWD, to, 0); }
    ask('w', "rename", b, 0, 0);
    int g = gate('w', 0);
    if (g > 0) { logop("rename", a, 0, 0, -g, b, strlen(b)); free(a); free(b); errno = g; return -1; }
    int r = syscall(SYS_renameat2, AT_FDCWD, path, AT_FDCWD, to, 0), e = errno;
    logop("rename", a, 0, 0, r < 0 ? -e : r, b, strlen(b));
    AFTER(g);
    free(a); free(b);
    errno = e;
    return r;
}
static void coarsen(struct stat64 *s)
{
    if (!coarse) return;
    s->st_mtim.tv_sec -= s->st_mtim.tv_sec % coarse; s->st_mtim.tv_nsec = 0;
    s->st_ctim.tv_sec -= s->st_ctim.tv_sec % coarse; s->st_ctim.tv_nsec = 0;
}
int access(const char *path, int m) { PATHOP("access", 't', path, syscall(SYS_faccessat, AT_FDCWD, path, m)) }
int stat64(const char *path, struct stat64 *s) { STATOP("stat", path, syscall(SYS_newfstatat, AT_FDCWD, path, s, 0)) }
int lstat64(const char *path, struct stat64 *s) { STATOP("lstat", path, syscall(SYS_newfstatat, AT_FDCWD, path, s, AT_SYMLINK_NOFOLLOW)) }
int fstat64(int fd, struct stat64 *s)
{
    const char *p = fdp(fd);
    if (!p) return syscall(SYS_fstat, fd, s);
    SIMPLE('t', "fstat", p, 0, 0, syscall(SYS_fstat, fd, s))
    if (!r) coarsen(s);
    return r;
}
int shim_statx(int dfd, const char *path, int flags, unsigned int mask, struct statx *s) __asm__("statx");
int shim_statx(int dfd, const char *path, int flags, unsigned int mask, struct statx *s)
{
    init();
    char *a = NULL;
    if (path && path[0] && (path[0] == '/' || dfd == AT_FDCWD)) a = absolute(path);
    else if (path && !path[0] && fdp(dfd)) a = strdup(fdp(dfd));
    if (!a || !tracked(a)) { free(a); return syscall(SYS_statx, dfd, path, flags, mask, s); }
    SIMPLE('t', "statx", a, flags, 0, syscall(SYS_statx, dfd, path, flags, mask, s))
    free(a);
    if (!r && coarse) {
        s->stx_mtime.tv_sec -= s->stx_mtime.tv_sec % coarse; s->stx_mtime.tv_nsec = 0;
        s->stx_ctime.tv_sec -= s->stx_ctime.tv_sec % coarse; s->stx_ctime.tv_nsec = 0;
    }
    errno = e;
    return r;
}
DIR *opendir(const char *path)
{
    REAL(opendir);
    init();
    char *a = absolute(path);
    if (!tracked(a)) { free(a); return real_(path); }
    int g = gate('t', 0);
    if (g > 0) { logop("opendir", a, 0, 0, -g, NULL, 0); free(a); errno = g; return NULL; }
    DIR *d = real_(path);
    int e = errno;
    logop("opendir", a, 0, 0, d ? 0 : -e, NULL, 0);
    if (d) { int fd = dirfd(d); if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(a); } }
    free(a);
    AFTER(g);
    errno = e;
    return d;
}
int closedir(DIR *d)
{
    REAL(closedir);
    int fd = dirfd(d);
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = NULL; }
    return real_(d);
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(readdir64);
    const char *p = fdp(dirfd(d));
    if (!p) return real_(d);
    int g = gate('t', 0);
    if (g > 0) { logop("readdir", p, 0, 0, -g, NULL, 0); errno = g; return NULL; }
    struct dirent64 *r = real_(d);
    int e = errno;
    logop("readdir", p, 0, 0, r ? 1 : 0, NULL, 0);
    AFTER(g);
    errno = e;
    return r;
}

/* ---------------------------------------------------------------- locks and sleeping */
static int dofcntl(int fd, int cmd, void *arg)
{
    const char *p = fdp(fd);
    if (!p || (cmd != F_SETLK && cmd != F_SETLKW)) {
        long r = syscall(SYS_fcntl, fd, cmd, arg);
        if (p && r >= 0 && r < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) { free(fdpath[r]); fdpath[r] = strdup(p); }
        return r;
    }
    struct flock *l = arg;
    const char *op = l->l_type == F_UNLCK ? "unlock" : l->l_type == F_RDLCK ? "rdlock" : "wrlock";
    long off = l->l_start, len = l->l_len;
    if (l->l_type != F_UNLCK) ask('l', op, p, off, len); else ask('u', op, p, off, len);
    int g = l->l_type == F_UNLCK ? 0 : gate('l', 0);
    if (g > 0) { logop(op, p, off, len, -g, NULL, 0); errno = g; return -1; }
    int r = syscall(SYS_fcntl, fd, cmd, arg), e = errno;
    logop(op, p, off, len, r < 0 ? -e : r, NULL, 0);
    if (l->l_type != F_UNLCK) told('l', op, r < 0 ? -e : 0); else told('u', op, 0);
    AFTER(g);
    errno = e;
    return r;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
    return dofcntl(fd, cmd, a);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
    return dofcntl(fd, cmd, a);
}
static int slept(long us)
{
    init();
    if (schedfd >= 0 && strchr(scls, 's')) { ask('s', "sleep", NULL, us, 0); return 1; }
    return nosleep;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
    if (slept(t->tv_sec * 1000000L + t->tv_nsec / 1000)) return 0;
    return syscall(SYS_nanosleep, t, rem);
}
int usleep(useconds_t us)
{
    struct timespec t = { us / 1000000, (us % 1000000) * 1000 };
    return nanosleep(&t, NULL);
}
unsigned int sleep(unsigned int s)
{
    struct timespec t = { s, 0 };
    nanosleep(&t, NULL);
    return 0;
}
