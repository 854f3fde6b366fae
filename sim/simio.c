/* LD_PRELOAD disk seam.
 *
 * Counts and logs every file-system call on paths below one root, and applies the
 * faults of a plan: process death before / after / in the middle of a call, errno
 * results (once or from then on), short reads and writes, EINTR, a full disk.
 * Inactive until simio_start() is called; everything outside the root is untouched.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXRULE 16
#define PATHLEN 1024

enum { A_NONE, A_CRASH_BEFORE, A_CRASH_AFTER, A_TORN, A_ERR, A_SHORT };

struct rule {
    long at;       /* index of the call it applies to */
    int action;
    long arg;      /* errno, or permille of the bytes for torn/short */
    int sticky;    /* applies to every later call of the same class too */
    int cls;       /* for sticky: 0 any, 1 calls that need space, 2 reads */
    long fired;
};

static int active = 0;
static char root[PATHLEN];
static size_t rootlen = 0;
static int logfd = -1;
static long opno = 0;
static long capacity = -1; /* bytes that may still be written, -1 unlimited */
static struct rule rules[MAXRULE];
static int nrules = 0;
static char fdpath[MAXFD][PATHLEN];
static unsigned char fdtracked[MAXFD];
static char maskbuf[PATHLEN];

#define REAL(name) \
    static __typeof__(&name) real_##name = NULL; \
    if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static void die(void) { syscall(SYS_exit_group, 77); __builtin_unreachable(); }

/* path relative to the root, or NULL when it is elsewhere */
static const char *resolve(int dirfd, const char *path, char *buf)
{
    if (!active || !path) return NULL;
    if (path[0] == '/') {
        snprintf(buf, PATHLEN, "%s", path);
    } else if (dirfd >= 0 && dirfd < MAXFD && fdtracked[dirfd]) {
        snprintf(buf, PATHLEN, "%s/%s/%s", root, fdpath[dirfd], path);
    } else if (dirfd == AT_FDCWD) {
        char cwd[PATHLEN];
        if (!getcwd(cwd, sizeof cwd)) return NULL;
        snprintf(buf, PATHLEN, "%s/%s", cwd, path);
    } else {
        return NULL;
    }
    if (strncmp(buf, root, rootlen) || (buf[rootlen] != '/' && buf[rootlen] != 0)) return NULL;
    const char *r = buf + rootlen;
    while (*r == '/') r++;
    return r;
}

static const char *fdname(int fd)
{
    if (!active || fd < 0 || fd >= MAXFD || !fdtracked[fd]) return NULL;
    return fdpath[fd];
}

static void track(int fd, const char *rel)
{
    if (fd < 0 || fd >= MAXFD) return;
    fdtracked[fd] = 1;
    if (fdpath[fd] != rel) snprintf(fdpath[fd], PATHLEN, "%s", rel);
}

static void logline(const char *op, const char *path, long n, const char *what)
{
    if (logfd < 0) return;
    char b[PATHLEN + 128];
    int e = errno;
    int k = snprintf(b, sizeof b, "%ld\t%s\t%s\t%ld\t%s\n", opno, op, path, n, what);
    raw_write(logfd, b, k);
    errno = e;
}

/* classes of calls: 1 needs space, 2 reads, 0 others */
static struct rule *match(int cls)
{
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if ((!r->sticky && r->at == opno) ||
            (r->sticky && opno >= r->at && (r->cls == 0 || r->cls == cls))) {
            r->fired++;
            return r;
        }
    }
    return NULL;
}

/* common prologue for calls without a byte count; returns 1 when the call must fail */
static int enter(const char *op, const char *path, int cls, int *after)
{
    opno++;
    *after = 0;
    struct rule *r = match(cls);
    if (!r) { logline(op, path, 0, "-"); return 0; }
    switch (r->action) {
    case A_CRASH_BEFORE: logline(op, path, 0, "crash-before"); die();
    case A_TORN:
    case A_CRASH_AFTER: logline(op, path, 0, "crash-after"); *after = 1; return 0;
    case A_ERR: {
        char w[32]; snprintf(w, sizeof w, "errno=%ld", r->arg);
        logline(op, path, 0, w); errno = (int)r->arg; return 1; }
    }
    logline(op, path, 0, "-");
    return 0;
}

/* prologue for reads and writes: how many bytes to let through; -1: fail with errno */
static long enter_n(const char *op, const char *path, int cls, size_t n, int *after)
{
    opno++;
    *after = 0;
    struct rule *r = match(cls);
    long let = (long)n;
    const char *what = "-";
    char w[48];
    if (r) switch (r->action) {
    case A_CRASH_BEFORE: logline(op, path, n, "crash-before"); die();
    case A_CRASH_AFTER: what = "crash-after"; *after = 1; break;
    case A_TORN:
        let = (long)((double)n * r->arg / 1000.0);
        if (let >= (long)n && n > 0) let = n - 1;
        snprintf(w, sizeof w, "torn=%ld", let); what = w; *after = 1; break;
    case A_ERR:
        snprintf(w, sizeof w, "errno=%ld", r->arg);
        logline(op, path, n, w); errno = (int)r->arg; return -1;
    case A_SHORT:
        let = (long)((double)n * r->arg / 1000.0);
        if (let >= (long)n && n > 0) let = n - 1;
        if (let < 1) let = n > 0 ? 1 : 0;
        snprintf(w, sizeof w, "short=%ld", let); what = w; break;
    }
    if (cls == 1 && capacity >= 0) {
        if (let > capacity) {
            let = capacity;
            if (let == 0 && n > 0) { logline(op, path, n, "disk-full"); errno = ENOSPC; return -1; }
            what = "disk-full-short";
        }
        capacity -= let;
    }
    logline(op, path, n, what);
    return let;
}

/* ---- control ---- */
void simio_start(const char *r, int lfd, long cap)
{
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    logfd = lfd; opno = 0; capacity = cap; nrules = 0;
    memset(fdtracked, 0, sizeof fdtracked);
    active = 1;
}
void simio_rule(long at, int action, long arg, int sticky, int cls)
{
    if (nrules < MAXRULE) rules[nrules++] = (struct rule){at, action, arg, sticky, cls, 0};
}
void simio_stop(void) { active = 0; }
void simio_resume(void) { active = 1; }
void simio_clear(void) { nrules = 0; capacity = -1; }
long simio_ops(void) { return opno; }

/* ---- calls ---- */
static int do_open(const char *fn, int dirfd, const char *path, int flags, mode_t mode)
{
    char buf[PATHLEN]; int after = 0;
    const char *rel = resolve(dirfd, path, buf);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (rel && !(flags & O_DIRECTORY)) {
        if (enter(w ? (flags & O_TRUNC ? "open_trunc" : "open_w") : "open_r", rel, w ? 1 : 2, &after)) return -1;
        if (w && capacity == 0 && (flags & O_CREAT) && access(path, F_OK)) { logline("open", rel, 0, "disk-full"); errno = ENOSPC; return -1; }
    }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
    if (fd >= 0 && fd < MAXFD) fdtracked[fd] = 0;
    if (rel && fd >= 0) { track(fd, rel); if (w && fd < MAXFD) fdtracked[fd] = 2; }
    if (after) die();
    return fd;
}
#define OPENMODE() \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { OPENMODE(); return do_open("open", AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPENMODE(); return do_open("open", AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { OPENMODE(); return do_open("openat", d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPENMODE(); return do_open("openat", d, path, flags, mode); }

int close(int fd)
{
    REAL(close);
    const char *p = fdname(fd); int after = 0;
    int w = p && fdtracked[fd] == 2;
    if (fd >= 0 && fd < MAXFD) fdtracked[fd] = 0;
    if (w) {  /* errors of delayed writes are reported here; the descriptor is gone anyway */
        int fail = enter("close_w", p, 0, &after), e = errno;
        int r = real_close(fd);
        if (after) die();
        if (fail) { errno = e; return -1; }
        return r;
    }
    return real_close(fd);
}
int fclose(FILE *f)
{
    REAL(fclose);
    int fd = fileno(f);
    if (fd >= 0 && fd < MAXFD) fdtracked[fd] = 0;
    return real_fclose(f);
}
int dup(int fd)
{
    REAL(dup);
    int r = real_dup(fd); const char *p = fdname(fd);
    if (p && r >= 0) track(r, p);
    return r;
}
int dup2(int fd, int to)
{
    REAL(dup2);
    int r = real_dup2(fd, to); const char *p = fdname(fd);
    if (r >= 0 && r < MAXFD && r != fd) { if (p) track(r, p); else fdtracked[r] = 0; }
    return r;
}
static int do_fcntl(int fd, int cmd, void *arg)
{
    int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
    const char *p = fdname(fd);
    if (p && r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) track(r, p);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

ssize_t write(int fd, const void *b, size_t n)
{
    const char *p = fdname(fd);
    if (!p) return raw_write(fd, b, n);
    int after; long let = enter_n("write", p, 1, n, &after);
    if (let < 0) return -1;
    ssize_t r = raw_write(fd, b, let);
    if (after) die();
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    const char *p = fdname(fd);
    if (!p) return syscall(SYS_read, fd, b, n);
    int after; long let = enter_n("read", p, 2, n, &after);
    if (let < 0) return -1;
    ssize_t r = syscall(SYS_read, fd, b, let);
    if (after) die();
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    const char *p = fdname(fd);
    if (!p) return syscall(SYS_pread64, fd, b, n, o);
    int after; long let = enter_n("pread", p, 2, n, &after);
    if (let < 0) return -1;
    ssize_t r = syscall(SYS_pread64, fd, b, let, o);
    if (after) die();
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    const char *p = fdname(fd);
    if (!p) return syscall(SYS_pwrite64, fd, b, n, o);
    int after; long let = enter_n("pwrite", p, 1, n, &after);
    if (let < 0) return -1;
    ssize_t r = syscall(SYS_pwrite64, fd, b, let, o);
    if (after) die();
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    const char *p = fdname(fd);
    if (!p) return syscall(SYS_writev, fd, v, c);
    int after; size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    long let = enter_n("writev", p, 1, n, &after);
    if (let < 0) return -1;
    ssize_t done = 0;
    for (int i = 0; i < c && let > 0; i++) {
        size_t k = v[i].iov_len < (size_t)let ? v[i].iov_len : (size_t)let;
        ssize_t r = raw_write(fd, v[i].iov_base, k);
        if (r < 0) return done ? done : -1;
        done += r; let -= r;
    }
    if (after) die();
    return done;
}
/* numpy's tofile/fromfile go through stdio: one call is a series of system calls there */
size_t fwrite(const void *b, size_t sz, size_t cnt, FILE *f)
{
    REAL(fwrite);
    int fd = fileno(f); const char *p = fdname(fd);
    if (!p || sz * cnt == 0) return real_fwrite(b, sz, cnt, f);
    size_t n = sz * cnt, done = 0;
    fflush(f);
    while (done < n) {
        size_t want = n - done > 65536 ? 65536 : n - done;
        int after; long let = enter_n("fwrite", p, 1, want, &after);
        if (let < 0) {
            if (errno == EINTR) continue;
            break;
        }
        ssize_t r = raw_write(fd, (const char *)b + done, let);
        if (after) die();
        if (r < 0) break;
        done += r;
    }
    int e = errno;
    fseeko(f, lseek(fd, 0, SEEK_CUR), SEEK_SET);
    errno = e;
    return done / sz;
}
size_t fread(void *b, size_t sz, size_t cnt, FILE *f)
{
    REAL(fread);
    int fd = fileno(f); const char *p = fdname(fd);
    if (!p || sz * cnt == 0) return real_fread(b, sz, cnt, f);
    int after; long let = enter_n("fread", p, 2, sz * cnt, &after);
    if (let < 0) {  /* the error strikes half-way through the data */
        int e = errno;
        if (e == EINTR) return real_fread(b, sz, cnt, f);
        size_t r = real_fread(b, sz, cnt / 2, f);
        errno = e;
        return r;
    }
    size_t r = real_fread(b, sz, cnt, f); /* short reads are retried inside stdio */
    if (after) die();
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    REAL(sendfile64);
    const char *p = fdname(out);
    if (!p) return real_sendfile64(out, in, o, n);
    int after; long let = enter_n("sendfile", p, 1, n > 65536 ? 65536 : n, &after);
    if (let < 0) return -1;
    ssize_t r = real_sendfile64(out, in, o, let);
    if (after) die();
    return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, (off64_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl)
{
    const char *p = fdname(out);
    if (!p) return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
    int after; long let = enter_n("copy_file_range", p, 1, n > 65536 ? 65536 : n, &after);
    if (let < 0) return -1;
    ssize_t r = syscall(SYS_copy_file_range, in, io, out, oo, let, fl);
    if (after) die();
    return r;
}

#define PATH_OP(op, cls, dfd, path, call) \
    char buf[PATHLEN]; int after = 0; \
    const char *rel = resolve(dfd, path, buf); \
    if (rel && enter(op, rel, cls, &after)) return -1; \
    int r = (int)(call); \
    if (after) die(); \
    return r;

int renameat2(int od, const char *o, int nd, const char *n, unsigned fl)
{
    char b2[PATHLEN + 8]; char tmp[PATHLEN];
    const char *ro = resolve(od, o, tmp), *rn = resolve(nd, n, maskbuf);
    int after = 0;
    if (rn || ro) {
        snprintf(b2, sizeof b2, "%s -> %s", ro ? ro : "(out)", rn ? rn : "(out)");
        if (enter("rename", b2, 0, &after)) return -1;
    }
    int r = (int)syscall(SYS_renameat2, od, o, nd, n, fl);
    if (after) die();
    return r;
}
int rename(const char *o, const char *n) { return renameat2(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return renameat2(od, o, nd, n, 0); }
int unlink(const char *p) { PATH_OP("unlink", 0, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0)) }
int unlinkat(int d, const char *p, int fl) { PATH_OP(fl & AT_REMOVEDIR ? "rmdir" : "unlink", 0, d, p, syscall(SYS_unlinkat, d, p, fl)) }
int remove(const char *p)
{
    struct stat st;
    if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) { PATH_OP("rmdir", 0, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)) }
    PATH_OP("unlink", 0, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0))
}
int rmdir(const char *p) { PATH_OP("rmdir", 0, AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)) }
int mkdir(const char *p, mode_t m) { PATH_OP("mkdir", 1, AT_FDCWD, p, syscall(SYS_mkdirat, AT_FDCWD, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { PATH_OP("mkdir", 1, d, p, syscall(SYS_mkdirat, d, p, m)) }
int link(const char *o, const char *n) { PATH_OP("link", 1, AT_FDCWD, n, syscall(SYS_linkat, AT_FDCWD, o, AT_FDCWD, n, 0)) }
int symlink(const char *o, const char *n) { PATH_OP("symlink", 1, AT_FDCWD, n, syscall(SYS_symlinkat, o, AT_FDCWD, n)) }
int truncate64(const char *p, off64_t n) { PATH_OP("truncate", 0, AT_FDCWD, p, syscall(SYS_truncate, p, n)) }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int ftruncate64(int fd, off64_t n)
{
    const char *p = fdname(fd); int after = 0;
    if (p && enter("ftruncate", p, 0, &after)) return -1;
    int r = (int)syscall(SYS_ftruncate, fd, n);
    if (after) die();
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd)
{
    const char *p = fdname(fd); int after = 0;
    if (p && enter("fsync", p, 0, &after)) return -1;
    if (after) die();
    return 0; /* process crashes only: what the kernel has survives */
}
int fdatasync(int fd) { return fsync(fd); }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o)
{
    const char *p = (fl & MAP_ANONYMOUS) ? NULL : fdname(fd); int after = 0;
    if (p && enter("mmap", p, 2, &after)) return MAP_FAILED;
    void *r = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if (after) die();
    return r;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap64(a, n, pr, fl, fd, o); }
