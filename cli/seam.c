/* Loaded (LD_PRELOAD) into the command line program of /repo when the simulator runs it: its calls
 * on files of the scratch directory and on its standard streams, its clock and its entropy wait
 * for the simulator, which says whether each goes on, how far, fails, or is the last. Everything
 * else goes to the system as always. One request and one answer at a time; see c24_cli.rs. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define ASK 198
#define TOLD 199

enum { OPEN = 1, READ, WRITE, CLOSE, SYNC, RENAME, UNLINK, TRUNCATE, ENTROPY, BLOCKED };
enum { GO = 0, FAIL, KILL, GIVE };

struct ask {
    uint32_t op;
    int32_t fd;
    uint64_t n;
    uint64_t flags;
    int64_t before; /* what the last call gave */
    char path[64];
};
struct told {
    int32_t action;
    int32_t pad;
    uint64_t n;
    uint8_t data[64];
};

static int on = -1;
static unsigned char mine[256];
static int64_t before;

static int active(void) {
    if (on < 0) on = fcntl(ASK, F_GETFD) >= 0 && fcntl(TOLD, F_GETFD) >= 0;
    return on;
}

static int ours(int fd) { return active() && (fd == 0 || fd == 1 || (fd > 2 && fd < 256 && mine[fd])); }

static struct told ask(int op, int fd, uint64_t n, uint64_t flags, const char *path) {
    struct ask a = {op, fd, n, flags, before, {0}};
    struct told t;
    if (path) strncpy(a.path, path, sizeof a.path - 1);
    if (syscall(SYS_write, ASK, &a, sizeof a) != sizeof a) syscall(SYS_exit_group, 99);
    char *p = (char *)&t;
    size_t left = sizeof t;
    while (left) {
        long r = syscall(SYS_read, TOLD, p, left);
        if (r <= 0) syscall(SYS_exit_group, 99);
        p += r;
        left -= r;
    }
    if (t.action == KILL) {
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        for (;;) pause();
    }
    return t;
}

static long done(long r) {
    before = r < 0 ? -errno : r;
    return r;
}

static long fail(uint64_t e) {
    before = -(int64_t)e;
    errno = e;
    return -1;
}

/* Would the call wait? Then the simulator lets it go on when somebody else did something. */
static void ready(int fd, short events) {
    for (;;) {
        struct pollfd p = {fd, events, 0};
        if (syscall(SYS_poll, &p, 1, 0) != 0) return;
        ask(BLOCKED, fd, 0, 0, 0);
    }
}

static int opened(int dir, const char *path, int flags, int mode) {
    int here = active() && path[0] != '/' && dir == AT_FDCWD;
    if (here) {
        struct told t = ask(OPEN, -1, 0, flags, path);
        if (t.action == FAIL) return fail(t.n);
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (here) {
        if (fd >= 0 && fd < 256) mine[fd] = 1;
        done(fd);
    }
    return fd;
}

#define MODE                                                                                       \
    int mode = 0;                                                                                  \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                           \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        mode = va_arg(ap, int);                                                                    \
        va_end(ap);                                                                                \
    }

int open(const char *path, int flags, ...) { MODE return opened(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return opened(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return opened(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return opened(dir, path, flags, mode); }

ssize_t read(int fd, void *buf, size_t n) {
    if (ours(fd)) {
        struct told t = ask(READ, fd, n, 0, 0);
        if (t.action == FAIL) return fail(t.n);
        if (t.n < n) n = t.n;
        ready(fd, POLLIN);
        return done(syscall(SYS_read, fd, buf, n));
    }
    return syscall(SYS_read, fd, buf, n);
}

ssize_t readv(int fd, const struct iovec *v, int c) {
    if (ours(fd)) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_readv, fd, v, c);
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (ours(fd)) {
        struct told t = ask(WRITE, fd, n, 0, 0);
        if (t.action == FAIL) return fail(t.n);
        if (t.n < n) n = t.n;
        ready(fd, POLLOUT);
        return done(syscall(SYS_write, fd, buf, n));
    }
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (ours(fd)) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, c);
}

int close(int fd) {
    if (ours(fd)) {
        struct told t = ask(CLOSE, fd, 0, 0, 0);
        if (fd > 2) mine[fd] = 0;
        long r = done(syscall(SYS_close, fd));
        return t.action == FAIL ? fail(t.n) : r;
    }
    return syscall(SYS_close, fd);
}

static int sync_(int fd, long nr) {
    if (ours(fd)) {
        struct told t = ask(SYNC, fd, 0, 0, 0);
        if (t.action == FAIL) return fail(t.n);
        return done(syscall(nr, fd));
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return sync_(fd, SYS_fsync); }
int fdatasync(int fd) { return sync_(fd, SYS_fdatasync); }

int ftruncate64(int fd, off_t n) {
    if (ours(fd)) {
        struct told t = ask(TRUNCATE, fd, n, 0, 0);
        if (t.action == FAIL) return fail(t.n);
        return done(syscall(SYS_ftruncate, fd, n));
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

int rename(const char *from, const char *to) {
    if (active() && to[0] != '/') {
        struct told t = ask(RENAME, -1, 0, 0, to);
        if (t.action == FAIL) return fail(t.n);
        return done(syscall(SYS_rename, from, to));
    }
    return syscall(SYS_rename, from, to);
}

int unlink(const char *path) {
    if (active() && path[0] != '/') {
        struct told t = ask(UNLINK, -1, 0, 0, path);
        if (t.action == FAIL) return fail(t.n);
        return done(syscall(SYS_unlink, path));
    }
    return syscall(SYS_unlink, path);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (active()) {
        struct told t = ask(ENTROPY, -1, n, flags, 0);
        if (t.action == FAIL) return fail(t.n);
        if (n > sizeof t.data) n = sizeof t.data;
        memcpy(buf, t.data, n);
        return done(n);
    }
    return syscall(SYS_getrandom, buf, n, flags);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    static int64_t ticks;
    if (active()) {
        ticks += 1000;
        ts->tv_sec = 1700000000 + ticks / 1000000000;
        ts->tv_nsec = ticks % 1000000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
