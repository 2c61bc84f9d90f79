/* Preloaded library that journals every change of the files below one directory, in order, and can end the
 * process at the n-th change (before it, or after a part of it).  Nothing outside that directory is looked at. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>

static char dir[512];
static size_t dirlen;
static int logfd = -1;
static long count, kill_at = -1, kill_part;
static long delay_us;
static char *names[4096];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

/* called from the harness; d == "" switches it off */
void mcj_config(const char *d, const char *log, long at, long part, long us)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    count = 0;
    kill_at = at;
    kill_part = part;
    delay_us = us;
    if (logfd >= 0) close(logfd);
    logfd = dirlen ? (int)syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600) : -1;
}

long mcj_count(void) { return count; }

static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

static void rawall(const void *p, size_t n)
{
    const char *c = p;
    while (n > 0) {
        ssize_t k = syscall(SYS_write, logfd, c, n);
        if (k <= 0) _exit(77);
        c += k; n -= k;
    }
}

/* one record: op, path length, path, offset, length, data */
static void note(char op, const char *path, int64_t off, const void *data, int64_t len)
{
    if (logfd < 0) return;
    int32_t pl = strlen(path);
    char head[1 + 4];
    head[0] = op;
    memcpy(head + 1, &pl, 4);
    rawall(head, 5);
    rawall(path, pl);
    rawall(&off, 8);
    rawall(&len, 8);
    if (data) rawall(data, len);
}

static const char *inside(const char *path)
{
    if (!dirlen || !path || strncmp(path, dir, dirlen) || path[dirlen] != '/') return NULL;
    return path + dirlen + 1;
}

static const char *fdname(int fd)
{
    return dirlen && fd >= 0 && fd < 4096 ? names[fd] : NULL;
}

static int is_ack(const char *n) { return !strcmp(n, "ack"); }

static void slow(const char *n)
{
    if (delay_us && !is_ack(n)) {
        struct timespec t = { delay_us / 1000000, (delay_us % 1000000) * 1000 };
        nanosleep(&t, NULL);
    }
}

/* 1 if the process has to end at this change */
static int now(void) { return count++ == kill_at; }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int do_open(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode)
{
    const char *n = inside(path);
    if (!n) {
        int fd = real(path, flags, mode);
        if (fd >= 0 && fd < 4096) names[fd] = NULL;
        return fd;
    }
    slow(n);
    pthread_mutex_lock(&mu);
    struct stat st;
    int fresh = (flags & O_CREAT) && stat(path, &st) != 0;
    int trunc = (flags & O_TRUNC) != 0;
    if ((fresh || trunc) && now()) die();
    int fd = real(path, flags, mode);
    if (fd >= 0 && fd < 4096) {
        free(names[fd]);
        names[fd] = strdup(n);
        if (fresh) note('C', n, 0, NULL, 0);
        if (trunc && !fresh) note('T', n, 0, NULL, 0);
    }
    pthread_mutex_unlock(&mu);
    return fd;
}

#define OPENER(fn) int fn(const char *path, int flags, ...) { \
    mode_t mode = 0; \
    if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
    static int (*real)(const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #fn); \
    return do_open(real, path, flags, mode); }
OPENER(open)
OPENER(open64)

int close(int fd)
{
    REAL(int, "close", int);
    if (fd >= 0 && fd < 4096 && names[fd]) {
        pthread_mutex_lock(&mu);
        free(names[fd]);
        names[fd] = NULL;
        pthread_mutex_unlock(&mu);
    }
    return real(fd);
}

static ssize_t put(int fd, const void *buf, size_t len, off64_t off, int positioned)
{
    const char *n = fdname(fd);
    ssize_t k;
    if (!n) return positioned ? syscall(SYS_pwrite64, fd, buf, len, off) : syscall(SYS_write, fd, buf, len);
    slow(n);
    pthread_mutex_lock(&mu);
    if (!positioned) {
        struct stat st;
        off = (fcntl(fd, F_GETFL) & O_APPEND) && fstat(fd, &st) == 0 ? st.st_size : lseek(fd, 0, SEEK_CUR);
    }
    if (now()) {
        size_t part = kill_part < 0 ? 0 : (size_t)kill_part < len ? (size_t)kill_part : len;
        if (part) syscall(SYS_pwrite64, fd, buf, part, off);
        die();
    }
    k = positioned ? syscall(SYS_pwrite64, fd, buf, len, off) : syscall(SYS_write, fd, buf, len);
    if (k > 0) note('W', n, off, buf, k);
    pthread_mutex_unlock(&mu);
    return k;
}

ssize_t write(int fd, const void *b, size_t n) { return put(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return put(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return put(fd, b, n, o, 1); }

static int do_trunc(int fd, off64_t len)
{
    const char *n = fdname(fd);
    if (!n) return syscall(SYS_ftruncate, fd, len);
    slow(n);
    pthread_mutex_lock(&mu);
    if (now()) die();
    int r = syscall(SYS_ftruncate, fd, len);
    if (r == 0) note('T', n, len, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }

int unlink(const char *path)
{
    REAL(int, "unlink", const char *);
    const char *n = inside(path);
    if (!n) return real(path);
    slow(n);
    pthread_mutex_lock(&mu);
    if (now()) die();
    int r = real(path);
    if (r == 0) note('U', n, 0, NULL, 0);
    pthread_mutex_unlock(&mu);
    return r;
}

int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    const char *n = inside(a), *m = inside(b);
    if (!n || !m) return real(a, b);
    slow(n);
    pthread_mutex_lock(&mu);
    if (now()) die();
    int r = real(a, b);
    if (r == 0) note('R', n, 0, m, strlen(m));
    pthread_mutex_unlock(&mu);
    return r;
}
