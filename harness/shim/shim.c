/* Preloaded into the program: notes which environment variables it looks up,
 * shifts its clock, and makes its reads and writes short, interrupted or
 * failing. Controlled by variables that start with MON_. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static char *find(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
static long num(const char *name) {
    char *v = find(name);
    return v ? atol(v) : -1;
}
static int ready, log_fd = -1;
static long shift, read_chunk, read_fail, read_err, read_eintr, write_chunk, write_fail, write_err, write_eintr, write_once;
static long got, put, reads, writes, failed;

static void init(void) {
    if (ready) return;
    ready = 1;
    log_fd = (int)num("MON_LOG_FD");
    shift = find("MON_CLOCK") ? atol(find("MON_CLOCK")) : 0;
    read_chunk = num("MON_READ_CHUNK");
    read_fail = num("MON_READ_FAIL");
    read_err = num("MON_READ_ERRNO");
    read_eintr = num("MON_READ_EINTR");
    write_chunk = num("MON_WRITE_CHUNK");
    write_fail = num("MON_WRITE_FAIL");
    write_err = num("MON_WRITE_ERRNO");
    write_eintr = num("MON_WRITE_EINTR");
    write_once = num("MON_WRITE_ONCE");
}
static void note(const char *what, const char *name) {
    init();
    if (log_fd < 0) return;
    char b[600];
    size_t n = strlen(name), w = strlen(what);
    if (n + w + 3 > sizeof b) return;
    memcpy(b, what, w);
    b[w] = ' ';
    memcpy(b + w + 1, name, n);
    b[w + 1 + n] = '\n';
    syscall(SYS_write, log_fd, b, w + n + 2);
}
__attribute__((constructor)) static void loaded(void) { note("loaded", "shim"); }

char *getenv(const char *name) {
    note("env", name);
    return find(name);
}
char *secure_getenv(const char *name) { return getenv(name); }

int clock_gettime(clockid_t id, struct timespec *t) {
    init();
    int r = (int)syscall(SYS_clock_gettime, id, t);
    if (!r && id == CLOCK_REALTIME) {
        if (shift) note("clock", "shifted");
        t->tv_sec += shift;
    }
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
pid_t getpid(void) {
    init();
    pid_t p = (pid_t)syscall(SYS_getpid);
    return shift ? (pid_t)(p % 1000 + 2) : p;
}

ssize_t read(int fd, void *b, size_t n) {
    init();
    if ((fd == 0 || fd > 2) && fd != log_fd) {
        if (read_eintr > 0 && ++reads % read_eintr == 0) {
            errno = EINTR;
            return -1;
        }
        if (read_fail >= 0) {
            if (got >= read_fail) {
                errno = (int)read_err;
                return -1;
            }
            if (n > (size_t)(read_fail - got)) n = (size_t)(read_fail - got);
        }
        if (read_chunk > 0 && n > (size_t)read_chunk) n = (size_t)read_chunk;
    }
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0 && (fd == 0 || fd > 2)) got += r;
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    init();
    if (fd == 1) {
        if (write_eintr > 0 && ++writes % write_eintr == 0) {
            errno = EINTR;
            return -1;
        }
        if (write_fail >= 0 && !(write_once > 0 && failed)) {
            if (put >= write_fail) {
                failed = 1;
                errno = (int)write_err;
                return write_err == 0 ? 0 : -1;
            }
            if (n > (size_t)(write_fail - put)) n = (size_t)(write_fail - put);
        }
        if (write_chunk > 0 && n > (size_t)write_chunk) n = (size_t)write_chunk;
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (r > 0 && fd == 1) put += r;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
