/*
 * Ends the process at its k-th operation that changes the file system (or in the middle of a write).
 * Inert until crash_arm() is called. Preloaded, so that it sees the calls of the interpreter itself.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile int armed;
static long at = -1;
static int mode;            /* 0: before the operation; of a write: 1 half of, 2 all but one of, 3 up to four of the bytes are written */
static volatile long count;
static char kinds[1 << 16];

void crash_arm(long k, int m)
{
    at = k;
    mode = m;
    count = 0;
    armed = 1;
}

long crash_disarm(void)
{
    armed = 0;
    return count;
}

const char *crash_kinds(void)
{
    return kinds;
}

/* 1: this is the operation to stop at */
static int point(char kind)
{
    long n = __sync_fetch_and_add(&count, 1);
    if (n < (long)sizeof kinds - 1)
        kinds[n] = kind;
    return n == at;
}

static void end(void)
{
    syscall(SYS_exit_group, 77);
}

static void mutate(char kind)
{
    if (armed && point(kind))
        end();
}

static int regular(int fd)
{
    struct stat st;
    return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (armed && n && regular(fd) && point('w')) {
        if (mode && n > 1)
            real(fd, b, mode == 1 ? n / 2 : mode == 2 ? n - 1 : n < 5 ? 1 : 4);
        end();
    }
    return real(fd, b, n);
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (armed && n && regular(fd))
        mutate('w');
    return real(fd, b, n, o);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (armed && regular(fd))
        mutate('w');
    return real(fd, v, n);
}

ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (armed && regular(o))
        mutate('w');
    return real(o, i, off, n);
}

ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (armed && regular(o))
        mutate('w');
    return real(o, i, off, n);
}

ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (armed)
        mutate('w');
    return real(i, io, o, oo, n, f);
}

#define CHANGES(flags) ((flags) & (O_CREAT | O_TRUNC))

#define OPEN(name) \
int name(const char *p, int flags, ...) \
{ \
    REAL(int, #name, const char *, int, ...); \
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
    if (CHANGES(flags)) mutate('o'); \
    return real(p, flags, m); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int d, const char *p, int flags, ...) \
{ \
    REAL(int, #name, int, const char *, int, ...); \
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
    if (CHANGES(flags)) mutate('o'); \
    return real(d, p, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); mutate('r'); return real(a, b); }
int renameat(int c, const char *a, int d, const char *b)
{ REAL(int, "renameat", int, const char *, int, const char *); mutate('r'); return real(c, a, d, b); }
int renameat2(int c, const char *a, int d, const char *b, unsigned f)
{ REAL(int, "renameat2", int, const char *, int, const char *, unsigned); mutate('r'); return real(c, a, d, b, f); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); mutate('l'); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); mutate('l'); return real(a, b); }
int unlink(const char *a) { REAL(int, "unlink", const char *); mutate('u'); return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int); mutate('u'); return real(d, a, f); }
int rmdir(const char *a) { REAL(int, "rmdir", const char *); mutate('u'); return real(a); }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); mutate('m'); return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); mutate('m'); return real(d, a, m); }
int truncate64(const char *a, off64_t l) { REAL(int, "truncate64", const char *, off64_t); mutate('t'); return real(a, l); }
int ftruncate64(int f, off64_t l) { REAL(int, "ftruncate64", int, off64_t); mutate('t'); return real(f, l); }
int truncate(const char *a, off_t l) { REAL(int, "truncate", const char *, off_t); mutate('t'); return real(a, l); }
int ftruncate(int f, off_t l) { REAL(int, "ftruncate", int, off_t); mutate('t'); return real(f, l); }
