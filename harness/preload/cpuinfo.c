// Shows the process another machine: /proc/cpuinfo of MM_CPUS = "packages,cores per package,hardware threads per core"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

static int fake(void) {
    int p = 1, c = 1, h = 1;
    sscanf(getenv("MM_CPUS"), "%d,%d,%d", &p, &c, &h);
    int fd = syscall(SYS_memfd_create, "cpuinfo", 1);
    int n = 0;
    for (int i = 0; i < p; i++)
        for (int j = 0; j < c; j++)
            for (int k = 0; k < h; k++)
                dprintf(fd, "processor\t: %d\nvendor_id\t: mmcheck\nphysical id\t: %d\nsiblings\t: %d\ncore id\t\t: %d\ncpu cores\t: %d\n\n", n++, i, c * h, j, c);
    lseek(fd, 0, SEEK_SET);
    return fd;
}
static int go(int dir, const char *path, int flags, mode_t mode) {
    if (path && !strcmp(path, "/proc/cpuinfo") && getenv("MM_CPUS"))
        return fake();
    return syscall(SYS_openat, dir, path, flags, mode);
}
#define OPEN(name)                                 \
    int name(const char *path, int flags, ...) {   \
        va_list v;                                 \
        va_start(v, flags);                        \
        mode_t m = va_arg(v, mode_t);              \
        va_end(v);                                 \
        return go(AT_FDCWD, path, flags, m);       \
    }
#define OPENAT(name)                                        \
    int name(int dir, const char *path, int flags, ...) {   \
        va_list v;                                          \
        va_start(v, flags);                                 \
        mode_t m = va_arg(v, mode_t);                       \
        va_end(v);                                          \
        return go(dir, path, flags, m);                     \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
