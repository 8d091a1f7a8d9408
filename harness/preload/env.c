// Answers questions for environment variables that are not set and look like settings of a numeric library:
// nothing but MATMUL_NUM_THREADS may have a say in a call
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>

char *getenv(const char *name) {
    static char *(*real)(const char *);
    if (!real)
        real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    char *v = real(name);
    if (v || !strcmp(name, "MATMUL_NUM_THREADS") || !strncmp(name, "RUST", 4) || !strncmp(name, "MM_", 3))
        return v;
    static const char *const parts[] = {"NUM", "THREAD", "MATRIX", "MATMUL", "GEMM", "OMP", "RAYON", "BLAS", "MKL", "KERNEL", "SIMD", "AVX", "FMA", "CPU", "CORE", "CACHE", "BLOCK", "PARALLEL", "WORKER", "JOBS", "TUNE", "PACK", "DETERMIN", "FEATURE", "ARCH", "DEBUG", "STRICT", "FAST", "_KC", "_MC", "_NC"};
    for (size_t i = 0; i < sizeof parts / sizeof *parts; i++)
        if (strstr(name, parts[i]))
            return real("MM_ENV_ANSWER");
    return v;
}
