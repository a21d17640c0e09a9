/* Native definitions of the harness interface: replays recorded inputs on the real compiled code. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t inputs[65536]; static int ninputs, next_input;
static uint64_t params[64];
int vf_load(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) return -1;
    char w[64]; ninputs = next_input = 0;
    while (fscanf(f, "%63s", w) == 1) {
        if (w[0] == 'p') { int i; unsigned long long v; if (sscanf(w, "p%d=%llu", &i, &v) == 2 && i < 64) params[i] = v; }
        else inputs[ninputs++] = strtoull(w, 0, 10);
    }
    fclose(f); return ninputs;
}
void vf_done(void) { printf("COMPLETED\n"); fflush(stdout); }
uint64_t sym_bits(uint32_t w, const char *n, uint64_t l) {
    (void)n; (void)l;
    uint64_t v = next_input < ninputs ? inputs[next_input] : 0; next_input++;
    if (w < 64) v &= (1ull << w) - 1;
    return v;
}
void sym_assume(_Bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(77); } }
void sym_assert(_Bool c, const char *m, uint64_t l) { if (!c) { printf("ASSERT-FAILED %.*s\n", (int)l, m); fflush(stdout); _Exit(42); } }
void sym_cover(const char *m, uint64_t l) { (void)m; (void)l; }
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
uint64_t sym_concrete(uint64_t v) { return v; }
uint64_t sym_param(uint32_t i) { return i < 64 ? params[i] : 0; }
/* the number of processors is a parameter, as in the encoding */
long __sysconf(int);
int sched_getaffinity(int p, size_t l, void *m) { (void)p; (void)l; (void)m; return -1; }
long sysconf(int i) { return i == 84 ? (params[13] ? (long)params[13] : 2) : __sysconf(i); }
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
int openat64(int, const char *, int, ...);
int open64(const char *p, int f, ...) {
    if (!strncmp(p, "/proc/self/", 11) || !strncmp(p, "/sys/", 5)) { errno = ENOENT; return -1; }
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return openat64(AT_FDCWD, p, f, m);
}
void sym_print(uint64_t v) { printf("PRINT %llu\n", (unsigned long long)v); }
