// Line protocol and helpers shared by the C harnesses.
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <complex.h>
#include <stdbool.h>

typedef struct { uint64_t s; } vh_rng;
static inline uint64_t vh_next(vh_rng *r) {           // splitmix64
    uint64_t z = (r->s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline vh_rng vh_seed(uint64_t a, uint64_t b) { vh_rng r = {a * 0x9E3779B97F4A7C15ULL ^ (b + 1) * 0xD1B54A32D192ED03ULL}; vh_next(&r); return r; }
static inline uint64_t vh_below(vh_rng *r, uint64_t n) { return n ? vh_next(r) % n : 0; }
static inline int64_t vh_range(vh_rng *r, int64_t lo, int64_t hi) { return lo + (int64_t) vh_below(r, (uint64_t) (hi - lo) + 1); }
static inline double vh_unit(vh_rng *r) { return (double) (vh_next(r) >> 11) / 9007199254740992.0; }
static inline double vh_sym(vh_rng *r) { return 2 * vh_unit(r) - 1; }
static inline double vh_gauss(vh_rng *r) { double u = vh_unit(r) + 1e-300, v = vh_unit(r); return sqrt(-2 * log(u)) * cos(2 * 3.14159265358979323846 * v); }

static inline void vh_ev(const char *k, long long n) { printf("EV %s %lld\n", k, n); }
static inline void vh_viol(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    printf("VIOL %s\t", key); vprintf(fmt, ap); printf("\n"); fflush(stdout);
    va_end(ap);
}
static inline void vh_case(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    printf("CASE "); vprintf(fmt, ap); printf("\n"); fflush(stdout);
    va_end(ap);
}
static inline void vh_sample(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    printf("SAMPLE "); vprintf(fmt, ap); printf("\n");
    va_end(ap);
}
static inline void vh_done(void) { printf("DONE\n"); fflush(stdout); }
static inline void vh_setup_failed(const char *what) { fprintf(stderr, "setup failed: %s\n", what); exit(77); }
static inline long vh_arg(int argc, char **argv, int i, long def) { return argc > i ? strtol(argv[i], NULL, 10) : def; }
#endif
