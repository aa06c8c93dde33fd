// F01: the file device against the files themselves.
#define _GNU_SOURCE
#include "vh.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include "sdr/file_source.h"

static long ev = 0, di = 0, waits = 0, samples = 0, stops = 0, writes = 0;
static const char *dir;

// a wait may end for no reason
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
static _Atomic unsigned spurious, waited;
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (waited++ % 3 == 2) return __real_pthread_cond_wait(c, m);
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += 300000; if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    if (pthread_cond_timedwait(c, m, &t) != 0) spurious++;
    return 0;
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void nap(double s) { struct timespec t = {(time_t) s, (long) ((s - (time_t) s) * 1e9)}; nanosleep(&t, NULL); }
static void put(const char *p, const void *b, size_t n) { FILE *f = fopen(p, "wb"); if (!f || fwrite(b, 1, n, f) != n || fclose(f)) vh_setup_failed(p); }
static char *get(const char *p, size_t *n) {
    FILE *f = fopen(p, "rb"); if (!f) { *n = 0; return NULL; }
    fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f);
    char *b = malloc(*n + 1); if (fread(b, 1, *n, f) != *n) vh_setup_failed(p); fclose(f); return b;
}

struct reader {
    sdr_device *d; float complex *got; size_t n, cap; int last; size_t last_len; size_t max; bool overrun, first_ok;
    volatile int ended; long calls; size_t stop_after; bool data_with_error;
};

// the loop of the program: ends when there is nothing more
static void *read_all(void *a) {
    struct reader *r = a;
    while (true) {
        float complex *o = (void *) 1; size_t l = 12345;
        int code = r->d->sdr_process_rx(&o, &l, r->d->plugin);
        r->calls++;
        if (l > r->max) { r->overrun = true; break; }
        if (code != 0) { r->last = code; r->last_len = l; if (l != 0) r->data_with_error = true; break; }
        if (l == 0) { r->last = 0; break; }
        if (r->n + l > r->cap) { r->cap = (r->n + l) * 2; r->got = realloc(r->got, r->cap * sizeof(*r->got)); }
        memcpy(r->got + r->n, o, l * sizeof(*o));
        __atomic_store_n(&r->n, r->n + l, __ATOMIC_SEQ_CST);
    }
    __atomic_store_n(&r->ended, 1, __ATOMIC_SEQ_CST);
    return NULL;
}

static double peak(const float complex *x, size_t n) { double m = 0; for (size_t i = 0; i < n; i++) { double a = cabsf(x[i]); if (a > m) m = a; } return m; }

// -> index of the first sample that is not x shifted by freq, or n
static size_t shifted(const float complex *x, const float complex *y, size_t n, int64_t freq, uint64_t fs, double *err) {
    double ph = 0, step = 2 * M_PI * fmod((double) freq / (double) fs, 1.0), slack = 0, pk = peak(x, n);
    for (size_t i = 0; i < n; i++) {
        double complex w = ((double) crealf(x[i]) + I * (double) cimagf(x[i])) * (cos(ph) + I * sin(ph));
        slack += fabs(2 * M_PI * (double) freq / (double) fs) * 1.3e-7 + 4e-7;
        double e = cabs(w - y[i]);
        if (!(e <= pk * (1e-3 + 1.5 * slack))) { *err = e; return i; }
        ph = fmod(ph + step, 2 * M_PI);
    }
    return n;
}

static float complex *content(vh_rng *r, size_t bytes, bool raw) {
    char *b = malloc(bytes + 8);
    if (raw) for (size_t i = 0; i < bytes; i++) b[i] = (char) vh_next(r);       // any bit pattern
    else for (size_t i = 0; i < bytes / 4 + 1; i++) { float v = (float) vh_sym(r); memcpy(b + i * 4, &v, i * 4 + 4 <= bytes + 8 ? 4 : 0); }
    return (float complex *) b;
}

static void rates(vh_rng *r, uint64_t *fs, int64_t *off) {
    static const uint64_t F[] = {48000, 2, 9600, 1000000, 96000, 3, 5000000};
    *fs = vh_below(r, 2) ? F[vh_below(r, 7)] : 100 + vh_below(r, 3000000);
    *off = vh_below(r, 3) == 0 ? 0 : vh_range(r, -(int64_t) *fs, (int64_t) *fs);
    // beyond 32 bits
    if (vh_below(r, 6) == 0) {
        if (vh_below(r, 2)) *fs = 3000000000ull + vh_below(r, 40000000000ull);
        *off = (vh_below(r, 2) ? 1 : -1) * vh_range(r, 2147483648ll, 20000000000ll);
        return;
    }
    if (vh_below(r, 8) == 0) *off = (vh_below(r, 2) ? 1 : -1) * (int64_t) (*fs / (1 + vh_below(r, 4)));
}

static void rx_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    uint64_t fs; int64_t off; rates(&r, &fs, &off);
    uint32_t max = (uint32_t[]) {1, 2, 3, 7, 64, 100, 512, 1000, 4096, 20000}[vh_below(&r, 10)];
    size_t bytes;
    if (vh_below(&r, 40) == 0) max = 40000 + (uint32_t) vh_below(&r, 100000);
    switch (vh_below(&r, 6)) {
        case 0: bytes = vh_below(&r, 20); break;
        case 1: bytes = 8 * (size_t) max * vh_below(&r, 4); break;
        case 2: bytes = 8 * (size_t) max * (1 + vh_below(&r, 3)) + vh_range(&r, -9, 9); break;
        default: bytes = vh_below(&r, 8 * 3000); break;
    }
    if (max < 8 && bytes > 8000) bytes = 8000 - vh_below(&r, 8);
    char in[512]; snprintf(in, sizeof(in), "%s/in%lu", dir, (unsigned long) id);
    bool raw = off == 0 && vh_below(&r, 2);
    float complex *x = content(&r, bytes, raw);
    put(in, x, bytes);
    vh_case("rx id=%lu fs=%lu offset=%ld buffer=%u bytes=%zu raw=%d", id, fs, off, max, bytes, raw);
    sdr_device *d = NULL;
    int code = file_source_create((uint32_t) id, in, NULL, fs, off, max, &d);
    if (code != 0) { vh_viol("file:create-refused", "code %d", code); goto out; }
    size_t want = bytes / 8;
    struct reader rd = {.d = d, .max = max};
    pthread_t t;
    pthread_create(&t, NULL, read_all, &rd);
    // the reader waits after the last sample
    double end = now() + 20;
    while (now() < end && !__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST) && __atomic_load_n(&rd.n, __ATOMIC_SEQ_CST) < want) nap(0.0005);
    for (int i = 0; i < 5 && !__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST); i++) nap(0.002);
    if (__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) { vh_viol("file:reader-ended", "with %d after %zu of %zu samples without having been told to stop", rd.last, rd.n, want); }
    else waits++;
    double stop = now();
    d->stop_rx(d->plugin);
    end = now() + 20;
    while (now() < end && !__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) nap(0.0005);
    if (!__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) { vh_viol("file:stop", "the reader still waits %.1f s after stop", now() - stop); fflush(stdout); _exit(0); }
    pthread_join(t, NULL);
    if (rd.overrun) vh_viol("file:overrun", "more samples than the buffer holds");
    if (rd.data_with_error) vh_viol("file:data-with-error", "samples were returned with an error");
    if (rd.last == 0) vh_viol("file:end-code", "the end is not reported as an error code");
    if (rd.n != want) vh_viol("file:count", "%zu samples read, the file holds %zu", rd.n, want);
    size_t n = rd.n < want ? rd.n : want; double err = 0;
    if (off == 0) {
        if (memcmp(rd.got ? (void *) rd.got : (void *) "", x, n * 8)) { size_t i = 0; while (!memcmp(&rd.got[i], &x[i], 8)) i++; vh_viol("file:samples", "sample %zu differs", i); }
    } else {
        size_t i = shifted(x, rd.got, n, off, fs, &err);
        if (i < n) vh_viol("file:shift", "sample %zu: (%g,%g) from (%g,%g), error %g", i, crealf(rd.got[i]), cimagf(rd.got[i]), crealf(x[i]), cimagf(x[i]), err);
    }
    samples += rd.n;
    free(rd.got);
    // nothing more afterwards
    for (int i = 0; i < 2; i++) {
        float complex *o = (void *) 1; size_t l = 7; int k = d->sdr_process_rx(&o, &l, d->plugin);
        if (k == 0 || l != 0) vh_viol("file:after-stop", "code %d, %zu samples", k, l);
    }
    d->destroy(d->plugin); free(d);
    ev++; if (bytes >= 8) di++;
    if (id % 1000 < 2) vh_sample("rx fs=%lu offset=%ld buffer=%u bytes=%zu", fs, off, max, bytes);
out:
    free(x); unlink(in);
}

// stop at any moment: what has been read is a prefix, and the end comes at once
static void stop_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id + 77777);
    uint32_t max = 1 + (uint32_t) vh_below(&r, 400);
    size_t n = 1 + vh_below(&r, 200000);
    char in[512]; snprintf(in, sizeof(in), "%s/st%lu", dir, (unsigned long) id);
    float complex *x = content(&r, n * 8, false);
    put(in, x, n * 8);
    int64_t off = vh_below(&r, 2) ? 0 : 1000;
    vh_case("stop id=%lu buffer=%u samples=%zu", id, max, n);
    sdr_device *d = NULL;
    if (file_source_create(1, in, NULL, 48000, off, max, &d) != 0) { vh_viol("file:create-refused", ""); goto out; }
    struct reader rd = {.d = d, .max = max};
    bool before = vh_below(&r, 6) == 0;
    if (before) d->stop_rx(d->plugin);
    pthread_t t; pthread_create(&t, NULL, read_all, &rd);
    double w = vh_unit(&r) * 0.004;
    double s = now(); while (now() - s < w);
    d->stop_rx(d->plugin);
    if (vh_below(&r, 3) == 0) d->stop_rx(d->plugin);
    double end = now() + 20;
    while (now() < end && !__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) nap(0.0005);
    if (!__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) { vh_viol("file:stop", "the reader doesn't end after stop"); fflush(stdout); _exit(0); }
    pthread_join(t, NULL);
    double err;
    if (before && rd.n != 0) vh_viol("file:read-after-stop", "%zu samples", rd.n);
    if (rd.n > n) vh_viol("file:count", "%zu of %zu", rd.n, n);
    else if (off == 0 ? rd.n && memcmp(rd.got, x, rd.n * 8) : shifted(x, rd.got, rd.n, off, 48000, &err) < rd.n) vh_viol("file:prefix", "what was read before the stop is not the beginning of the file");
    samples += rd.n; stops++; ev++; di += rd.n > 0 && rd.n < n;
    free(rd.got);
    d->destroy(d->plugin); free(d);
out:
    free(x); unlink(in);
}

static void tx_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id + 31337);
    uint64_t fs; int64_t off; rates(&r, &fs, &off);
    uint32_t max = (uint32_t[]) {1, 2, 3, 17, 100, 512, 4096}[vh_below(&r, 7)];
    bool large = vh_below(&r, 40) == 0;
    if (large) max = 40000 + (uint32_t) vh_below(&r, 100000);
    char p[512]; snprintf(p, sizeof(p), "%s/out%lu", dir, (unsigned long) id);
    if (vh_below(&r, 2)) { char old[3000] = {7}; put(p, old, vh_below(&r, 3000)); }      // replaced
    vh_case("tx id=%lu fs=%lu offset=%ld buffer=%u", id, fs, off, max);
    sdr_device *d = NULL;
    if (file_source_create(1, NULL, p, fs, off, max, &d) != 0) { vh_viol("file:create-refused", ""); unlink(p); return; }
    float complex *all = malloc(large ? 8 * 6 * (size_t) max : 8 * 40 * 4200); size_t n = 0;
    int k = (int) vh_below(&r, large ? 6 : 30);
    bool special = off == 0 && vh_below(&r, 3) == 0;
    for (int i = 0; i < k; i++) {
        size_t l = vh_below(&r, 6) == 0 ? max : vh_below(&r, 8) == 0 ? 0 : vh_below(&r, (uint64_t) max + 1);
        bool over = vh_below(&r, 12) == 0;
        if (over) l = max + 1 + vh_below(&r, 50);
        float complex *x = malloc(l * 8 + 1);
        for (size_t j = 0; j < l; j++) x[j] = special ? (float) NAN * (float) vh_below(&r, 2) + I * (float) 1e38 * (float) vh_sym(&r) : (float) vh_sym(&r) + I * (float) vh_sym(&r);
        if (!over) { memcpy(all + n, x, l * 8); n += l; }
        int code = d->sdr_process_tx(x, l, d->plugin);
        if (over ? code == 0 : code != 0) vh_viol(over ? "file:overlong-accepted" : "file:write-refused", "%zu samples, buffer %u: code %d", l, max, code);
        free(x); writes++;
        // acknowledged samples are in the file
        struct stat st;
        if (stat(p, &st) || (size_t) st.st_size != n * 8) { vh_viol("file:not-written", "%lld bytes instead of %zu after an accepted write", (long long) st.st_size, n * 8); break; }
    }
    // a transmitter has nothing to read
    float complex *o = (void *) 1; size_t l = 7; int code = d->sdr_process_rx(&o, &l, d->plugin);
    if (code == 0 || l != 0) vh_viol("file:rx-of-tx", "code %d, %zu samples", code, l);
    d->destroy(d->plugin); free(d);
    size_t bytes; char *b = get(p, &bytes); double err = 0;
    if (bytes != n * 8) vh_viol("file:size", "%zu bytes instead of %zu", bytes, n * 8);
    else if (off == 0 && memcmp(b, all, bytes)) vh_viol("file:content", "");
    else if (off != 0) { size_t i = shifted(all, (void *) b, n, off, fs, &err); if (i < n) vh_viol("file:tx-shift", "fs=%lu offset=%ld sample %zu of %zu: error %g", fs, off, i, n, err); }
    free(b); free(all); unlink(p);
    samples += n; ev++; if (n) di++;
}

static void odd_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id + 99);
    char p[512], q[600]; snprintf(p, sizeof(p), "%s/odd%lu", dir, (unsigned long) id);
    sdr_device *d = (void *) 0; float complex *o; size_t l; int64_t off = vh_below(&r, 2) ? 0 : 500;
    vh_case("odd id=%lu", id);
    snprintf(q, sizeof(q), "%s-none", p);
    if (file_source_create(1, q, NULL, 48000, off, 10, &d) == 0) { vh_viol("file:missing-accepted", ""); d->destroy(d->plugin); free(d); }
    snprintf(q, sizeof(q), "%s-none/out", p);
    if (file_source_create(1, NULL, q, 48000, off, 10, &d) == 0) { vh_viol("file:missing-accepted", "tx"); d->destroy(d->plugin); free(d); }
    // a directory can be opened but not read: an error, not the end of the recording
    if (file_source_create(1, dir, NULL, 48000, off, 10, &d) == 0) {
        struct reader rd = {.d = d, .max = 10}; pthread_t t; pthread_create(&t, NULL, read_all, &rd);
        double end = now() + 10; while (now() < end && !__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) nap(0.001);
        if (!__atomic_load_n(&rd.ended, __ATOMIC_SEQ_CST)) { vh_viol("file:error-not-reported", "reading a directory"); d->stop_rx(d->plugin); }
        pthread_join(t, NULL);
        if (rd.n || rd.last == 0) vh_viol("file:error-as-data", "");
        d->destroy(d->plugin); free(d); free(rd.got);
    }
    float complex x[10] = {1};
    if (access("/dev/full", W_OK) == 0 && file_source_create(1, NULL, "/dev/full", 48000, off, 10, &d) == 0) {
        if (d->sdr_process_tx(x, 1 + vh_below(&r, 10), d->plugin) == 0) vh_viol("file:write-error-lost", "the device is full");
        d->destroy(d->plugin); free(d);
    }
    // a receiver cannot write
    put(p, x, 80);
    if (file_source_create(1, p, NULL, 48000, off, 10, &d) == 0) {
        if (d->sdr_process_tx(x, 1, d->plugin) == 0) vh_viol("file:tx-of-rx", "");
        o = NULL; l = 0;
        if (d->sdr_process_rx(&o, &l, d->plugin) != 0 || l != 10) vh_viol("file:count", "%zu of 10", l);
        d->stop_rx(d->plugin);
        d->destroy(d->plugin); free(d);
    }
    unlink(p);
    ev++; di++;
}

int main(int argc, char **argv) {
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 1, 1);
    long from = vh_arg(argc, argv, 2, 0), n = vh_arg(argc, argv, 3, 10);
    dir = argv[4];
    for (long i = from; i < from + n; i++) { rx_case(seed, i); stop_case(seed, i); tx_case(seed, i); if (i % 10 == 0) odd_case(seed, i); }
    vh_ev("evaluations", ev); vh_ev("distinct", di); vh_ev("readers_seen_waiting", waits); vh_ev("samples_compared", samples); vh_ev("stops", stops); vh_ev("writes", writes); vh_ev("spurious_wakeups", spurious);
    vh_done();
    return 0;
}
