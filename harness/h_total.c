// D11: every signal block under hostile samples and every kind of parameters; the sanitizers watch memory and arithmetic,
// this file watches output bounds, refusal of over-long buffers and of unusable parameters, and termination.
#include "vh.h"
#include "dsp/fir_filter.h"
#include "dsp/lpf.h"
#include "dsp/lpf_taps.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/quadrature_demod.h"
#include "dsp/dc_blocker.h"
#include "dsp/fsk_demod.h"
#include "dsp/gfsk_mod.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/frequency_modulator.h"
#include "dsp/sig_source.h"
#include "dsp/doppler.h"
#include <malloc.h>

static long ev = 0, accepted = 0, refused = 0, buffers = 0, overlong = 0, mustrefuse = 0;

static uint64_t ext64(vh_rng *r) {
    static const uint64_t E[] = {0, 1, 2, 3, 7, 255, 256, 65535, 1u << 16, 48000, 0x7fffffff, 0x80000000u, 0xffffffffu, 1ull << 32, 1ull << 53, 0x7fffffffffffffffull, 1ull << 63, ~0ull};
    return vh_below(r, 3) ? E[vh_below(r, sizeof(E) / sizeof(*E))] : vh_next(r) >> vh_below(r, 64);
}
static float extf(vh_rng *r) {
    static const float E[] = {0, -0.0f, 1, -1, 1e-38f, 1e-45f, -1e-45f, 3.4e38f, -3.4e38f, 1e20f, 2147483648.0f, 4294967296.0f, 0.5f, 0.999999f, 1.000001f, 255.99f, 256, 16777216.0f};
    uint64_t k = vh_below(r, 24);
    if (k == 21) return INFINITY;
    if (k == 22) return -INFINITY;
    if (k == 23) return NAN;
    if (k >= 18) return (float) (vh_sym(r) * pow(10, vh_sym(r) * 6));
    return E[k];
}
// style of the samples of one buffer
static float hostile(vh_rng *r, int style, size_t i) {
    switch (style) {
        case 0: return (float) vh_sym(r);
        case 1: return extf(r);
        case 2: return vh_below(r, 10) ? (float) vh_sym(r) : extf(r);
        case 3: return NAN;
        case 4: return (i & 1) ? 3.4e38f : -3.4e38f;
        case 5: return INFINITY;
        case 6: return 0;
        case 7: return 1e-42f;
        default: return (float) sin(i * 0.7);
    }
}
static float *fbuf(vh_rng *r, size_t n, int w) {
    // exactly sized so that a single sample too many is seen
    float *p = malloc(sizeof(float) * (n * w + (n == 0)));
    int st = (int) vh_below(r, 9);
    for (size_t i = 0; i < n * w; i++) p[i] = hostile(r, st, i);
    return p;
}
static size_t len(vh_rng *r, size_t max) { uint64_t k = vh_below(r, 8); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? max : k == 3 && max > 0 ? max - 1 : max ? 1 + vh_below(r, max) : 0; }
static size_t maxlen(vh_rng *r) { static const size_t M[] = {1, 2, 3, 7, 8, 9, 16, 31, 100, 1000}; if (vh_below(r, 250) == 0) return 60000 + vh_below(r, 80000); return vh_below(r, 2) ? M[vh_below(r, 10)] : 1 + vh_below(r, 3000); }
static void touch(const void *p, size_t bytes) {           // every announced byte must be readable (ASan)
    volatile unsigned char s = 0;
    for (size_t i = 0; i < bytes; i++) s ^= ((const unsigned char *) p)[i];
    (void) s;
}
#define CREATED(rc, p, name) do { ev++; if ((rc) == 0) accepted++; else refused++; if ((rc) == 0 && (p) == NULL) { vh_viol(name ":no-object", "success without an object"); return; } } while (0)
#define REFUSE(cond, rc, name, ...) do { if (cond) { mustrefuse++; if ((rc) == 0) vh_viol(name ":unusable-accepted", __VA_ARGS__); } } while (0)

static void t_fir(vh_rng *r) {
    uint8_t dec = (uint8_t) (vh_below(r, 4) ? vh_below(r, 8) : vh_next(r));
    size_t tl = vh_below(r, 8) == 0 ? 0 : 1 + vh_below(r, vh_below(r, 2) ? 9 : 200), max = maxlen(r);
    int w = vh_below(r, 2) ? 2 : 1;
    vh_case("fir dec=%d taps=%zu max=%zu w=%d", dec, tl, max, w);
    float *taps = fbuf(r, tl, 1);
    fir_filter *f = NULL;
    int rc = fir_filter_create(dec, taps, tl, max, w * sizeof(float), &f);
    CREATED(rc, f, "fir");
    REFUSE(dec == 0 || tl == 0, rc, "fir", "dec=%d taps=%zu", dec, tl);
    if (rc != 0) return;
    size_t in_total = 0, out_total = 0;
    for (int k = 0; k < 12; k++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 20) : len(r, max);
        float *in = fbuf(r, n, w); void *out = (void *) 1; size_t ol = 12345;
        fir_filter_process(in, n, &out, &ol, f);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("fir:overlong-accepted", "%zu of max %zu -> %zu", n, max, ol); free(in); break; } }
        else {
            in_total += n; out_total += ol;
            if (ol && out_total > (in_total + dec - 1) / dec) { vh_viol("fir:too-much-output", "in %zu dec %d out %zu", in_total, dec, out_total); free(in); break; }
            if (ol) touch(out, ol * w * sizeof(float));
        }
        free(in);
    }
    fir_filter_destroy(f);
}
static void t_lpf(vh_rng *r) {
    int ext = (int) vh_below(r, 2);
    uint64_t fs = ext ? ext64(r) : 1000 + vh_below(r, 1000000), cut = ext ? ext64(r) : 1 + vh_below(r, fs / 2);
    uint32_t tw = ext ? (uint32_t) ext64(r) : 1 + (uint32_t) (fs * (0.02 + vh_unit(r)));
    uint8_t dec = (uint8_t) (vh_below(r, 3) ? 1 + vh_below(r, 8) : vh_next(r));
    size_t max = maxlen(r); int w = vh_below(r, 2) ? 2 : 1;
    vh_case("lpf fs=%lu cut=%lu tw=%u dec=%d max=%zu w=%d", fs, cut, tw, dec, max, w);
    lpf *f = NULL;
    int rc = lpf_create(dec, fs, cut, tw, max, w * sizeof(float), &f);
    CREATED(rc, f, "lpf");
    REFUSE(dec == 0 || fs == 0 || cut == 0 || tw == 0 || (double) cut > (double) fs / 2, rc, "lpf", "fs=%lu cut=%lu tw=%u dec=%d", fs, cut, tw, dec);
    if (rc != 0) return;
    for (int k = 0; k < 4; k++) {
        size_t n = len(r, max > 300 ? 300 : max);
        float *in = fbuf(r, n, w); void *out = NULL; size_t ol = 0;
        lpf_process(in, n, &out, &ol, f);
        buffers++;
        if (ol) touch(out, ol * w * sizeof(float));
        if (ol > n) vh_viol("lpf:too-much-output", "%zu -> %zu", n, ol);
        free(in);
    }
    lpf_destroy(f);
}
static void t_clock(vh_rng *r) {
    int ext = (int) vh_below(r, 3) == 0;
    float omega = ext ? extf(r) : (float) (1 + 30 * vh_unit(r)), go = ext ? extf(r) : (float) (vh_unit(r)), mu = ext ? extf(r) : (float) vh_unit(r), gm = ext ? extf(r) : (float) vh_unit(r), lim = ext ? extf(r) : (float) (vh_unit(r) * 0.1);
    if (vh_below(r, 8) == 0) gm = extf(r);
    if (vh_below(r, 8) == 0) go = extf(r);
    if (vh_below(r, 8) == 0) lim = 0.9f;
    size_t max = maxlen(r);
    vh_case("clock omega=%g go=%g mu=%g gm=%g lim=%g max=%zu", omega, go, mu, gm, lim, max);
    clock_mm *c = NULL;
    int rc = clock_mm_create(omega, go, mu, gm, lim, max, &c);
    CREATED(rc, c, "clock");
    REFUSE(!(omega > 0) || isinf(omega), rc, "clock", "omega=%g", omega);
    if (rc != 0) return;
    for (int k = 0; k < 14; k++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 20) : len(r, max);
        float *in = fbuf(r, n, 1), *out = (void *) 1; size_t ol = 12345;
        clock_mm_process(in, n, &out, &ol, c);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("clock:overlong-accepted", "%zu of max %zu -> %zu", n, max, ol); free(in); break; } }
        else { if (ol > max) { vh_viol("clock:too-much-output", "%zu of max %zu", ol, max); free(in); break; } if (ol) touch(out, ol * sizeof(float)); }
        free(in);
    }
    clock_mm_destroy(c);
}
static void t_quad(vh_rng *r) {
    float gain = extf(r); size_t max = maxlen(r);
    vh_case("quad gain=%g max=%zu", gain, max);
    quadrature_demod *q = NULL;
    int rc = quadrature_demod_create(gain, (uint32_t) max, &q);
    CREATED(rc, q, "quad");
    if (rc != 0) return;
    for (int k = 0; k < 10; k++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 20) : len(r, max);
        float *in = fbuf(r, n, 2), *out = (void *) 1; size_t ol = 12345;
        quadrature_demod_process((float complex *) in, n, &out, &ol, q);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("quad:overlong-accepted", "%zu of max %zu", n, max); free(in); break; } }
        else { if (ol != n && ol != 0) vh_viol("quad:output-length", "%zu -> %zu", n, ol); if (ol) touch(out, ol * sizeof(float)); }
        free(in);
    }
    quadrature_demod_destroy(q);
}
static void t_dc(vh_rng *r) {
    int length = vh_below(r, 3) ? (int) vh_range(r, -2, 40) : (int) (vh_next(r) >> (32 + vh_below(r, 32)));
    if (length > 20000) length = 20000 + length % 3;
    if (vh_below(r, 20) == 0) length = INT32_MIN + (int) vh_below(r, 3);
    vh_case("dc length=%d", length);
    dc_blocker *b = NULL;
    int rc = dc_blocker_create(length, &b);
    CREATED(rc, b, "dc");
    REFUSE(length <= 0, rc, "dc", "length=%d", length);
    if (rc != 0) return;
    for (int k = 0; k < 10; k++) {
        size_t n = len(r, 300);
        float *in = fbuf(r, n, 1), *out = NULL; size_t ol = 0;
        dc_blocker_process(in, n, &out, &ol, b);
        buffers++;
        if (ol != n && ol != 0) vh_viol("dc:output-length", "%zu -> %zu", n, ol);
        if (ol) touch(out, ol * sizeof(float));
        free(in);
    }
    dc_blocker_destroy(b);
}
static void t_fskd(vh_rng *r) {
    int ext = (int) vh_below(r, 3) == 0;
    uint64_t fs = ext ? ext64(r) : 9600 + vh_below(r, 200000);
    uint32_t baud = ext ? (uint32_t) ext64(r) : 300 + (uint32_t) vh_below(r, fs / 4);
    int64_t dev = ext ? (int64_t) ext64(r) : (int64_t) (vh_below(r, 2) ? -1 : 1) * (int64_t) (1 + vh_below(r, baud * 2));
    uint8_t dec = (uint8_t) (ext ? vh_next(r) : 1 + vh_below(r, 4));
    uint32_t tw = ext ? (uint32_t) ext64(r) : 200 + (uint32_t) vh_below(r, 20000);
    if (vh_below(r, 10) == 0) dev = vh_below(r, 2) ? INT64_MIN : INT64_MAX;
    if (vh_below(r, 12) == 0) tw = 0;
    if (vh_below(r, 12) == 0) baud = (uint32_t) ext64(r);
    if (vh_below(r, 12) == 0) dec = (uint8_t) vh_next(r);
    bool dc = vh_below(r, 2);
    size_t max = maxlen(r);
    if (dc && baud > 0 && (double) fs / baud / (dec ? dec : 1) > 1500) dc = false;  // blocker of gigabytes: refused or slow, not interesting
    vh_case("fskd fs=%lu baud=%u dev=%ld dec=%d tw=%u dc=%d max=%zu", fs, baud, dev, dec, tw, dc, max);
    fsk_demod *d = NULL;
    int rc = fsk_demod_create(fs, baud, dev, dec, tw, dc, (uint32_t) max, &d);
    CREATED(rc, d, "fskd");
    REFUSE(fs == 0 || baud == 0 || dec == 0 || tw == 0 || dev == 0, rc, "fskd", "fs=%lu baud=%u dev=%ld dec=%d tw=%u", fs, baud, dev, dec, tw);
    if (rc != 0) return;
    for (int k = 0; k < 6; k++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 20) : len(r, max);
        float *in = fbuf(r, n, 2); int8_t *out = (void *) 1; size_t ol = 12345;
        fsk_demod_process((float complex *) in, n, &out, &ol, d);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("fskd:overlong-accepted", "%zu of max %zu", n, max); free(in); break; } }
        else { if (ol > n) { vh_viol("fskd:too-much-output", "%zu -> %zu", n, ol); free(in); break; } if (ol) touch(out, ol); }
        free(in);
    }
    fsk_demod_destroy(d);
}
static void t_gfskm(vh_rng *r) {
    int ext = (int) vh_below(r, 3) == 0;
    float sps = ext ? extf(r) : (float) (1 + 60 * vh_unit(r)), sens = vh_below(r, 3) ? (float) (vh_sym(r) * 3) : extf(r), bt = vh_below(r, 3) ? (float) (0.1 + vh_unit(r)) : extf(r);
    uint32_t max = (uint32_t) (vh_below(r, 8) == 0 ? ext64(r) : 1 + vh_below(r, 200));
    vh_case("gfskm sps=%g sens=%g bt=%g max=%u", sps, sens, bt, max);
    if (max > 2000 && sps >= 1 && sps < 256 && max < (1u << 29)) max = 2000;
    gfsk_mod *m = NULL;
    int rc = gfsk_mod_create(sps, sens, bt, max, &m);
    CREATED(rc, m, "gfskm");
    REFUSE(!(sps >= 1) || isinf(sps), rc, "gfskm", "sps=%g", sps);
    if (rc != 0) return;
    for (int k = 0; k < 5; k++) {
        int big = vh_below(r, 8) == 0 && max < 5000;
        size_t n = big ? (size_t) max + 1 + vh_below(r, 20) : len(r, max > 100 ? 100 : max);
        uint8_t *in = malloc(n + (n == 0)); for (size_t i = 0; i < n; i++) in[i] = (uint8_t) vh_next(r);
        float complex *out = (void *) 1; size_t ol = 12345;
        gfsk_mod_process(in, n, &out, &ol, m);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("gfskm:overlong-accepted", "%zu of max %u", n, max); free(in); break; } }
        else { if (ol != 0 && ol != n * 8 * (size_t) sps) { vh_viol("gfskm:output-length", "sps=%g %zu -> %zu", sps, n, ol); free(in); break; } if (ol) touch(out, ol * sizeof(float complex)); }
        free(in);
    }
    gfsk_mod_destroy(m);
}
static void t_interp(vh_rng *r) {
    size_t tl = 1 + vh_below(r, 60); uint8_t L = (uint8_t) (vh_below(r, 2) ? 1 + vh_below(r, 10) : 1 + vh_below(r, 255)); uint32_t max = (uint32_t) maxlen(r);
    if (max > 500) max = 500;
    vh_case("interp taps=%zu L=%d max=%u", tl, L, max);
    float *taps = fbuf(r, tl, 1);
    interp_fir_filter *f = NULL;
    int rc = interp_fir_filter_create(taps, tl, L, max, &f);
    CREATED(rc, f, "interp");
    if (rc != 0) return;
    for (int k = 0; k < 6; k++) {
        size_t n = len(r, max);
        float *in = fbuf(r, n, 1), *out = NULL; size_t ol = 0;
        interp_fir_filter_process(in, n, &out, &ol, f);
        buffers++;
        if (ol > n * L) vh_viol("interp:too-much-output", "%zu -> %zu L=%d", n, ol, L);
        else if (ol) touch(out, ol * sizeof(float));
        free(in);
    }
    interp_fir_filter_destroy(f);
}
static void t_fm(vh_rng *r) {
    float sens = extf(r); uint32_t max = (uint32_t) maxlen(r);
    vh_case("fm sens=%g max=%u", sens, max);
    frequency_modulator *m = NULL;
    int rc = frequency_modulator_create(sens, max, &m);
    CREATED(rc, m, "fm");
    if (rc != 0) return;
    for (int k = 0; k < 8; k++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 9) : len(r, max);
        float *in = fbuf(r, n, 1); float complex *out = (void *) 1; size_t ol = 12345;
        frequency_modulator_process(in, n, &out, &ol, m);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("fm:overlong-accepted", "%zu of max %u", n, max); free(in); break; } }
        else { if (ol != 0 && ol != n) vh_viol("fm:output-length", "%zu -> %zu", n, ol); if (ol) touch(out, ol * sizeof(float complex)); }
        free(in);
    }
    frequency_modulator_destroy(m);
}
static void t_sig(vh_rng *r) {
    float amp = extf(r); uint64_t fs = ext64(r); uint32_t max = (uint32_t) maxlen(r);
    vh_case("sig amp=%g fs=%lu max=%u", amp, fs, max);
    sig_source *s = NULL;
    int rc = sig_source_create(amp, fs, max, &s);
    CREATED(rc, s, "sig");
    if (rc != 0) return;
    for (int k = 0; k < 10; k++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 9) : len(r, max);
        int64_t fq = (int64_t) ext64(r);
        float *in = fbuf(r, n, 2); float complex *out = (void *) 1; size_t ol = 12345;
        if (vh_below(r, 2)) sig_source_multiply(fq, (float complex *) in, n, &out, &ol, s); else sig_source_process(fq, n, &out, &ol, s);
        buffers++;
        if (big) { overlong++; if (ol != 0) { vh_viol("sig:overlong-accepted", "%zu of max %u", n, max); free(in); break; } }
        else { if (ol != 0 && ol != n) vh_viol("sig:output-length", "%zu -> %zu", n, ol); if (ol) touch(out, ol * sizeof(float complex)); }
        free(in);
    }
    sig_source_destroy(s);
}

static void put_checksum(char *line) {
    int s = 0;
    for (int i = 0; i < 68; i++) s += line[i] >= '0' && line[i] <= '9' ? line[i] - '0' : line[i] == '-';
    line[68] = (char) ('0' + s % 10);
}
static void t_doppler(vh_rng *r) {
    char tle[3][80];
    memset(tle, 0, sizeof(tle));
    static const char *L1[] = {"1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927", "1 11801U          80230.29629788  .01431103  00000-0  14311-1       8", "1 28057U 03049A   06177.78615833  .00000060  00000-0  35940-4 0  1836"};
    static const char *L2[] = {"2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524", "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537", "2 11801U 46.7916 230.4354 7318036  47.4722  10.4117  2.28537848     6", "2 28057  98.4283 247.6961 0000884  88.1964 271.9322 14.35478080140550"};
    int k = (int) vh_below(r, 4);
    strcpy(tle[0], "SAT"); strcpy(tle[1], L1[k]); strcpy(tle[2], L2[k]);
    if (vh_below(r, 2)) {       // extreme but checksummed element values
        int n = 1 + (int) vh_below(r, 4);
        for (int i = 0; i < n; i++) {
            int l = 1 + (int) vh_below(r, 2), p = 8 + (int) vh_below(r, 60);
            if (vh_below(r, 3) == 0) { int q = p + (int) vh_below(r, 9); char c = vh_below(r, 2) ? '9' : '0'; for (; p < q && p < 68; p++) if (tle[l][p] >= '0' && tle[l][p] <= '9') tle[l][p] = c; }
            else if (tle[l][p] >= '0' && tle[l][p] <= '9') tle[l][p] = (char) ('0' + vh_below(r, 10));
            else if (vh_below(r, 3) == 0) tle[l][p] = " -+.09A"[vh_below(r, 7)];
        }
        put_checksum(tle[1]); put_checksum(tle[2]);
    } else if (vh_below(r, 3) == 0) for (int i = 0; i < 5; i++) tle[vh_below(r, 3)][vh_below(r, 79)] = (char) vh_next(r);
    int ext = vh_below(r, 2) == 0;
    double lat = ext ? extf(r) : vh_sym(r) * 90, lon = ext ? extf(r) : vh_sym(r) * 180, alt = ext ? extf(r) : vh_unit(r) * 3;
    if (vh_below(r, 10) == 0) lat = vh_below(r, 2) ? 90 : -90;
    if (vh_below(r, 10) == 0) lat = 429.4967295;
    uint64_t fs = ext ? ext64(r) : 1 + vh_below(r, 100000), fc = ext ? ext64(r) : 100000000 + vh_below(r, 900000000);
    int64_t off = ext ? (int64_t) ext64(r) : vh_range(r, -100000, 100000);
    time_t start = vh_below(r, 3) == 0 ? (time_t) ext64(r) : vh_below(r, 4) == 0 ? 0 : 1200000000 + (time_t) vh_below(r, 500000000);
    uint32_t max = (uint32_t) maxlen(r);
    vh_case("doppler tle=%d lat=%g lon=%g alt=%g fs=%lu fc=%lu off=%ld start=%ld max=%u [%.69s|%.69s]", k, lat, lon, alt, fs, fc, off, (long) start, max, ext ? "" : tle[1], ext ? "" : tle[2]);
    doppler *d = NULL;
    int rc = doppler_create(lat, lon, alt, fs, fc, off, start, max, tle, &d);
    CREATED(rc, d, "doppler");
    REFUSE(fs == 0, rc, "doppler", "fs=0");
    if (rc != 0) return;
    for (int i = 0; i < 5; i++) {
        int big = vh_below(r, 10) == 0;
        size_t n = big ? max + 1 + vh_below(r, 9) : len(r, max);
        if (fs < 50 && n > 50 * fs) n = 50 * fs < max ? 50 * fs : max;
        float *in = fbuf(r, n, 2); float complex *out = (void *) 1; size_t ol = 12345;
        if (i % 2) doppler_process_rx((float complex *) in, n, &out, &ol, d); else doppler_process_tx((float complex *) in, n, &out, &ol, d);
        buffers++;
        if (big && n > max) { overlong++; if (ol != 0) { vh_viol("doppler:overlong-accepted", "%zu of max %u", n, max); free(in); break; } }
        else { if (ol != 0 && ol != n) vh_viol("doppler:output-length", "%zu -> %zu", n, ol); if (ol) touch(out, ol * sizeof(float complex)); }
        free(in);
    }
    doppler_destroy(d);
}

int main(int argc, char **argv) {
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 1, 1);
    long from = vh_arg(argc, argv, 2, 0), n = vh_arg(argc, argv, 3, 100);
    static void (*const T[])(vh_rng *) = {t_fir, t_lpf, t_clock, t_quad, t_dc, t_fskd, t_gfskm, t_interp, t_fm, t_sig, t_doppler};
    for (long i = from; i < from + n; i++) {
        vh_rng r = vh_seed(seed + 77, (uint64_t) i);
        T[i % (sizeof(T) / sizeof(*T))](&r);
    }
    vh_ev("evaluations", ev);
    vh_ev("distinct", accepted);
    vh_ev("parameter_sets_refused", refused);
    vh_ev("unusable_parameter_sets_refused", mustrefuse);
    vh_ev("buffers_processed", buffers);
    vh_ev("overlong_buffers_refused", overlong);
    vh_sample("last of %ld seeded cases; %ld buffers in %ld accepted parameter sets", n, buffers, accepted);
    vh_done();
    return 0;
}
