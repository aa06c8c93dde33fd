// D01: decimating FIR filter against the definition (double precision), for random cuts and alignments.
// D02: low-pass design.
#include "vh.h"
#include <errno.h>
#include "dsp/fir_filter.h"
#include "dsp/lpf.h"
#include "dsp/lpf_taps.h"

static void cut_run(vh_rng *r, size_t total, size_t maxin, int style, size_t *out) {
    // next chunk length
    size_t n;
    switch (style) {
        case 0: n = maxin; break;
        case 1: n = 1; break;
        case 2: n = 1 + vh_below(r, maxin); break;
        case 3: n = vh_below(r, 4) == 0 ? maxin : 1 + vh_below(r, 3); break;
        default: n = vh_below(r, 5) == 0 ? 0 : 1 + vh_below(r, maxin < 9 ? maxin : 9); break;
    }
    if (n > maxin) n = maxin;
    if (n > total) n = total;
    *out = n;
}

typedef struct { int cplx, dec; size_t taps_len, maxin, total; } cfg;

static void fir_case(uint64_t seed, uint64_t id, long *evals, long *distinct) {
    vh_rng r = vh_seed(seed, id);
    cfg c;
    c.cplx = vh_below(&r, 2);
    static const int decs[] = {1, 2, 3, 4, 5, 7, 8, 16, 25, 64, 128, 255};
    c.dec = vh_below(&r, 3) ? decs[vh_below(&r, 12)] : 1 + (int) vh_below(&r, 255);
    if (vh_below(&r, 2)) c.dec = 1 + (int) vh_below(&r, 8);
    static const size_t tl[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 65, 121};
    c.taps_len = vh_below(&r, 2) ? tl[vh_below(&r, 15)] : 1 + vh_below(&r, 150);
    static const size_t ml[] = {1, 2, 3, 4, 5, 8, 16, 31, 64, 100, 255, 256, 512, 1000};
    c.maxin = vh_below(&r, 2) ? ml[vh_below(&r, 14)] : 1 + vh_below(&r, 700);
    c.total = vh_below(&r, 1200);
    // sizes beyond 16 bits and beyond any fixed-size buffer
    if (id % 1000 == 5) { c.maxin = 30000 + vh_below(&r, 120000); c.total = c.maxin + vh_below(&r, 2 * c.maxin); if (c.taps_len > 40) c.taps_len = 1 + vh_below(&r, 40); }
    if (id % 1000 == 6) { c.taps_len = 150 + vh_below(&r, vh_below(&r, 2) ? 6000 : 1000); c.total = vh_below(&r, 3000); }
    int styles = 4;
    int align = (int[]) {0, 16, 32, 64}[vh_below(&r, 4)];
    if (align) { char b[16]; snprintf(b, 16, "%d", align); setenv("VOLK_ALIGNMENT", b, 1); } else unsetenv("VOLK_ALIGNMENT");
    size_t w = c.cplx ? 2 : 1;
    float *taps_ref = malloc(sizeof(float) * c.taps_len);
    for (size_t i = 0; i < c.taps_len; i++) taps_ref[i] = (float) vh_sym(&r);
    float *x = malloc(sizeof(float) * w * (c.total + 1));
    for (size_t i = 0; i < c.total * w; i++) x[i] = (float) vh_sym(&r);
    size_t expect = (c.total + c.dec - 1) / c.dec;
    double *ref = malloc(sizeof(double) * w * (expect + 1));
    for (size_t k = 0; k < expect; k++) {
        for (size_t q = 0; q < w; q++) {
            double acc = 0;
            for (size_t j = 0; j < c.taps_len && j <= k * c.dec; j++) acc += (double) taps_ref[j] * x[(k * c.dec - j) * w + q];
            ref[k * w + q] = acc;
        }
    }
    for (int s = 0; s < styles; s++) {
        int style = s == 0 ? 0 : s == 1 ? 2 : s == 2 ? 3 : (int) (vh_below(&r, 2) ? 1 : 4);
        vh_case("fir id=%lu cplx=%d dec=%d taps=%zu max=%zu total=%zu style=%d align=%d", id, c.cplx, c.dec, c.taps_len, c.maxin, c.total, style, align);
        float *taps = malloc(sizeof(float) * c.taps_len);
        memcpy(taps, taps_ref, sizeof(float) * c.taps_len);
        fir_filter *f = NULL;
        errno = 0;
        int code = fir_filter_create((uint8_t) c.dec, taps, c.taps_len, c.maxin, w * sizeof(float), &f);
        if (code != 0) { vh_viol("fir:create-refused", "code %d dec=%d taps=%zu", code, c.dec, c.taps_len); continue; }
        size_t pos = 0, produced = 0;
        bool bad = false;
        int guard = 0;
        while (pos < c.total && guard++ < 10000000) {
            size_t n;
            cut_run(&r, c.total - pos, c.maxin, style, &n);
            // the input lives in a buffer of exactly its size, so that an over-read is seen
            float *in = malloc(sizeof(float) * w * n + (n == 0));
            memcpy(in, x + pos * w, sizeof(float) * w * n);
            float *out = NULL; size_t out_len = 0;
            fir_filter_process(in, n, (void **) &out, &out_len, f);
            if (produced + out_len > expect) { vh_viol("fir:too-much-output", "dec=%d taps=%zu cut=%d: %zu > %zu", c.dec, c.taps_len, style, produced + out_len, expect); bad = true; free(in); break; }
            for (size_t i = 0; i < out_len * w && !bad; i++) {
                double e = fabs((double) out[i] - ref[produced * w + i]);
                if (!(e < 2e-4 * (c.taps_len > 500 ? c.taps_len / 500.0 : 1))) { vh_viol("fir:wrong-output", "dec=%d taps=%zu cplx=%d max=%zu style=%d output %zu: got %g want %g", c.dec, c.taps_len, c.cplx, c.maxin, style, produced + i / w, out[i], ref[produced * w + i]); bad = true; }
            }
            produced += out_len;
            pos += n;
            free(in);
            if (bad) break;
        }
        // after `total` inputs exactly the outputs at multiples of the decimation must have come out
        if (!bad && produced != expect) vh_viol("fir:missing-output", "dec=%d taps=%zu max=%zu total=%zu style=%d: %zu of %zu outputs", c.dec, c.taps_len, c.maxin, c.total, style, produced, expect);
        // an over-long buffer gives nothing and does no harm
        float *big = calloc(w * (c.maxin + 1), sizeof(float));
        float *out = (float *) 1; size_t out_len = 77;
        fir_filter_process(big, c.maxin + 1, (void **) &out, &out_len, f);
        if (out_len != 0) vh_viol("fir:overlong-accepted", "len %zu", out_len);
        free(big);
        fir_filter_destroy(f);
        (*evals)++;
        if (expect > 1 && c.taps_len > 1) (*distinct)++;
    }
    if (id < 2) vh_sample("fir cplx=%d dec=%d taps=%zu max=%zu total=%zu", c.cplx, c.dec, c.taps_len, c.maxin, c.total);
    free(taps_ref); free(x); free(ref);
}

// the low-pass block = its designed taps applied by the decimating filter
static void lpf_case(uint64_t seed, uint64_t id, long *evals, long *distinct) {
    vh_rng r = vh_seed(seed + 77, id);
    unsetenv("VOLK_ALIGNMENT");
    uint64_t fs = 1000 + vh_below(&r, 200000);
    uint64_t cut = 1 + vh_below(&r, fs / 2);
    uint32_t tw = (uint32_t) (fs / 60 + 1 + vh_below(&r, fs));
    int dec = 1 + (int) vh_below(&r, 6);
    size_t maxin = 1 + vh_below(&r, 300), total = vh_below(&r, 900);
    int cplx = vh_below(&r, 2);
    size_t w = cplx ? 2 : 1;
    vh_case("lpf id=%lu fs=%lu cut=%lu tw=%u dec=%d", id, fs, cut, tw, dec);
    float *taps = NULL; size_t tl = 0;
    if (create_low_pass_filter(1.0f, fs, cut, tw, &taps, &tl) != 0) { vh_viol("lpf:design-refused", "fs=%lu cut=%lu tw=%u", fs, cut, tw); return; }
    lpf *f = NULL;
    if (lpf_create((uint8_t) dec, fs, cut, tw, maxin, w * sizeof(float), &f) != 0) { vh_viol("lpf:create-refused", "fs=%lu cut=%lu tw=%u", fs, cut, tw); free(taps); return; }
    float *x = malloc(sizeof(float) * w * (total + 1));
    for (size_t i = 0; i < total * w; i++) x[i] = (float) vh_sym(&r);
    size_t pos = 0, produced = 0;
    bool bad = false;
    while (pos < total && !bad) {
        size_t n = 1 + vh_below(&r, maxin); if (n > total - pos) n = total - pos;
        float *out = NULL; size_t ol = 0;
        lpf_process(x + pos * w, n, (void **) &out, &ol, f);
        for (size_t i = 0; i < ol && !bad; i++) for (size_t q = 0; q < w && !bad; q++) {
            double acc = 0; size_t k = produced + i;
            for (size_t j = 0; j < tl && j <= k * dec; j++) acc += (double) taps[j] * x[(k * dec - j) * w + q];
            if (!(fabs(acc - out[i * w + q]) < 1e-4)) { vh_viol("lpf:wrong-output", "fs=%lu cut=%lu tw=%u dec=%d out %zu: %g want %g", fs, cut, tw, dec, k, out[i * w + q], acc); bad = true; }
        }
        produced += ol; pos += n;
    }
    if (!bad && produced != (total + dec - 1) / dec) vh_viol("lpf:missing-output", "%zu", produced);
    lpf_destroy(f); free(x); free(taps);
    (*evals)++; (*distinct)++;
}

static double response(const float *t, size_t n, double w) {
    double re = 0, im = 0;
    for (size_t i = 0; i < n; i++) { re += t[i] * cos(w * i); im -= t[i] * sin(w * i); }
    return sqrt(re * re + im * im);
}

static void taps_case(uint64_t seed, uint64_t id, long *evals, long *distinct) {
    vh_rng r = vh_seed(seed + 1234, id);
    float gain = vh_below(&r, 3) ? 1.0f : (float) (0.1 + vh_unit(&r) * 9);
    uint64_t fs = vh_below(&r, 4) ? 8000 + vh_below(&r, 3000000) : 2 + vh_below(&r, 1000);
    uint64_t cut = 1 + vh_below(&r, fs / 2);
    double twd = fs * (0.004 + 0.3 * vh_unit(&r) * vh_unit(&r));
    uint32_t tw = twd < 1 ? 1 : (uint32_t) twd;
    if (vh_below(&r, 12) == 0) tw = (uint32_t) (fs * (0.7 + 3 * vh_unit(&r)));   // as few as one or three taps
    if (vh_below(&r, 6) == 0) {   // rates which don't fit 32 bits, the cut-off as well
        fs = (uint64_t) pow(2, 28 + 13 * vh_unit(&r));
        cut = vh_below(&r, 2) ? 1 + (uint64_t) (vh_unit(&r) * (fs / 2 - 1)) : fs / 2 - vh_below(&r, 1000);
        twd = fs * (0.004 + 0.3 * vh_unit(&r) * vh_unit(&r));
        tw = twd > UINT32_MAX ? UINT32_MAX - (uint32_t) vh_below(&r, 1000) : (uint32_t) twd;
    }
    if (id % 1500 == 9) { fs = 1000000 + vh_below(&r, 1000000); cut = 1 + vh_below(&r, fs / 2); tw = 30 + (uint32_t) vh_below(&r, 200); }   // very long filters
    vh_case("taps id=%lu gain=%g fs=%lu cut=%lu tw=%u", id, gain, fs, cut, tw);
    float *t = NULL; size_t n = 0;
    int code = create_low_pass_filter(gain, fs, cut, tw, &t, &n);
    (*evals)++;
    if (code != 0) { vh_viol("taps:valid-refused", "fs=%lu cut=%lu tw=%u", fs, cut, tw); return; }
    if (n % 2 == 0) vh_viol("taps:even", "n=%zu", n);
    size_t want = (size_t) (53.0 * (double) fs / (22.0 * (double) tw)); if (want % 2 == 0) want++;
    if (n > want + 2 || n + 2 < want) vh_viol("taps:length", "n=%zu want %zu (fs=%lu tw=%u)", n, want, fs, tw);
    double sum = 0, mx = 0;
    for (size_t i = 0; i < n; i++) {
        sum += t[i];
        if (!isfinite(t[i])) { vh_viol("taps:nonfinite", "fs=%lu cut=%lu tw=%u", fs, cut, tw); free(t); return; }
        if (fabs(t[i]) > mx) mx = fabs(t[i]);
    }
    for (size_t i = 0; i < n / 2; i++) if (fabs(t[i] - t[n - 1 - i]) > 1e-6 * mx + 1e-9) { vh_viol("taps:asymmetric", "i=%zu", i); break; }
    if (fabs(sum - gain) > 1e-3 * gain) vh_viol("taps:dc-gain", "sum %g want %g fs=%lu cut=%lu tw=%u", sum, gain, fs, cut, tw);
    // selectivity, where the design has room on both sides of the cut-off
    double nominal = 1.0; // Hamming main-lobe half width is 3.3/N*fs/2.. ; use one full transition width on each side
    if (n >= 21) {
        double eff = 53.0 / 22.0 * fs / (double) n;    // transition width really achieved
        double lo = (double) cut - nominal * eff, hi = (double) cut + nominal * eff;
        if (lo > eff && n < 3000) {
            for (int k = 0; k <= 8; k++) {
                double g = response(t, n, 2 * M_PI * (lo * k / 8) / fs) / gain;
                if (fabs(g - 1) > 0.02) { vh_viol("taps:passband", "f=%g gain %g (fs=%lu cut=%lu tw=%u)", lo * k / 8, g, fs, cut, tw); break; }
            }
            if (hi < fs / 2.0) {
                double g = response(t, n, 2 * M_PI * cut / fs) / gain;
                if (fabs(g - 0.5) > 0.03) vh_viol("taps:cutoff", "gain at cut-off %g (fs=%lu cut=%lu tw=%u)", g, fs, cut, tw);
            }
        }
        if (hi < fs / 2.0 && lo > eff && n < 3000) {
            for (int k = 0; k <= 16; k++) {
                double f = hi + (fs / 2.0 - hi) * k / 16;
                double g = response(t, n, 2 * M_PI * f / fs) / gain;
                if (g > 0.008) { vh_viol("taps:stopband", "f=%g gain %g (fs=%lu cut=%lu tw=%u n=%zu)", f, g, fs, cut, tw, n); break; }
            }
            (*distinct)++;
        }
    }
    // exact design: windowed ideal low-pass, computed in double precision
    {
        int M = ((int) n - 1) / 2;
        double w0 = 2 * M_PI * (double) cut / (double) fs, s = 0;
        double *d = malloc(sizeof(double) * n);
        if (n > 1) {
            for (int i = -M; i <= M; i++) {
                double win = 0.54 - 0.46 * cos(2 * M_PI * (i + M) / (n - 1));
                d[i + M] = (i == 0 ? w0 / M_PI : sin(i * w0) / (i * M_PI)) * win;
                s += d[i + M];
            }
            for (size_t i = 0; i < n; i++) if (fabs(d[i] / s * gain - t[i]) > 2e-4 * mx + 1e-7) { vh_viol("taps:not-the-design", "tap %zu of %zu: %g want %g (fs=%lu cut=%lu tw=%u)", i, n, t[i], d[i] / s * gain, fs, cut, tw); break; }
        }
        free(d);
    }
    if (id < 2) vh_sample("taps fs=%lu cut=%lu tw=%u -> n=%zu", fs, cut, tw, n);
    free(t);
}

static void taps_reject(uint64_t seed, uint64_t id, long *evals) {
    vh_rng r = vh_seed(seed + 999, id);
    uint64_t fs = vh_below(&r, 4) == 0 ? 0 : 1000 + vh_below(&r, 100000);
    uint64_t cut = 1 + vh_below(&r, fs / 2 + 1); uint32_t tw = 1 + (uint32_t) vh_below(&r, 1000) + fs / 100;
    int what = (int) vh_below(&r, 4);
    if (what == 3 && vh_below(&r, 4) == 0) { fs = (uint64_t) pow(2, 32 + 8 * vh_unit(&r)); tw = (uint32_t) (fs / 10000 + 1); }
    if (what == 0) fs = 0;
    if (what == 1) cut = 0;
    if (what == 2) tw = 0;
    if (what == 3) cut = fs / 2 + 1 + vh_below(&r, 3) * vh_below(&r, UINT32_MAX);
    if (what == 3 && (double) cut <= (double) fs / 2) return;
    vh_case("reject what=%d fs=%lu cut=%lu tw=%u", what, fs, cut, tw);
    float *t = NULL; size_t n = 0;
    int code = create_low_pass_filter(1.0f, fs, cut, tw, &t, &n);
    (*evals)++;
    if (code == 0) { vh_viol("taps:invalid-accepted", "fs=%lu cut=%lu tw=%u n=%zu", fs, cut, tw, n); free(t); }
    lpf *f = NULL;
    code = lpf_create(1, fs, cut, tw, 16, sizeof(float), &f);
    if (code == 0) { vh_viol("lpf:invalid-accepted", "fs=%lu cut=%lu tw=%u", fs, cut, tw); lpf_destroy(f); }
}

int main(int argc, char **argv) {
    const char *mode = argv[1];
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 2, 1);
    long from = vh_arg(argc, argv, 3, 0), n = vh_arg(argc, argv, 4, 100);
    long ev = 0, di = 0;
    for (long i = from; i < from + n; i++) {
        if (!strcmp(mode, "fir")) { fir_case(seed, i, &ev, &di); if (i % 3 == 0) lpf_case(seed, i, &ev, &di); }
        else if (!strcmp(mode, "taps")) { taps_case(seed, i, &ev, &di); if (i % 4 == 0) taps_reject(seed, i, &ev); }
    }
    vh_ev("evaluations", ev);
    vh_ev("distinct", di);
    vh_done();
    return 0;
}
