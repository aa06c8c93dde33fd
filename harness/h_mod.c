// D03: GMSK modulator against a double-precision reference; cuts; D04: quadrature demodulator; D06: DC blocker; D07: frequency shift
#include "vh.h"
#include <errno.h>
#include "dsp/gfsk_mod.h"
#include "dsp/gaussian_taps.h"
#include "dsp/interp_fir_filter.h"
#include "dsp/frequency_modulator.h"
#include "dsp/quadrature_demod.h"
#include "math/fast_atan2f.h"
#include "dsp/dc_blocker.h"
#include "dsp/sig_source.h"

static long ev = 0, di = 0;

// ------------------------------------------------------------------ D03
// pulse = Gaussian (4 symbols, normalised) convolved with one symbol of ones
static size_t ref_pulse(float sps, double bt, double **out) {
    size_t gl = (size_t) (4 * sps), sq = (size_t) (int) sps, n = gl + sq - 1;
    double *g = calloc(gl, sizeof(double)), *p = calloc(n, sizeof(double)), scale = 0;
    double s = 2 * M_PI * bt / sqrt(log(2.0));
    for (size_t i = 0; i < gl; i++) {
        double ts = s / sps * (-0.5 * gl + 1 + i);
        g[i] = exp(-0.5 * ts * ts);
        scale += g[i];
    }
    for (size_t i = 0; i < gl; i++) for (size_t j = 0; j < sq; j++) p[i + j] += g[i] / scale;
    free(g);
    *out = p;
    return n;
}

static void mod_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    static const double S[] = {1, 2, 3, 4, 5, 8, 10, 16, 20, 25, 40, 50, 100, 120.8333, 200, 255, 2.5, 9.6};
    float sps = vh_below(&r, 3) ? (float) S[vh_below(&r, 18)] : (float) (1 + 40 * vh_unit(&r));
    double fs = 1000 + vh_unit(&r) * 1e6;
    double dev = (vh_below(&r, 2) ? 1 : -1) * (fs / sps) * (0.05 + 0.6 * vh_unit(&r));
    float sens = (float) (2 * M_PI * dev / fs);
    float bt = vh_below(&r, 2) ? 0.5f : (float) (0.2 + vh_unit(&r));
    uint32_t maxin = 1 + (uint32_t) vh_below(&r, 40);
    size_t total = vh_below(&r, 120);
    if (sps > 60 && total > 40) total = 40;
    if (id % 200 == 5) { maxin = 1000 + (uint32_t) vh_below(&r, 9000); total = maxin + vh_below(&r, 2 * maxin); if (sps > 12) sps = (float) (1 + 11 * vh_unit(&r)); sens = (float) (2 * M_PI * (vh_below(&r, 2) ? 1 : -1) * (0.05 + 0.6 * vh_unit(&r)) / sps); }
    int isps = (int) sps;
    vh_case("mod id=%lu sps=%g sens=%g bt=%g max=%u total=%zu", id, sps, sens, bt, maxin, total);
    uint8_t *data = malloc(total + 1);
    for (size_t i = 0; i < total; i++) data[i] = (uint8_t) vh_next(&r);
    if (vh_below(&r, 6) == 0) memset(data, vh_below(&r, 2) ? 0 : 0xFF, total);
    double *pulse; size_t pl = ref_pulse(sps, bt, &pulse);
    size_t nbits = total * 8, expect = nbits * isps;
    // reference phase increments
    double *inc = calloc(expect + 1, sizeof(double));
    for (size_t b = 0; b < nbits; b++) {
        double v = (data[b / 8] >> (7 - b % 8)) & 1 ? 1.0 : -1.0;
        for (size_t k = 0; k < pl && b * isps + k < expect; k++) inc[b * isps + k] += v * pulse[k];
    }
    for (int s = 0; s < 3; s++) {
        gfsk_mod *m = NULL;
        int code = gfsk_mod_create(sps, sens, bt, maxin, &m);
        if (code != 0) { vh_viol("mod:create-refused", "sps=%g code=%d", sps, code); break; }
        size_t pos = 0, produced = 0;
        double ph = 0, slack = 0;
        bool bad = false;
        while (pos < total && !bad) {
            size_t n = s == 0 ? maxin : s == 1 ? 1 + vh_below(&r, maxin) : (vh_below(&r, 3) ? 1 : vh_below(&r, maxin + 1));
            if (n > total - pos) n = total - pos;
            uint8_t *in = malloc(n + (n == 0)); memcpy(in, data + pos, n);
            float complex *out = NULL; size_t ol = 0;
            gfsk_mod_process(in, n, &out, &ol, m);
            free(in);
            if (ol != n * 8 * isps) { vh_viol("mod:length", "sps=%g %zu bytes -> %zu samples", sps, n, ol); bad = true; break; }
            for (size_t i = 0; i < ol; i++) {
                ph += (double) sens * inc[produced + i];
                double dr = crealf(out[i]) - cos(ph), dim = cimagf(out[i]) - sin(ph);
                double mag = cabs(out[i]);
                if (fabs(mag - 1) > 1e-4) { vh_viol("mod:magnitude", "sps=%g sample %zu magnitude %g", sps, produced + i, mag); bad = true; break; }
                // float phase accumulation error grows with the number of samples, at the same rate all the time
                slack += 2e-6;
                if (!(hypot(dr, dim) < 2e-3 + slack)) { vh_viol("mod:waveform", "sps=%g sens=%g bt=%g cut=%d max=%u sample %zu of %zu: got (%g,%g) want (%g,%g)", sps, sens, bt, s, maxin, produced + i, expect, crealf(out[i]), cimagf(out[i]), cos(ph), sin(ph)); bad = true; break; }
                if (slack > 0.02) { double d = carg(out[i]) - ph; ph += d - 2 * M_PI * rint(d / (2 * M_PI)); slack = 0; }
            }
            produced += ol; pos += n;
        }
        // too long a buffer: nothing comes out and the state does not change
        uint8_t *big = calloc(maxin + 1, 1);
        float complex *out = (float complex *) 1; size_t ol = 77;
        gfsk_mod_process(big, maxin + 1, &out, &ol, m);
        if (ol != 0) vh_viol("mod:overlong-accepted", "%zu", ol);
        free(big);
        gfsk_mod_destroy(m);
        ev++;
        if (total > 1 && isps > 1) di++;
    }
    if (id < 2) vh_sample("mod sps=%g sens=%g bt=%g bytes=%zu", sps, sens, bt, total);
    free(data); free(pulse); free(inc);
}

// interpolating filter and its parts on their own
static void interp_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed + 5, id);
    int L = 1 + (int) vh_below(&r, vh_below(&r, 3) ? 12 : 255);
    size_t tl = 1 + vh_below(&r, 90), total = vh_below(&r, 200);
    uint32_t maxin = 1 + (uint32_t) vh_below(&r, 60);
    if (id % 200 == 6) { maxin = 500 + (uint32_t) vh_below(&r, 70000 / L); total = maxin + vh_below(&r, 2 * maxin); }
    if (id % 200 == 7) tl = 90 + vh_below(&r, 4000);
    vh_case("interp id=%lu L=%d taps=%zu total=%zu max=%u", id, L, tl, total, maxin);
    float *taps = malloc(sizeof(float) * tl), *ref = malloc(sizeof(float) * tl);
    for (size_t i = 0; i < tl; i++) ref[i] = taps[i] = (float) vh_sym(&r);
    float *x = malloc(sizeof(float) * (total + 1));
    for (size_t i = 0; i < total; i++) x[i] = (float) vh_sym(&r);
    interp_fir_filter *f = NULL;
    if (interp_fir_filter_create(taps, tl, (uint8_t) L, maxin, &f) != 0) { vh_viol("interp:create-refused", "L=%d", L); return; }
    size_t pos = 0, produced = 0; bool bad = false;
    while (pos < total && !bad) {
        size_t n = 1 + vh_below(&r, maxin); if (n > total - pos) n = total - pos;
        float *in = malloc(sizeof(float) * n); memcpy(in, x + pos, sizeof(float) * n);
        float *out = NULL; size_t ol = 0;
        interp_fir_filter_process(in, n, &out, &ol, f);
        free(in);
        if (ol != n * L) { vh_viol("interp:length", "L=%d in %zu out %zu", L, n, ol); bad = true; }
        for (size_t i = 0; i < ol && !bad; i++) {
            size_t k = produced + i; double acc = 0;
            for (size_t j = k % L; j < tl && (j - k % L) / L <= k / L; j += L) acc += (double) ref[j] * x[k / L - (j - k % L) / L];
            if (!(fabs(acc - out[i]) < 1e-4 * (1 + tl / 300.0))) { vh_viol("interp:wrong-output", "L=%d taps=%zu out %zu: %g want %g", L, tl, k, out[i], acc); bad = true; }
        }
        pos += n; produced += ol;
    }
    interp_fir_filter_destroy(f); free(x); free(ref);
    ev++; di++;
}
static void fm_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed + 6, id);
    float sens = (float) (vh_sym(&r) * 3);
    uint32_t maxin = 1 + (uint32_t) vh_below(&r, 300);
    size_t total = 100 + vh_below(&r, 3000);
    if (id % 100 == 8) { maxin = 40000 + (uint32_t) vh_below(&r, 100000); total = maxin + vh_below(&r, maxin); }
    vh_case("fm id=%lu sens=%g", id, sens);
    frequency_modulator *m = NULL;
    if (frequency_modulator_create(sens, maxin, &m) != 0) { vh_viol("fm:create-refused", "sens=%g", sens); return; }
    size_t pos = 0; double ph = 0, slack = 0; bool bad = false;
    float bias = (float) vh_sym(&r);
    while (pos < total && !bad) {
        size_t n = 1 + vh_below(&r, maxin); if (n > total - pos) n = total - pos;
        float *in = malloc(sizeof(float) * n);
        for (size_t i = 0; i < n; i++) in[i] = (float) (0.5 * vh_sym(&r) + 0.5 * bias);
        float complex *out = NULL; size_t ol = 0;
        frequency_modulator_process(in, n, &out, &ol, m);
        if (ol != n) { vh_viol("fm:length", "%zu", ol); bad = true; }
        for (size_t i = 0; i < ol && !bad; i++) {
            ph += (double) sens * in[i];
            slack += 1e-6;
            if (!(hypot(crealf(out[i]) - cos(ph), cimagf(out[i]) - sin(ph)) < 2e-3 + slack)) { vh_viol("fm:waveform", "sens=%g sample %zu", sens, pos + i); bad = true; }
            if (slack > 0.02) { double d = carg(out[i]) - ph; ph += d - 2 * M_PI * rint(d / (2 * M_PI)); slack = 0; }
        }
        free(in);
        pos += n;
    }
    float *big = calloc(maxin + 1, sizeof(float)); float complex *out = (void *) 1; size_t ol = 5;
    frequency_modulator_process(big, maxin + 1, &out, &ol, m);
    if (ol != 0) vh_viol("fm:overlong-accepted", "%zu", ol);
    free(big);
    frequency_modulator_destroy(m);
    ev++; di++;
}

// ------------------------------------------------------------------ D04
static double wrap(double a) { while (a > M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }
static void qd_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    float gain = (float) (vh_below(&r, 3) ? vh_sym(&r) * 10 : 1);
    if (gain == 0) gain = 1;
    uint32_t maxin = 1 + (uint32_t) vh_below(&r, 200);
    size_t total = 20 + vh_below(&r, 800);
    if (id % 200 == 9) { maxin = 30000 + (uint32_t) vh_below(&r, 100000); total = maxin + vh_below(&r, 2 * maxin); }
    float complex *x = malloc(sizeof(float complex) * total);
    double ph = 0;
    int kind = (int) vh_below(&r, 4);
    double amp = pow(10, vh_sym(&r) * 8);
    for (size_t i = 0; i < total; i++) {
        if (kind == 0) ph = vh_sym(&r) * M_PI;
        else if (kind == 1) ph += vh_sym(&r) * 0.02;
        else if (kind == 2) ph += (vh_range(&r, -4, 4)) * M_PI / 4;
        else ph += vh_sym(&r) * M_PI;
        double a = vh_below(&r, 3) ? amp : amp * (0.1 + vh_unit(&r));
        x[i] = (float) (a * cos(ph)) + (float) (a * sin(ph)) * I;
        if (kind == 2) { float re = crealf(x[i]), im = cimagf(x[i]); if (fabs(re) < amp * 1e-6) re = 0; if (fabs(im) < amp * 1e-6) im = 0; x[i] = re + im * I; }
    }
    vh_case("qd id=%lu kind=%d gain=%g amp=%g max=%u total=%zu", id, kind, gain, amp, maxin, total);
    for (int s = 0; s < 2; s++) {
        quadrature_demod *q = NULL;
        if (quadrature_demod_create(gain, maxin, &q) != 0) { vh_viol("qd:create-refused", ""); break; }
        size_t pos = 0; bool bad = false;
        while (pos < total && !bad) {
            size_t n = s == 0 ? maxin : 1 + vh_below(&r, maxin); if (n > total - pos) n = total - pos;
            float complex *in = malloc(sizeof(float complex) * n); memcpy(in, x + pos, sizeof(float complex) * n);
            float *out = NULL; size_t ol = 0;
            quadrature_demod_process(in, n, &out, &ol, q);
            free(in);
            if (ol != n) { vh_viol("qd:length", "%zu for %zu", ol, n); bad = true; }
            for (size_t i = 0; i < ol && !bad; i++) {
                size_t k = pos + i;
                double want = 0;
                if (k > 0) {
                    double ar = crealf(x[k]), ai = cimagf(x[k]), br = crealf(x[k - 1]), bi = cimagf(x[k - 1]);
                    want = atan2(ai * br - ar * bi, ar * br + ai * bi);
                }
                double d = fabs(wrap(out[i] / gain - want));
                if (!(d < 1.2e-4)) { vh_viol("qd:phase", "sample %zu: %g want %g (kind %d amp %g)", k, out[i] / gain, want, kind, amp); bad = true; }
                if (!(fabs(out[i] / gain) < M_PI + 1e-3)) { vh_viol("qd:range", "%g", out[i] / gain); bad = true; }
            }
            pos += n;
        }
        float complex *big = calloc(maxin + 1, sizeof(float complex)); float *out = (void *) 1; size_t ol = 5;
        quadrature_demod_process(big, maxin + 1, &out, &ol, q);
        if (ol != 0) vh_viol("qd:overlong-accepted", "%zu", ol);
        free(big);
        quadrature_demod_destroy(q);
        ev++; di++;
    }
    free(x);
    if (id < 2) vh_sample("qd kind=%d gain=%g amp=%g", kind, gain, amp);
}
static void atan_sweep(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed + 11, id);
    vh_case("atan sweep %lu", id);
    double worst = 0;
    for (int i = 0; i < 4000; i++) {
        float y, x;
        int k = (int) vh_below(&r, 6);
        double a = vh_sym(&r) * M_PI, m = pow(10, vh_sym(&r) * 15);
        if (k == 0) { a = vh_range(&r, -8, 8) * M_PI / 8; }
        if (k == 1) { a = vh_range(&r, -4, 4) * M_PI / 4 + vh_sym(&r) * 0.01; }
        y = (float) (m * sin(a)); x = (float) (m * cos(a));
        if (k == 2) { int z = (int) vh_below(&r, 256); x = 255; y = (float) z + (float) (vh_sym(&r) * 1e-3); if (vh_below(&r, 2)) { float t = x; x = y; y = t; } if (vh_below(&r, 2)) x = -x; if (vh_below(&r, 2)) y = -y; }
        if (k == 3) { if (vh_below(&r, 2)) y = 0; else x = 0; }
        if (k == 4 && vh_below(&r, 2)) { y = fabsf(x) * (vh_below(&r, 2) ? 1 : -1); }
        double want = atan2(y, x), got = fast_atan2f(y, x);
        if (x == 0 && y == 0) want = 0;
        double d = fabs(wrap(got - want));
        if (d > worst) worst = d;
        if (y == 0 && !signbit(y) && x < 0 && got < 0) { vh_viol("atan:sign", "atan2(+0,%g) = %g want +pi", x, got); break; }
        if (!(d < 1e-4)) { vh_viol("atan:error", "atan2(%g,%g) = %g want %g", y, x, got, want); break; }
        ev++;
    }
    di += 1;
    (void) worst;
}

// ------------------------------------------------------------------ D06
static void dc_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    int L = vh_below(&r, 4) == 0 ? 2 + (int) vh_below(&r, 3) : 2 + (int) vh_below(&r, 400);
    size_t total = vh_below(&r, 20) == 0 ? 60000 : 50 + vh_below(&r, 3000);
    if (id % 500 == 3) total = 65536 + vh_below(&r, 200000);
    if (id % 500 == 4) { L = 400 + (int) vh_below(&r, 3000); total = 20000; }
    int kind = (int) vh_below(&r, 4);
    double dcv = vh_sym(&r) * 3;
    double scale = vh_below(&r, 2) ? 1 : pow(10, vh_sym(&r) * 12);   // the response is linear: also faint and strong signals
    float *x = malloc(sizeof(float) * total);
    for (size_t i = 0; i < total; i++) {
        double v = kind == 0 ? dcv : kind == 1 ? vh_sym(&r) : kind == 2 ? dcv + sin(i * 0.3) : (i == 5 ? 1.0 : 0);
        x[i] = (float) (v * scale);
    }
    // reference: four cascaded averages and a delay of (L-1)*... as implemented by the structure: y = x[n - (2L-2)] - ma^4(x)[n]
    double *y = malloc(sizeof(double) * total), *t = malloc(sizeof(double) * total);
    for (size_t i = 0; i < total; i++) t[i] = x[i];
    for (int st = 0; st < 4; st++) {
        double acc = 0;
        double *u = malloc(sizeof(double) * total);
        for (size_t i = 0; i < total; i++) { acc += t[i]; if (i >= (size_t) L) acc -= t[i - L]; u[i] = acc / L; }
        memcpy(t, u, sizeof(double) * total); free(u);
    }
    size_t delay = 2 * (size_t) (L - 1);
    for (size_t i = 0; i < total; i++) y[i] = (i >= delay ? x[i - delay] : 0) - t[i];
    vh_case("dc id=%lu L=%d kind=%d scale=%g total=%zu", id, L, kind, scale, total);
    for (int s = 0; s < 2; s++) {
        dc_blocker *b = NULL;
        if (dc_blocker_create(L, &b) != 0) { vh_viol("dc:create-refused", "L=%d", L); break; }
        size_t pos = 0; bool bad = false;
        while (pos < total && !bad) {
            size_t n = s == 0 ? total : 1 + vh_below(&r, 97); if (n > total - pos) n = total - pos;
            float *in = malloc(sizeof(float) * n); memcpy(in, x + pos, sizeof(float) * n);
            float *out = NULL; size_t ol = 0;
            dc_blocker_process(in, n, &out, &ol, b);
            if (ol != n) { vh_viol("dc:length", "%zu", ol); bad = true; }
            for (size_t i = 0; i < ol && !bad; i++) {
                if (!(fabs(out[i] - y[pos + i]) < scale * (2e-3 + 1e-7 * total))) { vh_viol("dc:response", "L=%d kind=%d scale=%g cut=%d sample %zu: %g want %g", L, kind, scale, s, pos + i, out[i], y[pos + i]); bad = true; }
                if (kind == 0 && pos + i > 4 * (size_t) L + 4 && fabs(out[i]) > 3e-3 * scale) { vh_viol("dc:constant-passes", "L=%d sample %zu: %g", L, pos + i, out[i]); bad = true; }
            }
            free(in);
            pos += n;
        }
        dc_blocker_destroy(b);
        ev++; di++;
    }
    free(x); free(y); free(t);
    if (id < 2) vh_sample("dc L=%d kind=%d total=%zu", L, kind, total);
}

// ------------------------------------------------------------------ D07
static void sig_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    uint64_t fs = vh_below(&r, 3) ? 1000 + vh_below(&r, 5000000) : 4 + vh_below(&r, 100);
    float amp = vh_below(&r, 2) ? 1.0f : (float) (0.1 + vh_unit(&r));
    uint32_t maxin = 1 + (uint32_t) vh_below(&r, 500);
    int changes = vh_below(&r, 3) == 0;
    size_t total = 500 + vh_below(&r, 3000);
    if (vh_below(&r, 25) == 0) total = 200000;
    if (id % 400 == 8) { maxin = 40000 + (uint32_t) vh_below(&r, 100000); total = 2 * maxin; }
    if (id % 3000 == 7) { total = 12000000; maxin = 4000; }   // minutes of a fast stream
    int64_t freq = vh_range(&r, -(int64_t) fs, (int64_t) fs);
    if (vh_below(&r, 6) == 0) freq = (int64_t) (vh_below(&r, 2) ? 1 : -1) * (int64_t) (fs / (1 + vh_below(&r, 4)));
    if (vh_below(&r, 10) == 0) freq *= 1 + (int64_t) vh_below(&r, 9);
    int64_t freq0 = freq;
    float complex *x = malloc(sizeof(float complex) * maxin);
    vh_case("sig id=%lu fs=%lu freq=%ld amp=%g max=%u total=%zu changes=%d", id, fs, freq, amp, maxin, total, changes);
    sig_source *s = NULL;
    if (sig_source_create(amp, fs, maxin, &s) != 0) { vh_viol("sig:create-refused", ""); free(x); return; }
    double ph = 0, slack = 0; size_t pos = 0; bool bad = false;
    while (pos < total && !bad) {
        size_t n = vh_below(&r, 10) == 0 ? 0 : 1 + vh_below(&r, maxin);
        int multiply = vh_below(&r, 3) != 0;
        float complex *in = malloc(sizeof(float complex) * (n + 1));
        for (size_t i = 0; i < n; i++) in[i] = (float) vh_sym(&r) + (float) vh_sym(&r) * I;
        float complex *out = NULL; size_t ol = 0;
        if (multiply) sig_source_multiply(freq, in, n, &out, &ol, s);
        else sig_source_process(freq, n, &out, &ol, s);
        if (ol != n) { vh_viol("sig:length", "%zu for %zu", ol, n); bad = true; }
        double step = 2 * M_PI * (double) freq / (double) fs;
        for (size_t i = 0; i < ol && !bad; i++) {
            double cr = amp * cos(ph), ci = amp * sin(ph), wr = cr, wi = ci;
            if (multiply) { wr = crealf(in[i]) * cr - cimagf(in[i]) * ci; wi = crealf(in[i]) * ci + cimagf(in[i]) * cr; }
            // float phase: step rounding (1e-7 relative) plus accumulation rounding (ulp of 2*pi) per sample
            slack += fabs(step) * 1.3e-7 + 4e-7;
            if (!(hypot(crealf(out[i]) - wr, cimagf(out[i]) - wi) < amp * (1e-3 + 1.5 * slack) )) { vh_viol("sig:waveform", "fs=%lu freq=%ld amp=%g sample %zu: (%g,%g) want (%g,%g)", fs, freq, amp, pos + i, crealf(out[i]), cimagf(out[i]), wr, wi); bad = true; }
            ph = fmod(ph + step, 2 * M_PI);
            // the allowed error of the rate is the same after millions of samples: measure it anew in every window
            if (slack > 0.05 && !bad) {
                double w = multiply ? hypot(crealf(in[i]), cimagf(in[i])) : 1;
                if (w > 0.05) {
                    float complex u = multiply ? out[i] / in[i] : out[i];
                    double d = carg(u) - (ph - step);
                    ph += d - 2 * M_PI * rint(d / (2 * M_PI)); slack = 0.001;
                }
            }
        }
        free(in);
        pos += n + (n == 0);
        if (changes && vh_below(&r, 4) == 0) freq = vh_range(&r, -(int64_t) fs, (int64_t) fs);
    }
    float complex *big = calloc(maxin + 1, sizeof(float complex)), *out = (void *) 1; size_t ol = 5;
    sig_source_multiply(freq, big, maxin + 1, &out, &ol, s);
    if (ol != 0) vh_viol("sig:overlong-accepted", "%zu", ol);
    free(big);
    sig_source_destroy(s); free(x);
    ev++; if (freq0 != 0) di++;
    if (id < 2) vh_sample("sig fs=%lu freq=%ld total=%zu", fs, freq0, total);
}

int main(int argc, char **argv) {
    const char *mode = argv[1];
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 2, 1);
    long from = vh_arg(argc, argv, 3, 0), n = vh_arg(argc, argv, 4, 100);
    for (long i = from; i < from + n; i++) {
        if (!strcmp(mode, "mod")) { mod_case(seed, i); interp_case(seed, i); fm_case(seed, i); }
        if (!strcmp(mode, "qd")) { qd_case(seed, i); if (i % 4 == 0) atan_sweep(seed, i); }
        if (!strcmp(mode, "dc")) dc_case(seed, i);
        if (!strcmp(mode, "sig")) sig_case(seed, i);
    }
    vh_ev("evaluations", ev);
    vh_ev("distinct", di);
    vh_done();
    return 0;
}
