// D05: symbol timing recovery: buffering independence, tracking, recovery after non-finite samples
#include "vh.h"
#include "dsp/clock_recovery_mm.h"

static long ev = 0, di = 0, syms_checked = 0, outs = 0;

typedef struct { float omega, go, mu, gm, lim; } par;

// feeds x in pieces (style of cutting given by `style`), returns concatenated output
static float *feed(const float *x, size_t n, size_t maxin, par p, int style, vh_rng *r, size_t *on, int *bad) {
    clock_mm *c = NULL;
    *bad = 0; *on = 0;
    if (clock_mm_create(p.omega, p.go, p.mu, p.gm, p.lim, maxin, &c) != 0) { *bad = 1; return NULL; }
    float *out = malloc(sizeof(float) * (n + 16)); size_t o = 0, pos = 0;
    while (pos < n) {
        size_t k = style == 0 ? maxin : style == 1 ? 1 + vh_below(r, maxin) : style == 2 ? 1 : (vh_below(r, 4) ? vh_below(r, maxin < 12 ? maxin + 1 : 12) : 1 + vh_below(r, maxin));
        if (k > n - pos) k = n - pos;
        float *in = malloc(sizeof(float) * (k + (k == 0))); memcpy(in, x + pos, sizeof(float) * k);
        float *y = NULL; size_t yl = 0;
        clock_mm_process(in, k, &y, &yl, c);
        free(in);
        if (yl > k) { vh_viol("clock:more-than-input", "%zu samples in, %zu symbols out (omega=%g)", k, yl, p.omega); *bad = 2; break; }
        if (o + yl > n) { vh_viol("clock:more-than-input", "total %zu for %zu", o + yl, n); *bad = 2; break; }
        if (yl) memcpy(out + o, y, sizeof(float) * yl);
        o += yl; pos += k;
    }
    // over-long buffer: no output
    if (!*bad) {
        float *big = calloc(maxin + 1, sizeof(float)), *y = (void *) 1; size_t yl = 9;
        clock_mm_process(big, maxin + 1, &y, &yl, c);
        if (yl != 0) vh_viol("clock:overlong-accepted", "%zu", yl);
        free(big);
    }
    clock_mm_destroy(c);
    *on = o;
    return out;
}

static par rnd_par(vh_rng *r, double sps, int modem) {
    par p;
    p.omega = (float) sps;
    p.mu = modem ? 0.5f : (float) vh_unit(r);
    if (modem || vh_below(r, 2)) { p.go = (float) (sps * M_PI / 100); p.gm = 0.5f / 8; p.lim = 0.01f; }
    else { p.go = 0.25f * 0.175f * 0.175f; p.gm = 0.175f; p.lim = 0.005f; }
    return p;
}

static void cut_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    double sps = vh_below(&r, 3) ? 1 + 20 * vh_unit(&r) : 1 + vh_below(&r, 60);
    par p = rnd_par(&r, sps, vh_below(&r, 2));
    size_t n = 1 + vh_below(&r, 3000), maxin = 1 + vh_below(&r, vh_below(&r, 2) ? 40 : 600);
    if (vh_below(&r, 4) == 0) maxin = n;
    if (id % 400 == 3) { n = 66000 + vh_below(&r, 100000); maxin = vh_below(&r, 2) ? n : 1 + vh_below(&r, 70000); }   // beyond 16 bits
    int kind = (int) vh_below(&r, 5);
    double amp = kind == 4 ? pow(10, vh_unit(&r) * 6) : 0.1 + 2 * vh_unit(&r);
    float *x = malloc(sizeof(float) * n);
    double v = 1;
    for (size_t i = 0; i < n; i++) {
        if (vh_unit(&r) < 1 / sps) v = -v;
        x[i] = (float) (amp * (kind == 0 ? vh_gauss(&r) : kind == 1 ? v : kind == 2 ? v + 0.2 * vh_gauss(&r) : kind == 3 ? sin(i * M_PI / sps) : vh_gauss(&r)));
    }
    vh_case("cut id=%lu sps=%g mu=%g lim=%g n=%zu max=%zu kind=%d amp=%g", id, sps, p.mu, p.lim, n, maxin, kind, amp);
    size_t rl; int bad;
    float *ref = feed(x, n, n, p, 0, &r, &rl, &bad);        // whole input at once
    if (bad == 1) { vh_viol("clock:create-refused", "sps=%g", sps); free(x); return; }
    outs += rl;
    // symbols keep coming: one per omega*(1+lim) + correction samples
    for (int s = 0; s < 4 && !bad; s++) {
        size_t ol; int b2;
        float *o = feed(x, n, maxin, p, s, &r, &ol, &b2);
        if (!b2) {
            if (ol != rl) vh_viol("clock:cut-count", "cut style %d max %zu: %zu symbols, %zu when fed at once (sps=%g n=%zu kind=%d)", s, maxin, ol, rl, sps, n, kind);
            else for (size_t i = 0; i < ol; i++) if (!(fabs(o[i] - ref[i]) <= 1e-4 * amp + 1e-5 * fabs(ref[i]))) { vh_viol("clock:cut-value", "cut style %d max %zu: symbol %zu is %g, %g when fed at once (sps=%g)", s, maxin, i, o[i], ref[i], sps); break; }
        }
        free(o);
        ev++;
    }
    if (rl > 3) di++;
    free(ref); free(x);
}

static double nrz(double t) { double a = 4.5; return 0.5 * (erf(a * (t + 0.5)) - erf(a * (t - 0.5))); }

static void track_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed + 77, id);
    double sps = vh_below(&r, 2) ? 2 + vh_below(&r, 30) : 2 + 30 * vh_unit(&r);
    par p = rnd_par(&r, sps, vh_below(&r, 3) != 0);
    double err = vh_sym(&r) * p.lim * 0.5, phase = vh_unit(&r), T = sps * (1 + err);
    int burst = vh_below(&r, 3) == 0;
    size_t lead = burst ? 5 + vh_below(&r, 60) : 0;      // symbols before the burst
    size_t nsym = 1000, maxin = 1 + vh_below(&r, 3000);
    if (id % 400 == 4) { nsym = 20000; maxin = 1 + vh_below(&r, 200000); }
    size_t n = (size_t) (nsym * T) , blen = burst ? 1 + vh_below(&r, 40) : 0;
    size_t bstart = (size_t) (lead * T);
    int8_t *a = malloc(nsym + 8);
    for (size_t i = 0; i < nsym + 8; i++) a[i] = vh_below(&r, 2) ? 1 : -1;
    float *x = malloc(sizeof(float) * (n + blen));
    size_t k = 0;
    for (size_t i = 0; i < n; i++) {
        if (burst && i == bstart) for (size_t j = 0; j < blen; j++) { int w = (int) vh_below(&r, 4); x[k++] = w == 0 ? NAN : w == 1 ? INFINITY : w == 2 ? -INFINITY : 1e30f; }
        double t = (i + 0.0) / T - phase, v = 0;
        long c = (long) floor(t + 0.5);
        for (long j = c - 2; j <= c + 2; j++) if (j >= 0 && j < (long) nsym + 8) v += a[j] * nrz(t - j);
        x[k++] = (float) v;
    }
    size_t total = k;
    vh_case("track id=%lu sps=%g err=%g phase=%g mu=%g lim=%g burst=%zu at %zu max=%zu", id, sps, err, phase, p.mu, p.lim, blen, bstart, maxin);
    size_t ol; int bad;
    float *o = feed(x, total, maxin, p, 1, &r, &ol, &bad);
    if (bad == 1) vh_viol("clock:create-refused", "sps=%g", sps);
    else if (!bad) {
        for (size_t i = 0; i < ol; i++) if (!isfinite(o[i])) { vh_viol("clock:nonfinite-output", "symbol %zu", i); break; }
        // number of symbols
        double want = nsym + blen / sps;
        if (fabs((double) ol - want) > 40) vh_viol("clock:symbol-count", "%zu symbols recovered out of %g (sps=%g err=%g)", ol, want, sps, err);
        else {
            // settle: first 400 symbols; then every symbol once and in order
            size_t from = 400 + lead, m = nsym - 500 - lead;
            long best = -1; size_t beste = m + 1;
            for (long off = -60; off <= 60; off++) {
                size_t e = 0;
                for (size_t i = from; i < from + m && i < ol; i++) { long j = (long) i + off; if (j < 0 || j >= (long) nsym) { e = m; break; } if ((o[i] > 0 ? 1 : -1) != a[j]) e++; if (e > beste) break; }
                if (e < beste) { beste = e; best = off; }
            }
            if (beste != 0) vh_viol(burst ? "clock:lost-after-nonfinite" : "clock:not-tracking", "%zu wrong symbols of %zu at best alignment %ld (sps=%g err=%g mu=%g phase=%g lim=%g burst=%zu)", beste, m, best, sps, err, p.mu, phase, p.lim, blen);
            syms_checked += m;
        }
    }
    ev++; di++;
    free(o); free(x); free(a);
    if (id < 3) vh_sample("track sps=%g rate error=%g phase=%g burst=%zu", sps, err, phase, blen);
}

int main(int argc, char **argv) {
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 1, 1);
    long from = vh_arg(argc, argv, 2, 0), n = vh_arg(argc, argv, 3, 100);
    for (long i = from; i < from + n; i++) { cut_case(seed, i); track_case(seed, i); }
    vh_ev("evaluations", ev); vh_ev("distinct", di); vh_ev("symbols_checked", syms_checked); vh_ev("symbols_produced", outs);
    vh_done();
    return 0;
}
