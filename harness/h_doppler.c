// Doppler correction: carrier frequency applied to every sample against an independent line-of-sight velocity.
#include "vh.h"
#include "vh_tle.h"
#include "ref_sgp4.h"
#include "dsp/doppler.h"
#include <time.h>
#include <unistd.h>
int fz_predict(double epoch, const double *el, const double *tsince, int n, double (*out)[6]);
#define C_KM 299792.458
static long evals, distinct, samples_n, seconds_n, updates, realtime;
static double worst;

typedef struct { vtle t; double el[9]; double lat, lon, alt; int64_t fc, off; int dir; double start1970; } scen;
static bool shift(const scen *s, double secs, double *out) {
    double d = s->start1970 / 86400.0 + secs / 86400.0, ts = (s->start1970 / 86400.0 - ref_days_1970_to_epoch(s->t.epoch)) * 1440.0 + secs / 60.0, o[1][6], rg, rt;
    fz_predict(s->t.epoch, s->el, &ts, 1, o);
    if (!isfinite(o[0][0])) return false;
    ref_range(d, s->lat * R_2PI / 360, s->lon * R_2PI / 360, s->alt, o[0], &rg, &rt);
    double rr = sqrt(o[0][0] * o[0][0] + o[0][1] * o[0][1] + o[0][2] * o[0][2]);
    if (!(rr > 6400) || !(rg > 150)) return false;
    *out = s->dir * (double) s->fc * rt / C_KM + s->off;
    return true;
}
static void scenario(vh_rng *r, scen *s) {
    memset(s, 0, sizeof *s);
    vtle_make(r, &s->t, vh_below(r, 5) ? VTLE_LEO : VTLE_DEEP);
    double el[9] = {s->t.ndot, s->t.nddot, s->t.bstar, s->t.incl, s->t.node, s->t.ecc, s->t.argp, s->t.ma, s->t.n_read};
    memcpy(s->el, el, sizeof el);
    s->lat = floor(vh_sym(r) * 89e4) / 1e4; s->lon = floor(vh_sym(r) * 180e4) / 1e4; s->alt = floor(vh_unit(r) * 3000) / 1000;
    static const int64_t fcs[] = {145800000, 437525000, 1200000000, 2245000000, 30000000, 8200000000LL, 401500000};
    s->fc = fcs[vh_below(r, 7)];
    s->dir = vh_below(r, 2) ? 1 : -1;
    s->off = s->dir < 0 && vh_below(r, 3) ? vh_range(r, -50000, 50000) : 0;
}
static void run(uint64_t seed, uint64_t k, int mode) { // mode 0 normal, 1 long, 2 realtime, 3 more than a day
    vh_rng r = vh_seed(seed * 3 + mode, k);
    scen s;
    double f;
    for (int tries = 0; ; tries++) {
        scenario(&r, &s);
        if (mode == 3) s.fc = 30000000;
        if (mode == 2) {
            time_t now = time(NULL);
            struct tm g;
            gmtime_r(&now, &g);
            s.t.epoch = (g.tm_year % 100) * 1000 + g.tm_yday + 1;
            char e[32]; snprintf(e, sizeof e, "%014.8f", s.t.epoch); memcpy(s.t.line[1] + 18, e, 14); vtle_checksum(s.t.line[1]);
            s.start1970 = now;
        } else {
            s.start1970 = floor(ref_days_1970_to_epoch(s.t.epoch) * 86400.0 + vh_sym(&r) * 86400 * (vh_below(&r, 2) ? 1 : 4));
            if (s.start1970 == 0) s.start1970 = 1;
        }
        if (shift(&s, 0, &f) && shift(&s, mode == 1 ? 1300 : mode == 3 ? 108100 : 40, &f)) break;
        if (tries > 100) return;
    }
    static const uint64_t rates[] = {1000, 2400, 9600, 48000, 48000, 96000, 250000, 7777};
    uint64_t fs = mode == 3 ? 100 + 50 * vh_below(&r, 3) : mode == 1 ? (vh_below(&r, 2) ? 500 : 1000) : rates[vh_below(&r, 8)];
    double secs = mode == 3 ? 108000 : mode == 1 ? 1200 : mode == 2 ? 1.5 : fs > 100000 ? 2.3 : fs > 20000 ? 4.6 : 12;
    int style = vh_below(&r, 5);
    uint32_t maxbuf = style == 0 ? fs / 50 + 1 : style == 1 ? fs / 10 + 1 : style == 2 ? fs : style == 3 ? fs * 2 + 3 : fs / 200 + 1;
    if (mode == 1) maxbuf = fs / 10;
    if (mode == 3) maxbuf = fs * 2 / 3;
    doppler *d = NULL;
    char tle[3][80];
    memcpy(tle, s.t.line, sizeof tle);
    vh_case("mode %d seed %llu k %llu fs %llu buffer %u", mode, (unsigned long long) seed, (unsigned long long) k, (unsigned long long) fs, maxbuf);
    int code = doppler_create(s.lat, s.lon, s.alt, fs, s.fc, s.off, mode == 2 ? 0 : (time_t) s.start1970, maxbuf, tle, &d);
    evals++;
    if (code != 0) { vh_viol("doppler:refused", "valid parameters refused (%d): start %.0f fs %llu | %s | %s", code, s.start1970, (unsigned long long) fs, s.t.line[1], s.t.line[2]); return; }
    double slack_before = 0.005, slack_after = 0.005;
    if (mode == 2) {
        if (k % 2) usleep(2600000); // correction starts with the first samples, not when it was set up
        s.start1970 = (double) time(NULL);
        slack_before = 0.1; slack_after = 1.2;
        realtime++;
    }
    float complex *in = malloc(sizeof(*in) * maxbuf);
    uint64_t total = (uint64_t) (secs * fs), done = 0;
    double complex prev = 0;
    double fmin_c = 0, fmax_c = 0; bool bad = false;
    while (done < total && !bad) {
        size_t len = style == 2 || style == 3 ? (vh_below(&r, 4) ? maxbuf : 1 + vh_below(&r, maxbuf)) : vh_below(&r, 3) ? 1 + vh_below(&r, maxbuf) : maxbuf;
        if (!vh_below(&r, 50)) len = 1;
        if (len > total - done) len = total - done;
        float amp = 0.1f + vh_unit(&r);
        for (size_t i = 0; i < len; i++) in[i] = amp * cexpf(I * (float) (6.2831853 * vh_unit(&r)));
        float complex *copy = malloc(sizeof(*copy) * len);
        memcpy(copy, in, sizeof(*copy) * len);
        float complex *out = NULL; size_t n = 0;
        if (s.dir > 0) doppler_process_rx(in, len, &out, &n, d); else doppler_process_tx(in, len, &out, &n, d);
        if (n != len) { vh_viol("doppler:length", "%zu samples in, %zu out", len, n); bad = true; free(copy); break; }
        double t0 = (double) done / fs, B = (double) maxbuf / fs;
        if (B > 1) B = 1;
        // range of true frequencies around this buffer: one buffer of drift, clock inaccuracy of 20 ppm
        double before = B + slack_before + 2e-5 * t0, after = (double) len / fs + B + slack_after + 2e-5 * t0;
        if (len > fs) before += 0;
        fmin_c = 1e30; fmax_c = -1e30;
        int pts = 9;
        for (int q = 0; q <= pts; q++) {
            double f1;
            if (!shift(&s, t0 - before + (before + after) * q / pts, &f1)) { f1 = fmin_c; bad = true; break; }
            if (f1 < fmin_c) fmin_c = f1;
            if (f1 > fmax_c) fmax_c = f1;
        }
        if (bad) { free(copy); break; }
        // second derivative: interpolation inside a second and sampling of the range above
        double fa, fb, fc2;
        if (!shift(&s, t0 - 1, &fa) || !shift(&s, t0, &fb) || !shift(&s, t0 + 1, &fc2)) { free(copy); break; }
        double curv = fabs(fa - 2 * fb + fc2);
        double tol = 1.02 + 0.3 * curv + 4e-7 * fs + 2e-6 * s.fc / C_KM + 1e-6 * s.fc / C_KM;
        for (size_t i = 0; i < len; i++) {
            double complex c = (double complex) out[i] / (double complex) copy[i];
            if (fabs(cabs(c) - 1) > 1e-4) { vh_viol("doppler:gain", "sample %llu has gain %.6f", (unsigned long long) (done + i), cabs(c)); bad = true; break; }
            if (done + i > 0) {
                double fr = carg(c * conj(prev)) / R_2PI * fs;
                double mid = (fmin_c + fmax_c) / 2, w = fmod(fr - mid, (double) fs);
                if (w > fs / 2.0) w -= fs;
                if (w < -(fs / 2.0)) w += fs;
                double ex = fabs(w) - (fmax_c - fmin_c) / 2;
                if (ex > worst) worst = ex;
                if (!(ex <= tol)) {
                    vh_viol("doppler:frequency", "%s at %.4f s of the stream: frequency %.2f Hz is %.2f Hz outside of %.2f..%.2f (allowed %.2f); fs %llu fc %lld offset %lld station %.4f %.4f %.3f start %.0f buffer %u | %s | %s",
                            s.dir > 0 ? "rx" : "tx", (double) (done + i) / fs, mid + w, ex, fmin_c, fmax_c, tol, (unsigned long long) fs, (long long) s.fc, (long long) s.off, s.lat, s.lon, s.alt, s.start1970, maxbuf, s.t.line[1], s.t.line[2]);
                    bad = true; break;
                }
            }
            prev = c;
        }
        free(copy);
        done += len; samples_n += len;
    }
    seconds_n += done / fs;
    // too long a buffer gives nothing
    float complex *big = calloc(maxbuf + 1, sizeof(*big)), *out = (void *) 1; size_t n = 1;
    doppler_process_rx(big, (size_t) maxbuf + 1, &out, &n, d);
    if (out != NULL || n != 0) vh_viol("doppler:oversized", "buffer beyond the announced size wasn't refused");
    free(big);
    if (k < 3) vh_sample("fc %lld fs %llu shift %.1f..%.1f Hz at the end, %s", (long long) s.fc, (unsigned long long) fs, fmin_c, fmax_c, s.dir > 0 ? "rx" : "tx");
    distinct++;
    free(in);
    doppler_destroy(d);
}
int main(int argc, char **argv) {
    int mode = vh_arg(argc, argv, 1, 0);
    uint64_t seed = vh_arg(argc, argv, 2, 1), from = vh_arg(argc, argv, 3, 0), n = vh_arg(argc, argv, 4, 20);
    for (uint64_t k = from; k < from + n; k++) run(seed, k, mode);
    fprintf(stderr, "worst excess %.4f Hz\n", worst);
    vh_ev("evaluations", evals); vh_ev("distinct", distinct); vh_ev("samples_compared", samples_n); vh_ev("seconds_of_signal", seconds_n); vh_ev("realtime_cases", realtime);
    vh_done();
    return 0;
}
