// Reference outputs for the server checks: the signal blocks applied to whole recordings.
//   h_ref sig SEED NSYM SPS FS DEV NOISE OFFSET OUT            test signal (GFSK of random bytes)
//   h_ref demod IN OUT FS BAUD DEV DEC TW DC OFFSET CHUNK [START FC LAT LON ALT TLE]
//   h_ref shift IN OUT FS OFFSET CHUNK
//   h_ref near A B TOL          index of the first differing complex float sample, -1 if there is none
//   h_ref near16 A B TOL        A holds 16-bit samples, B floats
//   h_ref steps A B TOL 16|32   phase steps between the samples, and unit magnitude of A
//   h_ref mod IN OUT FS BAUD DEV OFFSET CHUNK [START FC LAT LON ALT TLE]
#include "vh.h"
#include "dsp/gfsk_mod.h"
#include "dsp/fsk_demod.h"
#include "dsp/doppler.h"
#include "dsp/sig_source.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

static void *slurp(const char *p, size_t *n) {
    FILE *f = fopen(p, "rb"); if (!f) vh_setup_failed(p);
    fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f);
    void *b = malloc(*n + 16);
    if (fread(b, 1, *n, f) != *n) vh_setup_failed(p);
    fclose(f);
    return b;
}

static void tle_read(const char *p, char t[3][80]) {
    FILE *f = fopen(p, "r"); if (!f) vh_setup_failed(p);
    memset(t, 0, 240);
    for (int i = 0; i < 3; i++) { char l[256] = {0}; if (!fgets(l, sizeof(l), f)) vh_setup_failed("tle"); l[strcspn(l, "\n")] = 0; strncpy(t[i], l, 80); }
    fclose(f);
}

int main(int argc, char **argv) {
    if (argc > 9 && !strcmp(argv[1], "sig")) {
        vh_rng r = vh_seed(strtoull(argv[2], 0, 10), 99);
        size_t nsym = strtoul(argv[3], 0, 10); int sps = atoi(argv[4]); double fs = atof(argv[5]), dev = atof(argv[6]), noise = atof(argv[7]), off = atof(argv[8]);
        size_t nb = nsym / 8; uint8_t *d = malloc(nb + 1);
        for (size_t i = 0; i < nb; i++) d[i] = (uint8_t) vh_next(&r);
        gfsk_mod *m = NULL;
        if (gfsk_mod_create((float) sps, (float) (2 * M_PI * dev / fs), 0.5F, (uint32_t) nb + 1, &m) != 0) vh_setup_failed("mod");
        float complex *o = NULL; size_t n = 0;
        gfsk_mod_process(d, nb, &o, &n, m);
        FILE *f = fopen(argv[9], "wb");
        for (size_t i = 0; i < n; i++) {
            double ph = 2 * M_PI * off * (double) i / fs;
            float complex v = o[i] * (float complex) (cos(ph) + I * sin(ph)) + (float) (noise * vh_gauss(&r)) + I * (float) (noise * vh_gauss(&r));
            fwrite(&v, sizeof(v), 1, f);
        }
        fclose(f);
        return 0;
    }
    if (argc > 6 && !strcmp(argv[1], "shift")) {
        size_t n; float complex *x = slurp(argv[2], &n);
        n /= sizeof(float complex);
        FILE *f = fopen(argv[3], "wb"); if (!f) vh_setup_failed(argv[3]);
        size_t chunk = strtoul(argv[6], 0, 10); if (chunk == 0) chunk = n ? n : 1;
        sig_source *sig = NULL;
        if (sig_source_create(1.0F, strtoull(argv[4], 0, 10), chunk, &sig) != 0) return 3;
        for (size_t p = 0; p < n; p += chunk) {
            float complex *o = NULL; size_t l = 0;
            sig_source_multiply(strtoll(argv[5], 0, 10), x + p, n - p < chunk ? n - p : chunk, &o, &l, sig);
            fwrite(o, sizeof(float complex), l, f);
        }
        fclose(f);
        return 0;
    }
    if (argc > 4 && (!strcmp(argv[1], "near") || !strcmp(argv[1], "near16") || !strcmp(argv[1], "steps"))) {
        size_t na, nb; void *a = slurp(argv[2], &na); float *b = slurp(argv[3], &nb);
        double tol = atof(argv[4]);
        bool h = !strcmp(argv[1], "near16") || (argc > 5 && !strcmp(argv[5], "16")), steps = !strcmp(argv[1], "steps");
        na /= h ? 4 : 8; nb /= 8;
        long bad = -1; double got = 0, want = 0;
        double pr = 0, pi = 0, qr = 0, qi = 0;
        for (size_t i = 0; i < na && i < nb && bad < 0; i++) {
            double xr = h ? ((int16_t *) a)[2 * i] : ((float *) a)[2 * i], xi = h ? ((int16_t *) a)[2 * i + 1] : ((float *) a)[2 * i + 1];
            double yr = b[2 * i], yi = b[2 * i + 1];
            if (steps) {
                if (h) { xr /= 32768; xi /= 32768; }
                if (i > 0) {
                    double d1 = atan2(xi * pr - xr * pi, xr * pr + xi * pi), d2 = atan2(yi * qr - yr * qi, yr * qr + yi * qi);
                    double d = remainder(d1 - d2, 2 * M_PI);
                    if (!(fabs(d) <= tol)) { bad = (long) i; got = d1; want = d2; }
                }
                if (!(fabs(sqrt(xr * xr + xi * xi) - 1) < 2e-3)) { bad = (long) i; got = sqrt(xr * xr + xi * xi); want = 1; }
                pr = xr; pi = xi; qr = yr; qi = yi;
            } else {
                if (h) {
                    yr = fmax(-32768, fmin(32767, rint(yr * 32768))); yi = fmax(-32768, fmin(32767, rint(yi * 32768)));
                }
                if (!(fabs(xr - yr) <= tol)) { bad = (long) i; got = xr; want = yr; }
                else if (!(fabs(xi - yi) <= tol)) { bad = (long) i; got = xi; want = yi; }
            }
        }
        if (bad < 0 && na != nb) bad = (long) (na < nb ? na : nb);
        printf("%ld %zu %zu %.7f %.7f\n", bad, na, nb, got, want);
        return 0;
    }
    bool demod = argc > 1 && !strcmp(argv[1], "demod");
    if (argc < (demod ? 12 : 9)) return 2;
    size_t n; char *in = slurp(argv[2], &n);
    FILE *f = fopen(argv[3], "wb"); if (!f) vh_setup_failed(argv[3]);
    uint64_t fs = strtoull(argv[4], 0, 10); uint32_t baud = strtoul(argv[5], 0, 10); int64_t dev = strtoll(argv[6], 0, 10);
    int a = demod ? 10 : 7;
    int64_t off = strtoll(argv[a], 0, 10); size_t chunk = strtoul(argv[a + 1], 0, 10);
    if (demod) n /= sizeof(float complex);
    if (chunk == 0) chunk = n ? n : 1;
    int sps = (int) ((double) fs / baud);
    size_t maxs = demod ? chunk : chunk * 8 * sps;
    doppler *dop = NULL; sig_source *sig = NULL;
    if (argc > a + 7) {
        char t[3][80]; tle_read(argv[a + 7], t);
        if (doppler_create(atof(argv[a + 4]), atof(argv[a + 5]), atof(argv[a + 6]), fs, strtoull(argv[a + 3], 0, 10), demod ? 0 : off, strtoll(argv[a + 2], 0, 10), maxs, t, &dop) != 0) return 3;
    }
    if (off != 0 && (demod || dop == NULL)) if (sig_source_create(1.0F, fs, maxs, &sig) != 0) return 3;
    if (demod) {
        fsk_demod *d = NULL;
        if (fsk_demod_create(fs, baud, dev, (uint8_t) strtoul(argv[7], 0, 10), strtoul(argv[8], 0, 10), atoi(argv[9]), chunk, &d) != 0) return 3;
        float complex *x = (float complex *) in;
        for (size_t p = 0; p < n; p += chunk) {
            float complex *c = x + p; size_t l = n - p < chunk ? n - p : chunk; int8_t *y = NULL; size_t yl = 0;
            if (sig) { float complex *o = NULL; sig_source_multiply(off, c, l, &o, &l, sig); c = o; }
            if (dop) { float complex *o = NULL; doppler_process_rx(c, l, &o, &l, dop); c = o; }
            fsk_demod_process(c, l, &y, &yl, d);
            if (yl) fwrite(y, 1, yl, f);
        }
    } else {
        gfsk_mod *m = NULL;
        if (gfsk_mod_create((float) ((double) fs / baud), (float) (2 * M_PI * (double) dev / (double) fs), 0.5F, chunk, &m) != 0) return 3;
        for (size_t p = 0; p < n; p += chunk) {
            float complex *c = NULL; size_t l = 0;
            gfsk_mod_process((uint8_t *) in + p, n - p < chunk ? n - p : chunk, &c, &l, m);
            if (dop) { float complex *o = NULL; doppler_process_tx(c, l, &o, &l, dop); c = o; }
            if (sig) { float complex *o = NULL; sig_source_multiply(off, c, l, &o, &l, sig); c = o; }
            fwrite(c, sizeof(float complex), l, f);
        }
    }
    fclose(f);
    return 0;
}
