// D10: what is modulated can be demodulated
#include "vh.h"
#include "dsp/gfsk_mod.h"
#include "dsp/fsk_demod.h"

static long ev = 0, di = 0, bits_checked = 0;

static int8_t *demodulate(const float complex *x, size_t n, size_t maxin, int style, vh_rng *r, uint64_t fs, uint32_t baud, int64_t dev, uint8_t dec, uint32_t tw, bool dc, size_t *on) {
    fsk_demod *d = NULL;
    *on = 0;
    if (fsk_demod_create(fs, baud, dev, dec, tw, dc, (uint32_t) maxin, &d) != 0) return NULL;
    int8_t *out = malloc(n + 16); size_t pos = 0, o = 0;
    while (pos < n) {
        size_t k = style == 0 ? maxin : style == 1 ? 1 + vh_below(r, maxin) : 1 + vh_below(r, maxin < 40 ? maxin : 40);
        if (k > n - pos) k = n - pos;
        float complex *in = malloc(sizeof(float complex) * k); memcpy(in, x + pos, sizeof(float complex) * k);
        int8_t *y = NULL; size_t yl = 0;
        fsk_demod_process(in, k, &y, &yl, d);
        free(in);
        if (o + yl > n) { vh_viol("modem:too-much-output", "%zu", o + yl); break; }
        if (yl) memcpy(out + o, y, yl);
        o += yl; pos += k;
    }
    fsk_demod_destroy(d);
    *on = o;
    return out;
}

static void modem_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    static const uint32_t B[] = {300, 1200, 2400, 4800, 9600, 19200, 40000};
    uint32_t baud = B[vh_below(&r, 7)];
    int sps = 4 + (int) vh_below(&r, 22);
    int dec = 1;
    { int md = sps / 3; if (md > 1 && vh_below(&r, 2)) dec = 1 + (int) vh_below(&r, md); }
    uint64_t fs = (uint64_t) baud * sps;
    double h = 0.25 + 0.35 * vh_unit(&r);                      // deviation relative to the baud rate
    int sign = vh_below(&r, 2) ? 1 : -1;
    int64_t dev = sign * (int64_t) (h * baud);
    uint32_t tw = (uint32_t) (baud * (0.15 + 0.35 * vh_unit(&r)));
    int dc = (int) vh_below(&r, 2);
    double amp = pow(10, 2 * vh_sym(&r)), off = dc ? 0.08 * baud * vh_sym(&r) : 0;
    double noise = vh_below(&r, 2) ? 0.05 * sqrt(sps / 4.0) * vh_unit(&r) : 0;
    size_t bytes = id % 150 == 4 ? 4000 : 160, nbits = bytes * 8, n = nbits * sps;
    uint8_t *data = malloc(bytes);
    // the DC blocker removes the short-term mean of the data, too: keep the bit density ordinary
    int disparity = 0;
    for (size_t i = 0; i < bytes; i++) {
        int ones;
        do { data[i] = (uint8_t) vh_next(&r); ones = 2 * __builtin_popcount(data[i]) - 8; } while (dc && abs(disparity + ones) > 4);
        disparity += ones;
    }
    vh_case("modem id=%lu baud=%u sps=%d dec=%d dev=%ld tw=%u dc=%d amp=%g off=%g noise=%g", id, baud, sps, dec, dev, tw, dc, amp, off, noise);
    gfsk_mod *m = NULL;
    uint32_t mm = 1 + (uint32_t) vh_below(&r, 200);
    if (gfsk_mod_create((float) sps, (float) (2 * M_PI * dev / (double) fs), 0.5f, mm, &m) != 0) { vh_viol("modem:mod-refused", "sps=%d", sps); free(data); return; }
    float complex *x = malloc(sizeof(float complex) * n);
    size_t pos = 0, k = 0;
    double cph = vh_unit(&r) * 6.28;
    while (pos < bytes) {
        size_t c = 1 + vh_below(&r, mm); if (c > bytes - pos) c = bytes - pos;
        float complex *y = NULL; size_t yl = 0;
        gfsk_mod_process(data + pos, c, &y, &yl, m);
        if (k + yl > n) { vh_viol("modem:mod-length", "%zu", k + yl); break; }
        for (size_t i = 0; i < yl; i++, k++) x[k] = (float complex) (amp * (y[i] * cexp(I * (cph + 2 * M_PI * off * k / fs)) + noise * (vh_gauss(&r) + I * vh_gauss(&r))));
        pos += c;
    }
    gfsk_mod_destroy(m);
    if (k != n) { vh_viol("modem:mod-length", "%zu of %zu", k, n); free(x); free(data); return; }
    size_t ol, ol2, maxin = 1 + vh_below(&r, id % 150 == 4 ? 150000 : 5000);
    int8_t *o = demodulate(x, n, 4096, 0, &r, fs, baud, dev, (uint8_t) dec, tw, dc, &ol);
    if (o == NULL) { vh_viol("modem:demod-refused", "baud=%u sps=%d dec=%d dev=%ld tw=%u", baud, sps, dec, dev, tw); free(x); free(data); return; }
    int8_t *o2 = demodulate(x, n, maxin, 1 + (int) vh_below(&r, 2), &r, fs, baud, dev, (uint8_t) dec, tw, dc, &ol2);
    if (ol != ol2) vh_viol("modem:cut-count", "%zu symbols with 4096, %zu with cut of at most %zu", ol, ol2, maxin);
    else for (size_t i = 0; i < ol; i++) if (abs(o[i] - o2[i]) > 2) { vh_viol("modem:cut-value", "symbol %zu: %d and %d (max %zu)", i, o[i], o2[i], maxin); break; }
    // start-up transient: filters, dc blocker (4 x 32 symbols) and clock
    size_t from = 420, mch = bytes == 160 ? 800 : nbits - 500;
    if (ol + 60 < nbits) vh_viol("modem:symbol-count", "%zu symbols of %zu bits", ol, nbits);
    else {
        long best = 0; size_t be = mch + 1;
        for (long sh = -110; sh <= 40; sh++) {
            size_t e = 0;
            for (size_t i = from; i < from + mch && i < ol; i++) { long j = (long) i + sh; if (j < 0 || j >= (long) nbits) continue; int bit = (data[j / 8] >> (7 - j % 8)) & 1; if ((o[i] > 0) != bit) e++; if (e > be) break; }
            if (e < be) { be = e; best = sh; }
        }
        if (be) vh_viol("modem:bit-errors", "%zu wrong bits of %zu at shift %ld: baud=%u sps=%d dec=%d dev=%ld tw=%u dc=%d amp=%g off=%g noise=%g", be, mch, best, baud, sps, dec, dev, tw, dc, amp, off, noise);
        bits_checked += mch;
    }
    ev += 2; di++;
    if (id < 3) vh_sample("modem baud=%u sps=%d dec=%d dev=%ld tw=%u dc=%d amp=%g off=%g noise=%g", baud, sps, dec, dev, tw, dc, amp, off, noise);
    free(o); free(o2); free(x); free(data);
}

int main(int argc, char **argv) {
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 1, 1);
    long from = vh_arg(argc, argv, 2, 0), n = vh_arg(argc, argv, 3, 100);
    for (long i = from; i < from + n; i++) modem_case(seed, i);
    vh_ev("evaluations", ev); vh_ev("distinct", di); vh_ev("bits_checked", bits_checked);
    vh_done();
    return 0;
}
