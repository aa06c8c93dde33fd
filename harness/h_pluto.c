// P01/P02: the PlutoSDR device against a stand-in library with a model of the hardware.
#define _GNU_SOURCE
#include "vh.h"
#include <errno.h>
#include <limits.h>
#include "sdr/plutosdr.h"

static long ev = 0, di = 0, pushes = 0, refills = 0, tx_values = 0, rx_values = 0, faults = 0, opens = 0, refused = 0, calls_seen = 0, overruns = 0, dev_errors = 0;

// ------------------------------------------------------------------ fault injection
static bool in_call = false;            // inside a call of the code under test
static long nth = 0, seen = 0, fired = 0; static bool persistent = false; static int err_no = EIO;
static char fired_at[64];
static bool failing(const char *what) {
    if (!in_call) return false;
    seen++;
    if (nth > 0 && (seen == nth || (persistent && seen > nth))) { if (!fired++) snprintf(fired_at, sizeof(fired_at), "%s", what); errno = err_no; return true; }
    return false;
}
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { if (failing("malloc")) { errno = ENOMEM; return NULL; } return __real_malloc(n); }

// ------------------------------------------------------------------ hardware
enum { PHY, TXD, RXD };
struct iio_context { int magic; };
struct iio_scan_context { int magic; };
struct iio_context_info { int magic; };
struct iio_device { int kind; };
struct iio_channel { int dev; char name[24]; bool out, enabled; };
struct iio_buffer { int kind; size_t n, alloc, filled; char *mem; };

static struct iio_device *devs[3];
static struct iio_channel *chans[64]; static int nchans;
static struct iio_context *ctx; static long contexts, scans, infos, buffers;
static struct iio_buffer *live[8];
static bool oversize = false;

struct attr { int dev; char chan[24]; bool out; char name[32]; char s[64]; double v; };
static struct attr attrs[128]; static int nattrs;
static bool fir_on; static int fir_rx, fir_tx; static double rate = 30720000; static double fir_taps[2][256]; static int fir_n;

static struct attr *find(int dev, const char *chan, bool out, const char *name, bool add) {
    for (int i = 0; i < nattrs; i++) if (attrs[i].dev == dev && !strcmp(attrs[i].chan, chan) && attrs[i].out == out && !strcmp(attrs[i].name, name)) return &attrs[i];
    if (!add || nattrs == 128) return NULL;
    struct attr *a = &attrs[nattrs++];
    memset(a, 0, sizeof(*a)); a->dev = dev; a->out = out; snprintf(a->chan, sizeof(a->chan), "%s", chan); snprintf(a->name, sizeof(a->name), "%s", name);
    return a;
}
static double num(int dev, const char *chan, bool out, const char *name) { struct attr *a = find(dev, chan, out, name, false); return a ? a->v : NAN; }
static const char *text(int dev, const char *chan, bool out, const char *name) { struct attr *a = find(dev, chan, out, name, false); return a ? a->s : ""; }

static void bad(const char *what, const char *detail) { vh_viol(what, "%s", detail); }
static bool ctx_ok(const struct iio_context *c, const char *f) { if (c == NULL || c != ctx) { bad("pluto:released-context", f); return false; } return true; }
static bool dev_ok(const struct iio_device *d, const char *f) { for (int i = 0; i < 3; i++) if (ctx && devs[i] == d) return true; bad("pluto:released-device", f); return false; }
static bool chan_ok(const struct iio_channel *c, const char *f) { for (int i = 0; i < nchans; i++) if (ctx && chans[i] == c) return true; bad("pluto:released-channel", f); return false; }
static bool buf_ok(const struct iio_buffer *b, const char *f) { for (int i = 0; i < 8; i++) if (b && live[i] == b) return true; bad("pluto:released-buffer", f); return false; }

static struct iio_scan_context *f_scan(const char *b, unsigned f) { if (failing("scan")) return NULL; scans++; return calloc(1, sizeof(struct iio_scan_context)); }
static bool none_found = false;
static ssize_t f_info(struct iio_scan_context *c, struct iio_context_info ***i) {
    if (failing("info")) return -err_no;
    infos++;
    *i = calloc(2, sizeof(void *));
    if (none_found) { infos--; free(*i); *i = NULL; return 0; }
    (*i)[0] = calloc(1, sizeof(struct iio_context_info));
    return 1;
}
static void f_scan_destroy(struct iio_scan_context *c) { scans--; free(c); }
static const char *f_uri(const struct iio_context_info *i) { return i->magic == 0 ? "usb:1.2.3" : ""; }
static struct iio_context *f_context(const char *u) {
    if (failing("context")) return NULL;
    if (strcmp(u, "usb:1.2.3")) bad("pluto:uri", u);
    contexts++;
    if (contexts > 1) bad("pluto:two-contexts", "a second context of the device while the first one is alive");
    ctx = calloc(1, sizeof(*ctx));
    for (int i = 0; i < 3; i++) { devs[i] = calloc(1, sizeof(struct iio_device)); devs[i]->kind = i; }
    return ctx;
}
static void f_info_free(struct iio_context_info **i) { infos--; free(i[0]); free(i); }
static long timeout_ms;
static int f_timeout(struct iio_context *c, unsigned t) { ctx_ok(c, "set_timeout"); if (failing("timeout")) return -err_no; timeout_ms = t; return 0; }
static void f_context_destroy(struct iio_context *c) {
    if (!ctx_ok(c, "context_destroy")) return;
    contexts--;
    if (buffers) bad("pluto:context-in-use", "the context is released while there are buffers of it");
    for (int i = 0; i < 3; i++) { free(devs[i]); devs[i] = NULL; }
    for (int i = 0; i < nchans; i++) { if (chans[i]->enabled) bad("pluto:channel-left-enabled", chans[i]->name); free(chans[i]); }
    nchans = 0;
    free(c); ctx = NULL;
}
static struct iio_device *f_device(const struct iio_context *c, const char *n) {
    if (!ctx_ok(c, "find_device") || failing(n)) return NULL;
    int k = !strcmp(n, "ad9361-phy") ? PHY : !strcmp(n, "cf-ad9361-dds-core-lpc") ? TXD : !strcmp(n, "cf-ad9361-lpc") ? RXD : -1;
    return k < 0 ? NULL : devs[k];
}
static bool exists(int dev, const char *n, bool out) {
    if (dev == PHY) return (!strcmp(n, "voltage0")) || (out && (!strcmp(n, "altvoltage0") || !strcmp(n, "altvoltage1"))) || (!out && !strcmp(n, "out"));
    if (dev == TXD) return out && (!strcmp(n, "voltage0") || !strcmp(n, "voltage1") || !strcmp(n, "TX1_I_F1") || !strcmp(n, "TX1_Q_F1") || !strcmp(n, "TX1_I_F2") || !strcmp(n, "TX1_Q_F2"));
    return !out && (!strcmp(n, "voltage0") || !strcmp(n, "voltage1"));
}
static struct iio_channel *f_channel(const struct iio_device *d, const char *n, bool out) {
    if (!dev_ok(d, "find_channel") || failing(n)) return NULL;
    if (!exists(d->kind, n, out)) return NULL;
    for (int i = 0; i < nchans; i++) if (chans[i]->dev == d->kind && chans[i]->out == out && !strcmp(chans[i]->name, n)) return chans[i];
    struct iio_channel *c = chans[nchans++] = calloc(1, sizeof(*c));
    c->dev = d->kind; c->out = out; snprintf(c->name, sizeof(c->name), "%s", n);
    return c;
}
static void f_strerror(int e, char *d, size_t l) { snprintf(d, l, "error %d", e); }
static double min_rate(void) { return fir_on ? 25e6 / 12 / (fir_rx > fir_tx ? fir_rx : fir_tx) : 25e6 / 12; }
static int f_set(const struct iio_channel *c, const char *a, const char *s, double v) {
    if (!chan_ok(c, a)) return -EINVAL;
    if (failing(a)) return -err_no;
    if (c->dev == PHY && !strcmp(a, "sampling_frequency")) {
        if (v < min_rate() - 1 || v > 61440000) return -EINVAL;
        rate = v;
    }
    if (c->dev == PHY && !strcmp(a, "voltage_filter_fir_en")) { if (v && !fir_n) return -EINVAL; if (!v && rate < 25e6 / 12 - 1) return -EINVAL; fir_on = v != 0; return 0; }
    struct attr *t = find(c->dev, c->name, c->out, a, true);
    t->v = v; snprintf(t->s, sizeof(t->s), "%s", s);
    return 0;
}
static ssize_t f_attr(const struct iio_channel *c, const char *a, const char *v) { int r = f_set(c, a, v, NAN); return r ? r : (ssize_t) strlen(v) + 1; }
static int f_attr_ll(const struct iio_channel *c, const char *a, long long v) { char s[64]; snprintf(s, sizeof(s), "%lld", v); return f_set(c, a, s, (double) v); }
static int f_attr_bool(const struct iio_channel *c, const char *a, bool v) { return f_set(c, a, v ? "1" : "0", v); }
static int f_attr_double(const struct iio_channel *c, const char *a, double v) { char s[64]; snprintf(s, sizeof(s), "%g", v); return f_set(c, a, s, v); }
static int f_dev_bool(const struct iio_device *d, const char *a, bool v) {
    if (!dev_ok(d, a)) return -EINVAL;
    if (failing(a)) return -err_no;
    if (d->kind != PHY || strcmp(a, "in_out_voltage_filter_fir_en")) return -ENOENT;
    if (v && !fir_n) return -EINVAL;
    if (!v && rate < 25e6 / 12 - 1) return -EINVAL;
    fir_on = v;
    return 0;
}
static ssize_t f_dev_raw(const struct iio_device *d, const char *a, const void *src, size_t len) {
    if (!dev_ok(d, a)) return -EINVAL;
    if (failing(a)) return -err_no;
    if (d->kind != PHY || strcmp(a, "filter_fir_config")) return -ENOENT;
    char *b = calloc(1, len + 1); memcpy(b, src, len);
    int rx = 0, tx = 0, n = 0, gain, k;
    for (char *l = strtok(b, "\n"); l; l = strtok(NULL, "\n")) {
        long t, r;
        if (sscanf(l, "RX %d GAIN %d DEC %d", &k, &gain, &rx) == 3 || sscanf(l, "TX %d GAIN %d INT %d", &k, &gain, &tx) == 3) continue;
        if (sscanf(l, "%ld,%ld", &t, &r) == 2 && n < 256) { if (labs(t) > 32768 || labs(r) > 32768) bad("pluto:fir-tap", l); fir_taps[0][n] = t; fir_taps[1][n] = r; n++; continue; }
        bad("pluto:fir-syntax", l);
    }
    free(b);
    if ((rx != 1 && rx != 2 && rx != 4) || (tx != 1 && tx != 2 && tx != 4) || n % 16 || n < 16 || n > 128) { vh_viol("pluto:fir-config", "decimation %d, interpolation %d, %d taps", rx, tx, n); return -EINVAL; }
    fir_rx = rx; fir_tx = tx; fir_n = n;
    return (ssize_t) len;
}
static void f_enable(struct iio_channel *c) { if (chan_ok(c, "enable")) c->enabled = true; }
static void f_disable(struct iio_channel *c) { if (chan_ok(c, "disable")) c->enabled = false; }
static bool chan_enabled(int dev, const char *n) { for (int i = 0; i < nchans; i++) if (chans[i]->dev == dev && !strcmp(chans[i]->name, n) && chans[i]->enabled) return true; return false; }
static void refresh(struct iio_buffer *b, size_t samples) {
    // the memory moves with every transfer
    free(b->mem);
    b->alloc = samples;
    b->mem = __real_malloc(samples * 4 + (samples == 0));
    memset(b->mem, 0x5a, samples * 4);
}
static struct iio_buffer *f_buffer(const struct iio_device *d, size_t n, bool cyclic) {
    if (!dev_ok(d, "create_buffer") || failing("buffer")) return NULL;
    if (d->kind == PHY || cyclic) bad("pluto:buffer-kind", cyclic ? "cyclic" : "phy");
    if (!chan_enabled(d->kind, "voltage0") || !chan_enabled(d->kind, "voltage1")) bad("pluto:buffer-without-channels", "both channels have to be enabled first");
    if (n == 0) { errno = EINVAL; return NULL; }
    for (int i = 0; i < 8; i++) if (live[i] && live[i]->kind == d->kind) { bad("pluto:two-buffers", "of one direction"); }
    struct iio_buffer *b = calloc(1, sizeof(*b)); b->kind = d->kind; b->n = n; refresh(b, n); b->filled = n;
    for (int i = 0; i < 8; i++) if (!live[i]) { live[i] = b; break; }
    buffers++;
    return b;
}
static void f_buffer_destroy(struct iio_buffer *b) {
    if (!buf_ok(b, "destroy")) return;
    if (!ctx) bad("pluto:buffer-after-context", "");
    for (int i = 0; i < 8; i++) if (live[i] == b) live[i] = NULL;
    buffers--; free(b->mem); free(b);
}
static void *f_first(const struct iio_buffer *b, const struct iio_channel *c) { if (!buf_ok(b, "first") || !chan_ok(c, "first")) return NULL; if (c->dev != b->kind) bad("pluto:foreign-channel", c->name); return b->mem + (!strcmp(c->name, "voltage1") ? 2 : 0); }
static void *f_end(const struct iio_buffer *b) { return buf_ok(b, "end") ? b->mem + 4 * b->filled : NULL; }

static int16_t *sent; static size_t nsent, csent;
static ssize_t f_push(struct iio_buffer *b, size_t n) {
    if (!buf_ok(b, "push") || b->kind != TXD) { bad("pluto:push", "of another buffer"); return -EINVAL; }
    if (n == 0 || n > b->n) { vh_viol("pluto:push-size", "%zu samples, the buffer holds %zu", n, b->n); return -EINVAL; }
    pushes++;
    if (failing("push")) { dev_errors++; return -err_no; }
    if (nsent + 2 * n > csent) { csent = (nsent + 2 * n) * 2; sent = realloc(sent, csent * 2); }
    memcpy(sent + nsent, b->mem, n * 4); nsent += 2 * n;
    refresh(b, b->n);
    return (ssize_t) n * 4;
}
static vh_rng noise; static int16_t *air; static size_t nair, cair; static int fill_mode;
static ssize_t f_refill(struct iio_buffer *b) {
    if (!buf_ok(b, "refill") || b->kind != RXD) { bad("pluto:refill", "of another buffer"); return -EINVAL; }
    refills++;
    if (failing("refill")) { dev_errors++; return -err_no; }
    size_t n = fill_mode == 0 ? b->n : fill_mode == 1 ? vh_below(&noise, b->n + 1) : b->n + 1 + vh_below(&noise, 20);
    oversize = n > b->n;
    refresh(b, n); b->filled = n;
    int16_t *p = (int16_t *) b->mem;
    for (size_t i = 0; i < 2 * n; i++) p[i] = vh_below(&noise, 20) == 0 ? (int16_t[]) {0, 1, -1, 2047, -2048, 2048, 32767, -32768}[vh_below(&noise, 8)] : (int16_t) (vh_next(&noise) & 0xfff) - 2048;
    if (!oversize) {
        if (nair + 2 * n > cair) { cair = (nair + 2 * n) * 2; air = realloc(air, cair * 2); }
        memcpy(air + nair, p, n * 4); nair += 2 * n;
    } else overruns++;
    return (ssize_t) n * 4;
}

static iio_lib lib = {
    .iio_buffer_end = f_end, .iio_buffer_first = f_first, .iio_buffer_push_partial = f_push, .iio_buffer_refill = f_refill, .iio_context_find_device = f_device,
    .iio_device_find_channel = f_channel, .iio_strerror = f_strerror, .iio_channel_attr_write = f_attr, .iio_channel_attr_write_longlong = f_attr_ll,
    .iio_device_attr_write_bool = f_dev_bool, .iio_channel_attr_write_bool = f_attr_bool, .iio_channel_attr_write_double = f_attr_double, .iio_device_attr_write_raw = f_dev_raw,
    .iio_create_scan_context = f_scan, .iio_scan_context_get_info_list = f_info, .iio_scan_context_destroy = f_scan_destroy, .iio_context_info_get_uri = f_uri,
    .iio_create_context_from_uri = f_context, .iio_context_info_list_free = f_info_free, .iio_context_set_timeout = f_timeout, .iio_channel_enable = f_enable,
    .iio_device_create_buffer = f_buffer, .iio_buffer_destroy = f_buffer_destroy, .iio_channel_disable = f_disable, .iio_context_destroy = f_context_destroy};

// ------------------------------------------------------------------ sessions
struct want { bool rx, tx; struct stream_cfg rxc, txc; bool rx_only; unsigned timeout; uint32_t buf; };
static long last_calls = 0;
static struct stream_cfg *copy(const struct stream_cfg *c) { struct stream_cfg *r = __real_malloc(sizeof(*r)); *r = *c; return r; }

static int open_device(const struct want *w, sdr_device **d) {
    struct stream_cfg *r = w->rx ? copy(&w->rxc) : NULL, *t = w->tx ? copy(&w->txc) : NULL;
    *d = NULL; seen = 0; fired = 0;
    in_call = true;
    int code = plutosdr_create(7, w->rx_only, r, t, w->timeout, w->buf, &lib, d);
    in_call = false;
    last_calls = seen; calls_seen += seen; opens++;
    return code;
}
static void close_device(sdr_device *d) { d->destroy(d->plugin); free(d); }

static double fir_gain(int col, double f) {
    double complex h = 0; double dc = 0;
    for (int i = 0; i < fir_n; i++) { h += fir_taps[col][i] * cexp(-2 * M_PI * I * f * i); dc += fir_taps[col][i]; }
    return cabs(h) / fabs(dc);
}
static void check_fir(void) {
    for (int col = 0; col < 2; col++) {
        int dec = col == 0 ? fir_tx : fir_rx;
        for (double f = 0; f < 0.5; f += 0.003) {
            double g = fir_gain(col, f);
            if (f <= 0.4 / dec && (g < 0.8 || g > 1.2)) { vh_viol("pluto:fir-passband", "column %d: gain %g at %g of the rate", col, g, f * dec); return; }
            if (f >= 0.65 / dec && g > 0.03) { vh_viol("pluto:fir-stopband", "column %d: gain %g at %g of the rate", col, g, f * dec); return; }
        }
    }
}

static void check_direction(const struct stream_cfg *c, bool tx, bool faulty, const char *label) {
    const char *lo = tx ? "altvoltage1" : "altvoltage0";
#define CK(what, got, exp) do { double g_ = (got), e_ = (exp); if (!(fabs(g_ - e_) <= fabs(e_) * 1e-12)) vh_viol("pluto:" what, "%s: %g instead of %g (%s, fault at %s)", tx ? "tx" : "rx", g_, e_, label, faulty ? fired_at : "-"); } while (0)
    CK("frequency", num(PHY, lo, true, "frequency"), (double) c->center_freq);
    CK("rf_bandwidth", num(PHY, "voltage0", tx, "rf_bandwidth"), (double) c->sampling_freq);
    CK("sampling_frequency", num(PHY, "voltage0", tx, "sampling_frequency"), (double) c->sampling_freq);
    if (c->gain_control_mode == IIO_GAIN_MODE_MANUAL) {
        CK("hardwaregain", num(PHY, "voltage0", tx, "hardwaregain"), c->manual_gain);
        if (!tx && strcmp(text(PHY, "voltage0", false, "gain_control_mode"), "manual")) vh_viol("pluto:gain-mode", "%s instead of manual (%s)", text(PHY, "voltage0", false, "gain_control_mode"), label);
    } else {
        static const char *M[] = {"manual", "fast_attack", "slow_attack", "hybrid"};
        if (strcmp(text(PHY, "voltage0", tx, "gain_control_mode"), M[c->gain_control_mode])) vh_viol("pluto:gain-mode", "%s instead of %s (%s)", text(PHY, "voltage0", tx, "gain_control_mode"), M[c->gain_control_mode], label);
    }
    if (tx) {
        static const char *T[] = {"TX1_I_F1", "TX1_Q_F1", "TX1_I_F2", "TX1_Q_F2"};
        for (int i = 0; i < 4; i++) if (num(TXD, T[i], true, "raw") != 0) vh_viol("pluto:tone", "%s is not disabled (%s)", T[i], label);
        if (!faulty && num(PHY, lo, true, "powerdown") != 0) vh_viol("pluto:tx-powered-down", "%s", label);
    }
}

static void check_opened(const struct want *w, sdr_device *d, bool faulty, const char *label) {
    if (!d) { vh_viol("pluto:no-device", "%s", label); return; }
    // (the rate of both directions is the same in hardware: the last one wins)
    if (w->tx) check_direction(&w->txc, true, faulty, label);
    if (w->rx) check_direction(&w->rxc, false, faulty, label);
    double last = w->rx ? w->rxc.sampling_freq : w->txc.sampling_freq;
    if (rate != last) vh_viol("pluto:rate", "%g instead of %g (%s)", rate, last, label);
    if (fir_on != (last < 2083334 || (w->rx && w->tx && w->txc.sampling_freq < 2083334))) vh_viol("pluto:fir", "%s at a rate of %g (%s)", fir_on ? "on" : "off", last, label);
    if (fir_on) check_fir();
    if (timeout_ms != (long) w->timeout) vh_viol("pluto:timeout", "%ld instead of %u (%s)", timeout_ms, w->timeout, label);
    if (!faulty && w->rx && !w->tx && w->rx_only && num(PHY, "altvoltage1", true, "powerdown") != 1) vh_viol("pluto:rx-only", "the transmitter is not powered down (%s)", label);
    if (scans || infos) vh_viol("pluto:scan-leak", "%ld scans, %ld lists (%s, fault at %s)", scans, infos, label, faulty ? fired_at : "-");
    if (contexts != 1) vh_viol("pluto:contexts", "%ld", contexts);
}

static void check_released(long open, const char *label) {
    const char *at = fired ? fired_at : "-";
    if (scans || infos) { vh_viol("pluto:scan-leak", "%ld scans, %ld lists (%s, fault at %s)", scans, infos, label, at); scans = infos = 0; }
    if (contexts != (open > 0)) { vh_viol("pluto:context-life", "%ld contexts with %ld sessions open (%s, fault at %s)", contexts, open, label, at); }
    if (open == 0 && buffers) { vh_viol("pluto:buffer-leak", "%ld (%s, fault at %s)", buffers, label, at); }
}

static uint64_t a_rate(vh_rng *r) {
    static const uint64_t R[] = {520834, 520835, 600000, 1041666, 1041667, 1041668, 1500000, 2083333, 2083334, 2083335, 3000000, 30720000, 61440000};
    return vh_below(r, 2) ? R[vh_below(r, 13)] : vh_below(r, 2) ? 520834 + vh_below(r, 1600000) : 2083334 + vh_below(r, 59000000);
}
static struct stream_cfg a_cfg(vh_rng *r, bool tx) {
    struct stream_cfg c = {.sampling_freq = a_rate(r), .center_freq = vh_below(r, 4) == 0 ? 5999999999ULL : 70000000 + vh_below(r, 5900000000ULL), .gain_control_mode = tx ? 0 : (uint8_t) (vh_below(r, 2) ? 0 : vh_below(r, 4)),
                           .offset = vh_range(r, -5000, 5000), .manual_gain = (double[]) {0, -89.75, 71, 10.5, -0.25}[vh_below(r, 5)]};
    return c;
}
static struct want a_want(vh_rng *r) {
    struct want w = {0};
    int k = (int) vh_below(r, 5);
    w.rx = k != 1 && k != 2; w.tx = k == 1 || k == 2 || k == 4;
    w.rxc = a_cfg(r, false); w.txc = a_cfg(r, true);
    w.rx_only = !w.tx && vh_below(r, 2);
    w.timeout = (unsigned[]) {0, 1, 10000, UINT_MAX, 250}[vh_below(r, 5)];
    if (w.timeout == UINT_MAX) w.timeout = 4000000000U;
    w.buf = (uint32_t[]) {1, 2, 3, 7, 64, 1000, 4096}[vh_below(r, 7)];
    if (vh_below(r, 200) == 0) w.buf = 32000 + (uint32_t) vh_below(r, 100000);
    return w;
}

// ------------------------------------------------------------------ P01: samples
static bool conv_ok(float x, int16_t y) {
    double v = (double) x * 32768;
    if (isnan(v)) return true;
    if (v > 32767) v = 32767;
    if (v < -32768) v = -32768;
    return fabs(v - y) <= 0.5 + 1e-3;
}
static float a_value(vh_rng *r) {
    switch (vh_below(r, 12)) {
        case 0: return (float[]) {0, 1, -1, 0.5f, -0.5f, 1.0f / 32768, -1.0f / 32768, 0.99997f, 32767.0f / 32768, -0.0f}[vh_below(r, 10)];
        case 1: return (float) (vh_sym(r) * 3);
        case 2: return (float[]) {INFINITY, -INFINITY, NAN, 1e30f, -1e30f, 70000.0f, -65536.0f, 2, -2, 1.00001f, 1e-40f, 3e9f}[vh_below(r, 12)];
        default: return (float) vh_sym(r);
    }
}

static void tx_some(sdr_device *d, struct want *w, vh_rng *r, const char *label) {
    size_t n = vh_below(r, 6) == 0 ? 0 : vh_below(r, 4) == 0 ? 1 + vh_below(r, 6) * w->buf + vh_below(r, 3) : vh_below(r, 3) ? vh_below(r, 3 * (uint64_t) w->buf + 2) : vh_below(r, 3000);
    if (n > 20000 && n > 2 * (size_t) w->buf + 100) n = 20000;
    float complex *x = __real_malloc(n * 8 + (n == 0));
    for (size_t i = 0; i < n; i++) { float re = a_value(r), im = a_value(r); ((float *) x)[2 * i] = re; ((float *) x)[2 * i + 1] = im; }
    bool fail = vh_below(r, 6) == 0;
    nth = fail ? 1 + (long) vh_below(r, 4) : 0; persistent = false; seen = 0; fired = 0; err_no = (int[]) {EIO, ETIMEDOUT, EAGAIN, EPIPE}[vh_below(r, 4)];
    nsent = 0;
    in_call = true;
    int code = d->sdr_process_tx(x, n, d->plugin);
    in_call = false;
    nth = 0;
    if ((code != 0) != (fired > 0)) vh_viol(fired ? "tx:error-lost" : "tx:refused", "code %d for %zu samples, buffer %u (%s)", code, n, w->buf, label);
    if (!fired && nsent != 2 * n) vh_viol("tx:count", "%zu of %zu samples reached the device, buffer %u (%s)", nsent / 2, n, w->buf, label);
    if (nsent > 2 * n) vh_viol("tx:more", "%zu samples for %zu", nsent / 2, n);
    for (size_t i = 0; i < nsent && i < 2 * n; i++)
        if (!conv_ok(((float *) x)[i], sent[i])) { vh_viol("tx:value", "%s of sample %zu of %zu: %g became %d, buffer %u (%s)", i % 2 ? "Q" : "I", i / 2, n, ((float *) x)[i], sent[i], w->buf, label); break; }
    tx_values += (long) nsent;
    free(x);
}

static void rx_some(sdr_device *d, struct want *w, vh_rng *r, const char *label) {
    fill_mode = vh_below(r, 6) ? (int) vh_below(r, 2) : 2;
    bool fail = vh_below(r, 6) == 0;
    nth = fail ? 1 : 0; persistent = false; seen = 0; fired = 0; err_no = (int[]) {EIO, ETIMEDOUT, EAGAIN, EPIPE}[vh_below(r, 4)];
    nair = 0; oversize = false;
    float complex *o = (void *) 1; size_t l = 99999;
    in_call = true;
    int code = d->sdr_process_rx(&o, &l, d->plugin);
    in_call = false;
    nth = 0;
    if (fired || oversize) {
        if (code == 0 || l != 0 || o != NULL) vh_viol(oversize ? "rx:oversize-delivered" : "rx:error-lost", "code %d, %zu samples (%s)", code, l, label);
        return;
    }
    if (code != 0 || l != nair / 2) { vh_viol("rx:count", "code %d, %zu samples of %zu (%s)", code, l, nair / 2, label); return; }
    for (size_t i = 0; i < 2 * l; i++) {
        float g = ((float *) o)[i]; double e = air[i] / 2048.0;
        if (!(fabs(g - e) <= 1e-6 * fabs(e))) { vh_viol("rx:value", "%s of sample %zu: %d became %g (%s)", i % 2 ? "Q" : "I", i / 2, air[i], g, label); break; }
    }
    rx_values += (long) nair;
}

static void wrong_direction(sdr_device *d, struct want *w) {
    float complex x[2] = {0}, *o = (void *) 1; size_t l = 5; int code;
    if (!w->tx) { nsent = 0; in_call = true; code = d->sdr_process_tx(x, 1, d->plugin); in_call = false; if (code == 0) vh_viol("tx:without-transmitter", ""); }
    if (!w->rx) { in_call = true; code = d->sdr_process_rx(&o, &l, d->plugin); in_call = false; if (code == 0 || l != 0 || o) vh_viol("rx:without-receiver", "code %d, %zu samples", code, l); }
}
static void stopped(sdr_device *d) {
    d->stop_rx(d->plugin);
    float complex *o = (void *) 1; size_t l = 5;
    long before = refills;
    in_call = true; int code = d->sdr_process_rx(&o, &l, d->plugin); in_call = false;
    if (code == 0 || l != 0 || refills != before) vh_viol("rx:after-stop", "code %d, %zu samples, %ld refills", code, l, refills - before);
}

static void samples_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id);
    noise = vh_seed(seed, id + 1000000);
    struct want w = a_want(&r);
    vh_case("samples id=%lu rx=%d tx=%d buffer=%u", id, w.rx, w.tx, w.buf);
    nth = 0; sdr_device *d = NULL;
    char label[64]; snprintf(label, sizeof(label), "samples id=%lu", (unsigned long) id);
    if (open_device(&w, &d) != 0) { vh_viol("pluto:open-refused", "rates %lu %lu", w.rxc.sampling_freq, w.txc.sampling_freq); return; }
    for (int i = 0; i < 12; i++) {
        if (w.tx) tx_some(d, &w, &r, label);
        if (w.rx) rx_some(d, &w, &r, label);
    }
    wrong_direction(d, &w);
    if (w.rx) stopped(d);
    if (w.tx) tx_some(d, &w, &r, label);
    close_device(d);
    check_released(0, label);
    ev++; di++;
    if (id % 1000 < 2) vh_sample("rx=%d tx=%d buffer=%u", w.rx, w.tx, w.buf);
}

// ------------------------------------------------------------------ P02: set-up
// every call of a set-up fails once (for good or only that time), after every kind of history
static void setup_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id + 5000);
    noise = vh_seed(seed, id + 2000000);
    char label[96]; snprintf(label, sizeof(label), "setup id=%lu", (unsigned long) id);
    // history: a session of the past and one that goes on
    sdr_device *past = NULL, *other = NULL; struct want pw = a_want(&r), ow = a_want(&r), w = a_want(&r);
    nth = 0;
    vh_case("setup id=%lu past rx=%d/%lu tx=%d/%lu want rx=%d/%lu tx=%d/%lu buffer=%u", id, pw.rx, pw.rxc.sampling_freq, pw.tx, pw.txc.sampling_freq, w.rx, w.rxc.sampling_freq, w.tx, w.txc.sampling_freq, w.buf);
    if (vh_below(&r, 2) && open_device(&pw, &past) == 0) close_device(past);
    bool with_other = vh_below(&r, 2);
    if (with_other) {
        // the directions are never shared
        if (w.rx && w.tx) { if (vh_below(&r, 2)) w.rx = false; else w.tx = false; }
        ow.rx = w.tx; ow.tx = w.rx; ow.rx_only = false; w.rx_only = false;
        if (open_device(&ow, &other) != 0) { vh_viol("pluto:open-refused", "%s", label); return; }
    }
    char label2[192];
    for (int mode = 0; mode < 2; mode++) {
        long total = 0, calls_clean = 0;
        for (long k = 0; ; k++) {       // 0: no fault
            sdr_device *d = NULL;
            nth = k; persistent = mode; err_no = (int[]) {EIO, ENODEV, ETIMEDOUT, EINVAL}[vh_below(&r, 4)];
            struct attr keep[128]; int kn = nattrs; memcpy(keep, attrs, sizeof(keep));
            int code = open_device(&w, &d);
            if (k == 0) calls_clean = last_calls;
            bool was = fired > 0;
            nth = 0;
            snprintf(label2, sizeof(label2), "%s%s, call %ld%s%s", label, with_other ? " beside another session" : "", k, fired ? " failed: " : "", fired ? fired_at : "");
            if (k == 0 && code != 0) { vh_viol("pluto:open-refused", "code %d, rates %lu %lu, %s", code, w.rxc.sampling_freq, w.txc.sampling_freq, label2); break; }
            if (k > 0 && fired) faults++;
            if (code == 0) {
                check_opened(&w, d, was, label2);
                if (w.tx) tx_some(d, &w, &r, label2);
                if (w.rx) rx_some(d, &w, &r, label2);
                if (d) close_device(d);
            } else {
                if (d != NULL) vh_viol("pluto:device-with-error", "%s", label2);
                refused++;
            }
            check_released(with_other, label2);
            if (with_other) {
                // the other direction is not touched (the rate and the filter are common)
                for (int i = 0; i < kn; i++) {
                    bool tx_side = keep[i].dev == TXD || (keep[i].dev == PHY && (!strcmp(keep[i].chan, "altvoltage1") || (!strcmp(keep[i].chan, "voltage0") && keep[i].out)));
                    if (tx_side == ow.tx && strcmp(keep[i].name, "sampling_frequency") && strcmp(keep[i].s, attrs[i].s))
                        vh_viol("pluto:other-direction", "%s %s of the other direction changed from %s to %s (%s)", keep[i].chan, keep[i].name, keep[i].s, attrs[i].s, label2);
                }
                if (ow.tx) tx_some(other, &ow, &r, label2); else rx_some(other, &ow, &r, label2);
            }
            ev++; di += code != 0;
            if (k == 0) total = calls_clean;
            if (k > 0 && k >= total) break;
        }
    }
    if (with_other) { close_device(other); }
    check_released(0, label);
}

// what cannot be set up is refused, and everything is released
static void refuse_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id + 9000);
    struct want w = a_want(&r); sdr_device *d = NULL;
    const char *why = "";
    nth = 0;
    none_found = false;
    switch (vh_below(&r, 4)) {
        case 0: w.rx = w.tx = false; why = "no configuration"; break;
        case 1: { uint64_t low = (uint64_t[]) {0, 1, 48000, 520833, 520000, 300000}[vh_below(&r, 6)]; why = "rate too low"; if (w.rx && (!w.tx || vh_below(&r, 2))) w.rxc.sampling_freq = low; else w.txc.sampling_freq = low; break; }
        case 2: why = "gain mode"; if (w.rx) w.rxc.gain_control_mode = 4 + (uint8_t) vh_below(&r, 252); else w.txc.gain_control_mode = 4 + (uint8_t) vh_below(&r, 252); break;
        case 3: why = "no device"; none_found = true; break;
    }
    vh_case("refuse id=%lu %s", id, why);
    if (open_device(&w, &d) == 0) { vh_viol("pluto:accepted", "%s: rates %lu %lu, gain mode %d %d", why, w.rxc.sampling_freq, w.txc.sampling_freq, w.rxc.gain_control_mode, w.txc.gain_control_mode); close_device(d); }
    none_found = false;
    check_released(0, why);
    ev++; di++;
}

// any order of opening and closing both directions, some attempts fail
static void history_case(uint64_t seed, uint64_t id) {
    vh_rng r = vh_seed(seed, id + 12000);
    noise = vh_seed(seed, id + 3000000);
    sdr_device *d[2] = {0}; struct want w[2]; char label[96];
    int n = 5 + (int) vh_below(&r, 40);
    for (int i = 0; i < n; i++) {
        int k = (int) vh_below(&r, 2);
        snprintf(label, sizeof(label), "history id=%lu step %d", (unsigned long) id, i);
        vh_case("%s", label);
        if (!d[k]) {
            w[k] = a_want(&r); w[k].rx = k == 0; w[k].tx = k == 1; w[k].rx_only = k == 0 && !d[1];
            nth = vh_below(&r, 3) == 0 ? 1 + (long) vh_below(&r, 40) : 0; persistent = vh_below(&r, 2); err_no = EIO;
            int code = open_device(&w[k], &d[k]);
            bool was = fired > 0;
            nth = 0;
            if (code != 0 && !was) vh_viol("pluto:open-refused", "%s", label);
            if (code == 0) check_opened(&w[k], d[k], was, label); else d[k] = NULL;
        } else if (vh_below(&r, 3) == 0) {
            if (k == 0 && vh_below(&r, 2)) stopped(d[0]);
            close_device(d[k]); d[k] = NULL;
        } else if (k) tx_some(d[1], &w[1], &r, label);
        else rx_some(d[0], &w[0], &r, label);
        check_released((d[0] != NULL) + (d[1] != NULL), label);
        ev++;
    }
    for (int k = 0; k < 2; k++) if (d[k]) { close_device(d[k]); d[k] = NULL; check_released((d[1] != NULL), label); }
    check_released(0, label);
    di++;
}

int main(int argc, char **argv) {
    const char *mode = argv[1];
    sent = calloc(csent = 16, 2); air = calloc(cair = 16, 2);
    uint64_t seed = (uint64_t) vh_arg(argc, argv, 2, 1);
    long from = vh_arg(argc, argv, 3, 0), n = vh_arg(argc, argv, 4, 10);
    for (long i = from; i < from + n; i++) {
        if (!strcmp(mode, "samples")) samples_case(seed, i);
        else { setup_case(seed, i); refuse_case(seed, i); history_case(seed, i); }
    }
    free(sent); free(air);
    vh_ev("evaluations", ev); vh_ev("distinct", di); vh_ev("device_calls", calls_seen); vh_ev("devices_opened", opens); vh_ev("faults", faults); vh_ev("refused", refused);
    vh_ev("pushes", pushes); vh_ev("refills", refills); vh_ev("values_sent", tx_values); vh_ev("values_received", rx_values); vh_ev("device_errors", dev_errors); vh_ev("oversized_refills", overruns);
    vh_done();
    return 0;
}
