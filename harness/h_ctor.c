// S13: every constructor, with each of its resource operations failing once (or several in a row).  The constructor must
// report the failure or give a working object; nothing may be left allocated either way.  Sanitizers watch the clean-up.
#include "vh.h"
#include "srv_ctl.h"
#include "dsp/lpf.h"
#include "dsp/clock_recovery_mm.h"
#include "dsp/quadrature_demod.h"
#include "dsp/dc_blocker.h"
#include "dsp/fsk_demod.h"
#include "dsp/gfsk_mod.h"
#include "dsp/gaussian_taps.h"
#include "dsp/frequency_modulator.h"
#include "dsp/mmse_fir_interpolator.h"
#include "dsp/sig_source.h"
#include "dsp/doppler.h"
#include "sdr/file_source.h"
#include "sdr/plutosdr.h"
#include "sdr/iio_lib.h"
#include "server_config.h"
#include "dsp_worker.h"
#include "tcp_server.h"
#include "queue.h"
#include "linked_list.h"
#include "api.pb-c.h"
#include <dirent.h>
#include <sys/socket.h>
#include <unistd.h>

size_t __sanitizer_get_current_allocated_bytes(void);
int __lsan_do_recoverable_leak_check(void);

static const char *dir;
static char path_in[512], path_out[512], path_conf[512];
static iio_lib *iio;
static char tle[3][80];
static long ev, op_count, bad_ok;

static float fin[256]; static float complex cin[256]; static uint8_t bin[16];
#define USE(p, n) do { volatile unsigned char s = 0; for (size_t q = 0; q < (n) * sizeof(*(p)); q++) s ^= ((unsigned char *) (p))[q]; (void) s; } while (0)

static int c_lpf_f(vh_rng *r) { lpf *o; int c = lpf_create(1 + vh_below(r, 4), 48000, 2000 + vh_below(r, 8000), 1000 + vh_below(r, 3000), 200, sizeof(float), &o); if (c) return c; void *x; size_t n; lpf_process(fin, 200, &x, &n, o); USE((float *) x, n); lpf_destroy(o); return 0; }
static int c_lpf_c(vh_rng *r) { lpf *o; int c = lpf_create(1 + vh_below(r, 4), 48000, 2000 + vh_below(r, 8000), 1000 + vh_below(r, 3000), 200, sizeof(float complex), &o); if (c) return c; void *x; size_t n; lpf_process(cin, 200, &x, &n, o); USE((float complex *) x, n); lpf_destroy(o); return 0; }
static int c_gauss(vh_rng *r) { float *t; int c = gaussian_taps_create(1, 5, 0.5, 12 + vh_below(r, 30), &t); if (c) return c; USE(t, 12); free(t); return 0; }
static int c_fmod(vh_rng *r) { frequency_modulator *o; int c = frequency_modulator_create(0.3f, 200, &o); if (c) return c; float complex *x; size_t n; frequency_modulator_process(fin, 200, &x, &n, o); USE(x, n); frequency_modulator_destroy(o); return 0; }
static int c_gfsk(vh_rng *r) { gfsk_mod *o; int c = gfsk_mod_create(1 + vh_below(r, 9), 0.3f, 0.5f, 16, &o); if (c) return c; float complex *x; size_t n; gfsk_mod_process(bin, 16, &x, &n, o); USE(x, n); gfsk_mod_destroy(o); return 0; }
static int c_quad(vh_rng *r) { quadrature_demod *o; int c = quadrature_demod_create(1, 200, &o); if (c) return c; float *x; size_t n; quadrature_demod_process(cin, 200, &x, &n, o); USE(x, n); quadrature_demod_destroy(o); return 0; }
static int c_mmse(vh_rng *r) { mmse_fir_interpolator *o; int c = mmse_fir_interpolator_create(&o); if (c) return c; volatile float x = mmse_fir_interpolator_process(fin, 0.3f, o); (void) x; mmse_fir_interpolator_destroy(o); return 0; }
static int c_clock(vh_rng *r) { clock_mm *o; int c = clock_mm_create(2 + vh_unit(r) * 8, 0.03f, 0.5f, 0.175f, 0.005f, 200, &o); if (c) return c; float *x; size_t n; clock_mm_process(fin, 200, &x, &n, o); USE(x, n); clock_mm_destroy(o); return 0; }
static int c_dc(vh_rng *r) { dc_blocker *o; int c = dc_blocker_create(2 + vh_below(r, 60), &o); if (c) return c; float *x; size_t n; float t[200]; memcpy(t, fin, sizeof(t)); dc_blocker_process(t, 200, &x, &n, o); USE(x, n); dc_blocker_destroy(o); return 0; }
static int c_fsk(vh_rng *r) { fsk_demod *o; int c = fsk_demod_create(48000, 4800, 5000, 1 + vh_below(r, 2), 2000, vh_below(r, 2), 200, &o); if (c) return c; int8_t *x; size_t n; fsk_demod_process(cin, 200, &x, &n, o); USE(x, n); fsk_demod_destroy(o); return 0; }
static int c_sig(vh_rng *r) { sig_source *o; int c = sig_source_create(1, 48000, 200, &o); if (c) return c; float complex *x; size_t n; sig_source_process(100, 200, &x, &n, o); USE(x, n); sig_source_destroy(o); return 0; }
static int c_doppler(vh_rng *r) { doppler *o; int c = doppler_create(53.72, 47.57, 0, 48000, 437525000, vh_below(r, 2) ? 100 : 0, 1583840449, 200, tle, &o); if (c) return c; float complex *x; size_t n; float complex t[200]; memcpy(t, cin, sizeof(t)); doppler_process_rx(t, 200, &x, &n, o); USE(x, n); doppler_destroy(o); return 0; }
static int c_queue(vh_rng *r) { queue *o; int c = create_queue(200, 1 + vh_below(r, 9), vh_below(r, 2), &o); if (c) return c; queue_put(cin, 200, o); float complex *x; size_t n; take_buffer_for_processing(&x, &n, o); USE(x, n); complete_buffer_processing(o); interrupt_waiting_the_data(o); destroy_queue(o); return 0; }
static int seen;
static void l_each(void *arg, void *d) { seen++; }
static void l_free(void *d) { free(d); }
static int c_list(vh_rng *r) {
    linked_list *l = NULL; int c = 0, n = 0, k = 1 + (int) vh_below(r, 6);
    for (int i = 0; i < k && c == 0; i++) { char *d = malloc(3); if (d == NULL) { c = -1; break; } c = linked_list_add(d, l_free, &l); if (c) free(d); else n++; }
    seen = 0; linked_list_foreach(NULL, l_each, l);
    if (seen != n) vh_viol("list", "%d elements after %d additions", seen, n);
    if (l) linked_list_destroy(l);
    return c;
}
static int dev_use(sdr_device *d, int rx, int tx) {
    float complex *x; size_t n;
    if (rx) { int c = d->sdr_process_rx(&x, &n, d->plugin); if (c == 0) USE(x, n); d->stop_rx(d->plugin); }
    if (tx) d->sdr_process_tx(cin, 200, d->plugin);
    d->destroy(d->plugin); free(d);
    return 0;
}
static int c_file_rx(vh_rng *r) { sdr_device *d; int c = file_source_create(1, path_in, NULL, 48000, vh_below(r, 2) ? 0 : 1000, 200, &d); return c ? c : dev_use(d, 1, 0); }
static int c_file_tx(vh_rng *r) { sdr_device *d; int c = file_source_create(1, NULL, path_out, 48000, vh_below(r, 2) ? 0 : 1000, 200, &d); return c ? c : dev_use(d, 0, 1); }
static int c_file_both(vh_rng *r) { sdr_device *d; int c = file_source_create(1, path_in, path_out, 48000, 1000, 200, &d); return c ? c : dev_use(d, 1, 1); }
static struct stream_cfg *cfg(vh_rng *r) {
    static const uint64_t R[] = {600000, 1000000, 1500000, 3000000};
    struct stream_cfg *s = malloc(sizeof(*s));
    if (s) *s = (struct stream_cfg) {.sampling_freq = R[vh_below(r, 4)], .center_freq = 437525000, .gain_control_mode = vh_below(r, 4), .manual_gain = 10};
    return s;
}
static int c_pluto_rx(vh_rng *r) { struct stream_cfg *s = cfg(r); if (!s) return -1; sdr_device *d; int c = plutosdr_create(1, vh_below(r, 2), s, NULL, 1000, 200, iio, &d); return c ? c : dev_use(d, 1, 0); }
static int c_pluto_tx(vh_rng *r) { struct stream_cfg *s = cfg(r); if (!s) return -1; sdr_device *d; int c = plutosdr_create(1, false, NULL, s, 1000, 200, iio, &d); return c ? c : dev_use(d, 0, 1); }
static int c_pluto_two(vh_rng *r) {
    // the context is shared
    sdr_device *a, *b; struct stream_cfg *s = cfg(r); if (!s) return -1;
    int c = plutosdr_create(1, false, s, NULL, 1000, 200, iio, &a); if (c) return c;
    s = cfg(r); if (!s) { dev_use(a, 1, 0); return -1; }
    c = plutosdr_create(2, false, NULL, s, 1000, 200, iio, &b);
    if (c == 0) { if (vh_below(r, 2)) { dev_use(a, 1, 0); dev_use(b, 0, 1); } else { dev_use(b, 0, 1); dev_use(a, 1, 0); } } else dev_use(a, 1, 0);
    return c;
}
static int c_iio(vh_rng *r) { iio_lib *l; int c = iio_lib_create(&l); if (c) return c; iio_lib_destroy(l); return 0; }
static int c_conf(vh_rng *r) { struct server_config *s; int c = server_config_create(&s, path_conf); if (c) return c; if (s->bind_address == NULL || s->base_path == NULL) vh_viol("config", "a string is missing"); server_config_destroy(s); return 0; }
static struct server_config sc;
static int c_dsp(vh_rng *r) {
    // takes part in threads: not in the exact comparison
    int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) return -1;
    RxRequest q = RX_REQUEST__INIT; FskDemodulationSettings f = FSK_DEMODULATION_SETTINGS__INIT; DopplerSettings dp = DOPPLER_SETTINGS__INIT; FileSettings fl = FILE_SETTINGS__INIT;
    char *t[3] = {tle[0], tle[1], tle[2]}; dp.n_tle = 3; dp.tle = t; dp.latitude = 537200000; dp.longitude = 475700000;
    fl.start_time_seconds = 1583840449; fl.filename = path_in;
    f.demod_fsk_deviation = 5000; f.demod_fsk_transition_width = 2000; f.demod_fsk_use_dc_block = 1;
    q.rx_center_freq = 437525000; q.rx_sampling_freq = 48000; q.rx_dump_file = vh_below(r, 2); q.demod_type = MODEM_TYPE__GMSK; q.demod_baud_rate = 4800; q.demod_decimation = 1;
    q.demod_destination = vh_below(r, 3); q.fsk_settings = &f; q.file_settings = &fl; if (vh_below(r, 2)) q.doppler = &dp;
    dsp_worker *w; int c = dsp_worker_create(7, sp[0], &sc, &q, &w);
    if (c == 0) { dsp_worker_put(cin, 200, w); dsp_worker_destroy(w); }
    close(sp[0]); close(sp[1]);
    return c;
}
static int c_server(vh_rng *r) { tcp_server *s; sc.port = 30000 + getpid() % 20000; int c = tcp_server_create(&sc, &s); if (c) return c; tcp_server_destroy(s); tcp_server_join_thread(s); return 0; }

static struct { const char *name; int (*fn)(vh_rng *); bool threads; } C[] = {
    {"lpf_float", c_lpf_f}, {"lpf_complex", c_lpf_c}, {"gaussian_taps", c_gauss}, {"frequency_modulator", c_fmod}, {"gfsk_mod", c_gfsk}, {"quadrature_demod", c_quad}, {"mmse_interpolator", c_mmse},
    {"clock_mm", c_clock}, {"dc_blocker", c_dc}, {"fsk_demod", c_fsk}, {"sig_source", c_sig}, {"doppler", c_doppler}, {"queue", c_queue}, {"linked_list", c_list},
    {"file_rx", c_file_rx}, {"file_tx", c_file_tx}, {"file_both", c_file_both}, {"plutosdr_rx", c_pluto_rx}, {"plutosdr_tx", c_pluto_tx}, {"plutosdr_two", c_pluto_two}, {"iio_lib", c_iio},
    {"server_config", c_conf}, {"dsp_worker", c_dsp, true}, {"tcp_server", c_server, true}};

static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

int main(int argc, char **argv) {
    uint64_t seed = vh_arg(argc, argv, 1, 1); long from = vh_arg(argc, argv, 2, 0), step = vh_arg(argc, argv, 3, 1), variants = vh_arg(argc, argv, 4, 2), maxn = vh_arg(argc, argv, 5, 150);
    dir = argv[6];
    snprintf(path_in, sizeof(path_in), "%s/in.cf32", dir); snprintf(path_out, sizeof(path_out), "%s/out.cf32", dir); snprintf(path_conf, sizeof(path_conf), "%s/c.conf", dir);
    vh_rng r0 = vh_seed(seed, 99);
    for (int i = 0; i < 256; i++) { fin[i] = vh_sym(&r0); cin[i] = vh_sym(&r0) + I * vh_sym(&r0); }
    FILE *f = fopen(path_in, "wb"); fwrite(cin, sizeof(*cin), 256, f); fclose(f);
    f = fopen(path_conf, "w"); fprintf(f, "bind_address=\"127.0.0.1\"\nport=1234\nbase_path=\"%s\"\nrx_sdr_type=\"plutosdr\"\ntx_sdr_type=\"plutosdr\"\n", dir); fclose(f);
    static const char *T[] = {"LUCKY-7", "1 44406U 19038W   20069.88080907  .00000505  00000-0  32890-4 0  9992", "2 44406  97.5270  32.5584 0026284 107.4758 252.9348 15.12089395 37524"};
    for (int i = 0; i < 3; i++) strcpy(tle[i], T[i]);
    sc = (struct server_config) {.bind_address = argv[7], .buffer_size = 200, .queue_size = 4, .read_timeout_seconds = 2, .base_path = (char *) dir, .rx_sdr_type = RX_SDR_TYPE_FILE, .tx_sdr_type = TX_SDR_TYPE_FILE};
    if (iio_lib_create(&iio) != 0) vh_setup_failed("iio");
    struct srv_ctl *ctl = srv_ctl_get();
    ctl->kinds = F_ALLOC | F_THREAD | F_FILE | F_FWRITE | F_SOCKET | F_IIO;
    int n = sizeof(C) / sizeof(*C);
    for (long i = from; i < n; i += step) {
        for (long v = 0; v < variants; v++) {
            vh_case("%s variant %ld", C[i].name, v);
            for (int w = 0; w < 2; w++) {
                vh_rng r = vh_seed(seed, i * 1000 + v);
                ctl->nth = 0xffffffff; ctl->seen = ctl->fired = 0; ctl->burst = 0; ctl->armed = 1;
                int c = C[i].fn(&r);
                ctl->armed = 0;
                if (c != 0) { vh_viol("normal", "%s (variant %ld): %d although nothing failed", C[i].name, v, c); goto next; }
            }
            {
                uint32_t total = ctl->seen; op_count += total;
                int d0 = fds(); size_t h0 = __sanitizer_get_current_allocated_bytes();
                vh_rng rs = vh_seed(seed, i * 7777 + v);
                for (uint32_t k = 1; k <= total; k++) {
                    // of the many equal allocations in the middle a sample
                    if (total > maxn && k > maxn / 3 && k + maxn / 3 < total && vh_below(&rs, total) > maxn / 3) continue;
                    for (int burst = 0; burst < 3; burst++) {
                        vh_rng r = vh_seed(seed, i * 1000 + v);
                        ctl->nth = k; ctl->seen = ctl->fired = 0; ctl->burst = burst == 0 ? 0 : burst == 1 ? 2 : 1000000; ctl->armed = 1;
                        int c = C[i].fn(&r);
                        ctl->armed = 0;
                        ev++;
                        if (c == 0) bad_ok++;
                        size_t h = __sanitizer_get_current_allocated_bytes(); int d = fds();
                        if (d != d0) { vh_viol("descriptors", "%s: operation %u (%s) failed%s: %d descriptors left open", C[i].name, k, ctl->name, burst ? " with the following" : "", d - d0); goto next; }
                        if (!C[i].threads && h != h0) { vh_viol("leak", "%s: operation %u (%s) failed%s, result %d: %ld bytes left", C[i].name, k, ctl->name, burst ? " with the following" : "", c, (long) (h - h0)); goto next; }
                    }
                }
                if (C[i].threads && __lsan_do_recoverable_leak_check()) { vh_viol("leak", "%s: memory leaked", C[i].name); goto next; }
                // and it works again
                vh_rng r = vh_seed(seed, i * 1000 + v);
                int c = C[i].fn(&r);
                if (c != 0) vh_viol("afterwards", "%s: %d although nothing fails anymore", C[i].name, c);
            }
            next:;
        }
    }
    iio_lib_destroy(iio);
    vh_ev("evaluations", ev); vh_ev("distinct", ev - bad_ok); vh_ev("constructor_operations", op_count); vh_ev("constructor_faults", ev);
    vh_done();
    return 0;
}
