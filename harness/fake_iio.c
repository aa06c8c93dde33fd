// Stand-in for libiio: a PlutoSDR whose transmitted samples are written to a file and whose received samples come from
// a file (zeros after its end).  Every acquire/release/configuration is logged.  FAKE_IIO names its directory.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>

struct iio_context { int magic; };
struct iio_scan_context { int magic; };
struct iio_context_info { int magic; };
struct iio_device { int kind; };
struct iio_channel { int dev; char name[32]; bool out; };
struct iio_buffer { int kind; size_t n; int16_t *data; size_t filled; };

static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static int log_fd = -1, tx_fd = -1, rx_fd = -1;
static struct iio_device devs[3] = {{1}, {2}, {3}};
static struct iio_channel chans[64];
static int nchans;
static int (*fault)(uint32_t, const char *);

static const char *path(const char *n, char *b, size_t l) { const char *d = getenv("FAKE_IIO"); snprintf(b, l, "%s/%s", d ? d : "/nonexistent", n); return b; }
static void lg(const char *fmt, ...) {
    char b[512], p[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof(b) - 1, fmt, ap); va_end(ap);
    b[n++] = '\n';
    pthread_mutex_lock(&m);
    if (log_fd < 0) log_fd = open(path("log", p, sizeof(p)), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (log_fd >= 0) { ssize_t r = write(log_fd, b, n); (void) r; }
    if (fault == NULL) fault = dlsym(RTLD_DEFAULT, "srv_fault");
    pthread_mutex_unlock(&m);
}
static bool failing(const char *what) {
    if (fault != NULL && fault(!strcmp(what, "refill") ? 128 : 64, what)) { lg("failed %s", what); errno = EIO; return true; }
    // "fail" holds: operation name and how many more of its calls succeed
    char p[512], b[128] = {0}; int fd = open(path("fail", p, sizeof(p)), O_RDWR | O_CLOEXEC);
    if (fd < 0) return false;
    bool r = false; char name[64] = {0}; long left = 0, times = 0;
    if (read(fd, b, sizeof(b) - 1) > 0 && sscanf(b, "%63s %ld %ld", name, &left, &times) == 3 && !strcmp(name, what)) {
        if (left > 0) left--; else if (times > 0) { times--; r = true; }
        int n = snprintf(b, sizeof(b), "%s %ld %ld\n                ", name, left, times);
        ssize_t w = pwrite(fd, b, n, 0); (void) w;
    }
    close(fd);
    if (r) { lg("failed %s", what); errno = EIO; }
    return r;
}

struct iio_scan_context *iio_create_scan_context(const char *b, unsigned f) { if (failing("scan")) return NULL; struct iio_scan_context *s = calloc(1, sizeof(*s)); lg("acquire scan"); return s; }
ssize_t iio_scan_context_get_info_list(struct iio_scan_context *c, struct iio_context_info ***i) { if (failing("info")) return -EIO; *i = calloc(2, sizeof(void *)); (*i)[0] = calloc(1, sizeof(struct iio_context_info)); lg("acquire info"); return 1; }
void iio_scan_context_destroy(struct iio_scan_context *c) { lg("release scan"); free(c); }
const char *iio_context_info_get_uri(const struct iio_context_info *i) { return "fake:"; }
struct iio_context *iio_create_context_from_uri(const char *u) { if (failing("context")) return NULL; lg("acquire context"); return calloc(1, sizeof(struct iio_context)); }
void iio_context_info_list_free(struct iio_context_info **i) { lg("release info"); free(i[0]); free(i); }
int iio_context_set_timeout(struct iio_context *c, unsigned t) { if (failing("timeout")) return -EIO; lg("timeout %u", t); return 0; }
void iio_context_destroy(struct iio_context *c) { lg("release context"); free(c); }
struct iio_device *iio_context_find_device(const struct iio_context *c, const char *n) {
    if (failing("device")) return NULL;
    return !strcmp(n, "ad9361-phy") ? &devs[0] : !strcmp(n, "cf-ad9361-dds-core-lpc") ? &devs[1] : !strcmp(n, "cf-ad9361-lpc") ? &devs[2] : NULL;
}
struct iio_channel *iio_device_find_channel(const struct iio_device *d, const char *n, bool out) {
    if (failing("channel")) return NULL;
    pthread_mutex_lock(&m);
    struct iio_channel *r = NULL;
    for (int i = 0; i < nchans; i++) if (chans[i].dev == d->kind && chans[i].out == out && !strcmp(chans[i].name, n)) r = &chans[i];
    if (r == NULL && nchans < 64) { r = &chans[nchans++]; r->dev = d->kind; r->out = out; snprintf(r->name, sizeof(r->name), "%s", n); }
    pthread_mutex_unlock(&m);
    return r;
}
void iio_strerror(int e, char *d, size_t l) { snprintf(d, l, "error %d", e); }
#define W(f, v) if (failing("attr")) return -EIO; lg("attr dev%d %s%s %s=" f, c->dev, c->out ? "out:" : "in:", c->name, a, v)
ssize_t iio_channel_attr_write(const struct iio_channel *c, const char *a, const char *v) { W("%s", v); return strlen(v) + 1; }
int iio_channel_attr_write_longlong(const struct iio_channel *c, const char *a, long long v) { W("%lld", v); return 0; }
int iio_channel_attr_write_bool(const struct iio_channel *c, const char *a, bool v) { W("%d", v); return 0; }
int iio_channel_attr_write_double(const struct iio_channel *c, const char *a, double v) { W("%g", v); return 0; }
int iio_device_attr_write_bool(const struct iio_device *d, const char *a, bool v) { if (failing("attr")) return -EIO; lg("attr dev%d %s=%d", d->kind, a, v); return 0; }
ssize_t iio_device_attr_write_raw(const struct iio_device *d, const char *a, const void *s, size_t l) { if (failing("attr")) return -EIO; lg("attr dev%d %s raw %zu", d->kind, a, l); return l; }
void iio_channel_enable(struct iio_channel *c) { lg("acquire channel dev%d %s", c->dev, c->name); }
void iio_channel_disable(struct iio_channel *c) { lg("release channel dev%d %s", c->dev, c->name); }
struct iio_buffer *iio_device_create_buffer(const struct iio_device *d, size_t n, bool cyc) {
    if (failing("buffer")) return NULL;
    char p[512];
    struct iio_buffer *b = calloc(1, sizeof(*b)); b->kind = d->kind; b->n = n; b->data = calloc(n ? n : 1, 4);
    pthread_mutex_lock(&m);
    if (d->kind == 2 && tx_fd < 0) tx_fd = open(path("tx", p, sizeof(p)), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (d->kind == 3) { if (rx_fd >= 0) close(rx_fd); rx_fd = open(path("rx", p, sizeof(p)), O_RDONLY | O_CLOEXEC); }
    pthread_mutex_unlock(&m);
    lg("acquire buffer dev%d %zu", d->kind, n);
    return b;
}
void iio_buffer_destroy(struct iio_buffer *b) {
    // a device takes its time to stop
    const char *slow = getenv("FAKE_IIO_SLOW_MS");
    if (slow) usleep(1000 * atoi(slow));
    lg("release buffer dev%d", b->kind); free(b->data); free(b); }
void *iio_buffer_first(const struct iio_buffer *b, const struct iio_channel *c) { return b->data; }
void *iio_buffer_end(const struct iio_buffer *b) { return b->data + 2 * (b->kind == 3 ? b->filled : b->n); }
ssize_t iio_buffer_push_partial(struct iio_buffer *b, size_t n) {
    if (failing("push")) return -EIO;
    if (n > b->n) { lg("overrun push %zu of %zu", n, b->n); return -EINVAL; }
    size_t left = n * 4; char *p = (char *) b->data;
    while (left > 0) { ssize_t w = write(tx_fd, p, left); if (w <= 0) break; p += w; left -= w; }
    return n * 4;
}
ssize_t iio_buffer_refill(struct iio_buffer *b) {
    if (failing("refill")) return -EIO;
    size_t got = 0, want = b->n * 4;
    while (got < want) { ssize_t r = rx_fd >= 0 ? read(rx_fd, (char *) b->data + got, want - got) : 0; if (r <= 0) break; got += r; }
    memset((char *) b->data + got, 0, want - got);
    if (got < want) { struct timespec t = {0, 20000000}; nanosleep(&t, NULL); }
    b->filled = b->n;
    return want;
}
