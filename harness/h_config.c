// Loads configuration files named on stdin and prints what was understood.  Public interface only.
#define _GNU_SOURCE
#include "vh.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include "server_config.h"
#include "sdr/iio_lib.h"

static int opened, closed, missing;
void *__real_dlsym(void *h, const char *n);
void *__wrap_dlsym(void *h, const char *n) { void *r = __real_dlsym(h, n); if (r == NULL) missing++; return r; }
void *__real_dlopen(const char *f, int m);
int __real_dlclose(void *h);
void *__wrap_dlopen(const char *f, int m) { void *r = __real_dlopen(f, m); if (r) opened++; return r; }
int __wrap_dlclose(void *h) { closed++; return __real_dlclose(h); }

static FILE *res;
static void str(const char *name, const char *s) {
    if (s == NULL) { fprintf(res, " %s=null", name); return; }
    fprintf(res, " %s=x", name);
    for (; *s; s++) fprintf(res, "%02x", (unsigned char) *s);
}

int main(int argc, char **argv) {
    res = fdopen(dup(1), "w");
    // what the program prints is of no interest
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    char line[4096];
    while (fgets(line, sizeof(line), stdin)) {
        line[strcspn(line, "\n")] = 0;
        struct server_config *c = NULL;
        missing = 0;
        fprintf(res, "AT %s\n", line); fflush(res);
        int code = server_config_create(&c, line);
        if (code != 0) {
            fprintf(res, "R %s refused %d%s\n", line, code, c != NULL ? " kept" : "");
        } else if (c == NULL) {
            fprintf(res, "R %s nothing\n", line);
        } else {
            fprintf(res, "R %s ok", line);
            str("bind_address", c->bind_address); str("base_path", c->base_path);
            str("rx_file_base_path", c->rx_file_base_path); str("tx_file_base_path", c->tx_file_base_path);
            str("rx_sdr_server_address", c->rx_sdr_server_address);
            fprintf(res, " port=%ld read_timeout_seconds=%ld buffer_size=%ld queue_size=%ld rx_sdr_type=%ld rx_sdr_server_port=%ld tx_sdr_type=%ld tx_plutosdr_timeout_millis=%lu tx_plutosdr_gain=%.17g rx_plutosdr_gain=%.17g",
                    (long) c->port, (long) c->read_timeout_seconds, (long) c->buffer_size, (long) c->queue_size, (long) c->rx_sdr_type, (long) c->rx_sdr_server_port,
                    (long) c->tx_sdr_type, (unsigned long) c->tx_plutosdr_timeout_millis, c->tx_plutosdr_gain, c->rx_plutosdr_gain);
            fprintf(res, " iio=%d missing=%d\n", c->iio != NULL, missing);
            server_config_destroy(c);
        }
        fflush(res);
    }
    fprintf(res, "LIBS %d %d\nDONE\n", opened, closed);
    fflush(res);
    return 0;
}
