// Linked into the server under test.  Interposes (ld --wrap) the resource operations of the server so that a control
// file shared with the check can make one of them fail, delay them, and observe the state of the process.
// The control file is named by SRV_CTL; without it everything is passed through.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <protobuf-c/protobuf-c.h>
#include "srv_ctl.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAP() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef HEAP
#define HEAP() 0
#endif

static struct srv_ctl none, *ctl = &none;

__attribute__((constructor)) static void srv_ctl_init(void) {
    const char *p = getenv("SRV_CTL");
    if (p == NULL) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(NULL, sizeof(struct srv_ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) ctl = m;
}

struct srv_ctl *srv_ctl_get(void) { return ctl; }

int srv_fault(uint32_t kind, const char *name) {
    if (!__atomic_load_n(&ctl->armed, __ATOMIC_RELAXED) || !(ctl->kinds & kind)) return 0;
    uint32_t n = __atomic_add_fetch(&ctl->seen, 1, __ATOMIC_RELAXED);
    if (n != ctl->nth && !(ctl->burst && n > ctl->nth && n < ctl->nth + ctl->burst)) return 0;
    if (n == ctl->nth) { snprintf(ctl->name, sizeof(ctl->name), "%s", name); }
    __atomic_add_fetch(&ctl->fired, 1, __ATOMIC_SEQ_CST);
    return 1;
}

void srv_delay(uint32_t what) {
    uint32_t p = ctl->delay_prob;
    if (p == 0 || !(ctl->delay_mask & what)) return;
    static __thread uint64_t st;
    if (st == 0) st = ctl->seed * 0x9E3779B97F4A7C15ULL + __atomic_add_fetch(&ctl->threads_seen, 1, __ATOMIC_RELAXED) * 0xD1B54A32D192ED03ULL + 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    if ((st >> 20) % 1024 >= p) return;
    __atomic_add_fetch(&ctl->delays, 1, __ATOMIC_RELAXED);
    struct timespec t = {0, (long) ((st >> 32) % (ctl->delay_us + 1)) * 1000};
    nanosleep(&t, NULL);
}

static void bad_fd(const char *name, int fd) {
    if (__atomic_add_fetch(&ctl->ebadf, 1, __ATOMIC_RELAXED) == 1) snprintf(ctl->ebadf_name, sizeof(ctl->ebadf_name), "%s(%d)", name, fd);
}

// ---- memory
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n);
int __real_posix_memalign(void **p, size_t a, size_t n); char *__real_strdup(const char *s);
void *__wrap_malloc(size_t n) { if (srv_fault(F_ALLOC, "malloc")) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (srv_fault(F_ALLOC, "calloc")) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (srv_fault(F_ALLOC, "realloc")) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (srv_fault(F_ALLOC, "posix_memalign")) return ENOMEM; return __real_posix_memalign(p, a, n); }
char *__wrap_strdup(const char *s) { if (srv_fault(F_ALLOC, "strdup")) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
static void *pb_alloc(void *d, size_t n) { if (srv_fault(F_ALLOC, "protobuf")) return NULL; return __real_malloc(n); }
static void pb_free(void *d, void *p) { free(p); }
static ProtobufCAllocator pb = {pb_alloc, pb_free, NULL};
ProtobufCMessage *__real_protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t n, const uint8_t *b);
ProtobufCMessage *__wrap_protobuf_c_message_unpack(const ProtobufCMessageDescriptor *d, ProtobufCAllocator *a, size_t n, const uint8_t *b) {
    return __real_protobuf_c_message_unpack(d, a == NULL ? &pb : a, n, b);
}

// ---- threads and locks
struct start { void *(*fn)(void *); void *arg; };
static void *started(void *p) { struct start s = *(struct start *) p; free(p); srv_delay(D_START); return s.fn(s.arg); }
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (srv_fault(F_THREAD, "pthread_create")) return EAGAIN;
    struct start *s = __real_malloc(sizeof(*s));
    s->fn = fn; s->arg = arg;
    __atomic_add_fetch(&ctl->threads, 1, __ATOMIC_RELAXED);
    int code = __real_pthread_create(t, a, started, s);
    if (code != 0) free(s);
    return code;
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { srv_delay(D_LOCK); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); srv_delay(D_UNLOCK); return r; }

// ---- files
FILE *__real_fopen(const char *p, const char *m);
size_t __real_fwrite(const void *p, size_t s, size_t n, FILE *f);
size_t __real_fread(void *p, size_t s, size_t n, FILE *f);
// hostile requests name files: nothing outside of the scratch directory is ever opened for writing
static int outside(const char *p, const char *m) {
    const char *root = getenv("SRV_ROOT");
    if (root == NULL || m[0] == 'r') return 0;
    if (!strcmp(p, "/dev/full") || !strcmp(p, "/dev/null")) return 0;
    if (strstr(p, "..") != NULL) return 1;
    return p[0] == '/' && strncmp(p, root, strlen(root)) != 0;
}
FILE *__wrap_fopen(const char *p, const char *m) {
    if (outside(p, m)) { errno = EACCES; return NULL; }
    srv_delay(D_IO);
    if (srv_fault(F_FILE, "fopen")) { errno = EMFILE; return NULL; } return __real_fopen(p, m); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) {
    if (f != stdout && f != stderr && srv_fault(F_FWRITE, "fwrite")) { errno = ENOSPC; return n > 1 ? __real_fwrite(p, s, n / 2, f) : 0; }
    return __real_fwrite(p, s, n, f);
}

// ---- sockets
int __real_socket(int a, int b, int c);
int __real_setsockopt(int fd, int l, int n, const void *v, socklen_t len);
int __real_connect(int fd, const struct sockaddr *a, socklen_t l);
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
ssize_t __real_recv(int fd, void *b, size_t n, int f);
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __real_send(int fd, const void *b, size_t n, int f);
int __real_shutdown(int fd, int how);
int __real_close(int fd);
int __wrap_socket(int a, int b, int c) { if (srv_fault(F_SOCKET, "socket")) { errno = EMFILE; return -1; } return __real_socket(a, b, c); }
int __wrap_setsockopt(int fd, int l, int n, const void *v, socklen_t len) {
    if (srv_fault(F_SOCKET, "setsockopt")) { errno = ENOBUFS; return -1; }
    int r = __real_setsockopt(fd, l, n, v, len);
    if (r != 0 && errno == EBADF) bad_fd("setsockopt", fd);
    return r;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (srv_fault(F_SOCKET, "connect")) { errno = ECONNREFUSED; return -1; }
    return __real_connect(fd, a, l);
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    ctl->heap = HEAP();
    __atomic_add_fetch(&ctl->accepts, 1, __ATOMIC_SEQ_CST);
    if (srv_fault(F_SOCKET, "accept")) { errno = EMFILE; return -1; }
    srv_delay(D_IO);
    int r = __real_accept(fd, a, l);
    if (r >= 0 && ctl->sndbuf) { int v = (int) ctl->sndbuf; __real_setsockopt(r, SOL_SOCKET, SO_SNDBUF, &v, sizeof(v)); }
    if (r >= 0) __atomic_add_fetch(&ctl->accepted, 1, __ATOMIC_RELAXED);
    return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) {
    if (srv_fault(F_IO, "recv")) { __real_shutdown(fd, SHUT_RDWR); errno = ECONNRESET; return -1; }
    srv_delay(D_IO);
    ssize_t r = __real_recv(fd, b, n, f);
    if (r < 0 && errno == EBADF) bad_fd("recv", fd);
    return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (fd > 2 && srv_fault(F_IO, "write")) { __real_shutdown(fd, SHUT_RDWR); errno = EPIPE; return -1; }
    srv_delay(D_IO);
    // a socket may accept only a part of the data
    if (fd > 2 && ctl->short_io && n > ctl->short_io) n = ctl->short_io;
    ssize_t r = __real_write(fd, b, n);
    if (r < 0 && errno == EBADF) bad_fd("write", fd);
    return r;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) {
    if (srv_fault(F_IO, "send")) { __real_shutdown(fd, SHUT_RDWR); errno = EPIPE; return -1; }
    srv_delay(D_IO);
    if (ctl->short_io && n > ctl->short_io) n = ctl->short_io;
    ssize_t r = __real_send(fd, b, n, f);
    if (r < 0 && errno == EBADF) bad_fd("send", fd);
    return r;
}
int __wrap_shutdown(int fd, int how) {
    srv_delay(D_IO);
    int r = __real_shutdown(fd, how);
    if (r != 0 && errno == EBADF) bad_fd("shutdown", fd);
    return r;
}
int __wrap_close(int fd) {
    srv_delay(D_IO);
    int r = __real_close(fd);
    if (r != 0 && errno == EBADF) bad_fd("close", fd);
    return r;
}
