// Q01-Q03: histories of the sample queue checked for linearizability against a sequential model.
// usage: h_queue MODE seed count ; MODE: lossless | realtime | shutdown | seq
#include "vh.h"
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <stdatomic.h>
#include <time.h>
#include "queue.h"

// ------------------------------------------------------------------ perturbation of the synchronisation calls
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
static __thread uint64_t jit = 0;
static _Atomic int perturb = 0;
static uint64_t jnext(void) { jit ^= jit << 13; jit ^= jit >> 7; jit ^= jit << 17; return jit; }
static void jitter(void) {
    if (!jit || !atomic_load_explicit(&perturb, memory_order_relaxed)) return;
    uint64_t r = jnext() % 64;
    if (r < 20) sched_yield();
    else if (r < 24) { volatile int x = 0; for (int i = 0; i < (int) (jnext() % 3000); i++) x += i; }
    else if (r == 63) usleep(jnext() % 120);
}
static _Atomic long spurious = 0, waits = 0;
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { jitter(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); jitter(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    atomic_fetch_add_explicit(&waits, 1, memory_order_relaxed);
    if (jit && atomic_load_explicit(&perturb, memory_order_relaxed) && jnext() % 8 == 0) {   // a spurious wake-up
        atomic_fetch_add_explicit(&spurious, 1, memory_order_relaxed);
        __real_pthread_mutex_unlock(m);
        sched_yield();
        __real_pthread_mutex_lock(m);
        return 0;
    }
    return __real_pthread_cond_wait(c, m);
}

// ------------------------------------------------------------------ history
enum { PUT, TAKE, COMPLETE, STOP };
typedef struct { int kind, id, ret; uint32_t inv, res; } op;      // ret: PUT 0/-1, TAKE id or -1
#define MAXT 5
#define MAXOPS 96
#define MAXDEPTH 16
typedef struct { op o[MAXOPS]; int n; } hist;
static hist H[MAXT];
static _Atomic uint32_t clk;
static uint32_t tick(void) { return atomic_fetch_add_explicit(&clk, 1, memory_order_relaxed); }

static int stall;
static int depth, bsize, lossless, nprod, nput, consumer_speed, producer_speed;
static queue *Q;
static _Atomic int content_errors;
static char content_msg[256];
static uint64_t case_seed;
static int lens[MAXT][MAXOPS];
static _Atomic int progress[MAXT];
static _Atomic int running;

static float complex stamp(int id, int k) { return (float) id + (float) (k + 1) * I; }

static void pace(vh_rng *r, int speed) {
    if (speed == 0) return;
    if (speed == 1) { if (vh_below(r, 3) == 0) sched_yield(); return; }
    if (speed == 2) { if (vh_below(r, 4) == 0) usleep(vh_below(r, 60)); return; }
    if (vh_below(r, 2) == 0) usleep(vh_below(r, 250));
}

static void fill(float complex *b, int id, int len) { for (int k = 0; k < len; k++) b[k] = stamp(id, k); }

static void *producer(void *arg) {
    int t = (int) (intptr_t) arg;
    vh_rng r = vh_seed(case_seed, 100 + t);
    jit = vh_next(&r) | 1;
    float complex *buf = malloc(sizeof(float complex) * (bsize + 4));
    for (int i = 0; i < nput; i++) {
        pace(&r, producer_speed);
        if (vh_below(&r, 24) == 0) {                      // refused calls must have no effect
            int k = (int) vh_below(&r, 3);
            fill(buf, 7777777, bsize + 1);
            int code = k == 0 ? queue_put(NULL, 1, Q) : k == 1 ? queue_put(buf, 0, Q) : queue_put(buf, (size_t) bsize + 1, Q);
            if (code == 0) { vh_viol("queue-accepts-invalid", "kind %d accepted, buffer size %d", k, bsize); }
        }
        int id = t * 1000 + i + 1;
        int len = lens[t][i];
        fill(buf, id, len);
        op *o = &H[t].o[H[t].n];
        o->kind = PUT; o->id = id; o->inv = tick();
        o->ret = queue_put(buf, len, Q);
        o->res = tick();
        H[t].n++;
        atomic_fetch_add_explicit(&progress[t], 1, memory_order_relaxed);
        for (int k = 0; k < len; k++) buf[k] = -1;        // the queue must have its own copy
        if (lossless && o->ret != 0) break;
    }
    free(buf);
    atomic_fetch_sub_explicit(&running, 1, memory_order_relaxed);
    return NULL;
}

static bool content_ok(const float complex *b, size_t len, int *id) {
    if (len == 0 || len > (size_t) bsize) return false;
    int i = (int) crealf(b[0]);
    *id = i;
    int t = i / 1000, k = i % 1000 - 1;
    if (t < 0 || t >= nprod || k < 0 || k >= nput) return false;
    if ((int) len != lens[t][k]) return false;
    for (size_t j = 0; j < len; j++) if (b[j] != stamp(i, (int) j)) return false;
    return true;
}

static void *consumer(void *arg) {
    int t = (int) (intptr_t) arg;
    vh_rng r = vh_seed(case_seed, 200);
    jit = vh_next(&r) | 1;
    int nulls = 0;
    // a consumer that starts or goes on only after the producers have been sent away by the shutdown
    int stall_at = stall == 1 ? 0 : stall == 2 ? 1 : -1;
    while (stall_at == 0 && atomic_load_explicit(&running, memory_order_relaxed) > 1) usleep(20);
    while (nulls < 3 && H[t].n < MAXOPS - 2) {
        pace(&r, consumer_speed);
        float complex *b = NULL; size_t len = 0;
        op *o = &H[t].o[H[t].n];
        o->kind = TAKE; o->inv = tick();
        take_buffer_for_processing(&b, &len, Q);
        o->res = tick();
        o->ret = -1;
        H[t].n++;
        atomic_fetch_add_explicit(&progress[t], 1, memory_order_relaxed);
        if (b == NULL) { nulls++; continue; }
        nulls = 0;
        int id = -2;
        bool ok = content_ok(b, len, &id);
        o->ret = id;
        if (ok) {
            pace(&r, consumer_speed);
            while (stall_at == 1 && atomic_load_explicit(&running, memory_order_relaxed) > 1) usleep(20);
            sched_yield();
            int id2;
            if (!content_ok(b, len, &id2) || id2 != id) { ok = false; snprintf(content_msg, sizeof content_msg, "buffer %d changed while being processed", id); }
        } else snprintf(content_msg, sizeof content_msg, "buffer with id %d, length %zu is not what was put", id, len);
        if (!ok) atomic_fetch_add_explicit(&content_errors, 1, memory_order_relaxed);
        op *c = &H[t].o[H[t].n];
        c->kind = COMPLETE; c->inv = tick(); c->ret = 0;
        complete_buffer_processing(Q);
        c->res = tick();
        H[t].n++;
    }
    atomic_fetch_sub_explicit(&running, 1, memory_order_relaxed);
    return NULL;
}

// ------------------------------------------------------------------ sequential model and linearizability search
typedef struct { uint8_t idx[MAXT]; uint8_t nfilled, held, stopped; uint16_t f[MAXDEPTH]; } mstate;

static bool apply(mstate *s, const op *o) {
    switch (o->kind) {
        case PUT:
            if (lossless) {
                if (o->ret != 0) return s->stopped;
                if (s->stopped || s->nfilled + s->held >= depth) return false;
                s->f[s->nfilled++] = (uint16_t) o->id;
                return true;
            }
            if (o->ret != 0) return s->stopped || (s->nfilled + s->held >= depth && s->nfilled == 0);
            if (s->nfilled + s->held >= depth) {
                if (s->nfilled == 0) return false;
                s->f[s->nfilled - 1] = (uint16_t) o->id;
                return true;
            }
            s->f[s->nfilled++] = (uint16_t) o->id;
            return true;
        case TAKE:
            if (o->ret == -1) return s->stopped && s->nfilled == 0;
            if (s->nfilled == 0 || s->held || s->f[0] != o->ret) return false;
            memmove(s->f, s->f + 1, sizeof(uint16_t) * (MAXDEPTH - 1));
            s->f[MAXDEPTH - 1] = 0;
            s->nfilled--;
            s->f[s->nfilled] = 0;
            s->held = 1;
            return true;
        case COMPLETE: s->held = 0; return true;
        default: s->stopped = 1; return true;
    }
}

#define HS (1 << 18)
static uint64_t *seen;
static int seen_n;
static uint64_t hash_state(const mstate *s) {
    uint64_t h = 1469598103934665603ULL;
    const uint8_t *p = (const uint8_t *) s;
    for (size_t i = 0; i < sizeof *s; i++) { h ^= p[i]; h *= 1099511628211ULL; }
    return h ? h : 1;
}
static int seen_add(uint64_t h) {
    for (uint64_t i = h & (HS - 1);; i = (i + 1) & (HS - 1)) {
        if (seen[i] == h) return 0;
        if (seen[i] == 0) { seen[i] = h; seen_n++; return 1; }
    }
}
static int best; static mstate best_state; static int nthreads;
// 1 linearizable, 0 not, -1 gave up
static int lin(const mstate *s, int done, int total) {
    if (done == total) return 1;
    if (done >= best) { best = done; best_state = *s; }
    uint32_t minres = UINT32_MAX;
    for (int t = 0; t < nthreads; t++) if (s->idx[t] < H[t].n && H[t].o[s->idx[t]].res < minres) minres = H[t].o[s->idx[t]].res;
    // earliest response first: usually the right order
    int order[MAXT], n = 0;
    for (int t = 0; t < nthreads; t++) if (s->idx[t] < H[t].n && H[t].o[s->idx[t]].inv <= minres) order[n++] = t;
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && H[order[j]].o[s->idx[order[j]]].res < H[order[j - 1]].o[s->idx[order[j - 1]]].res; j--) { int x = order[j]; order[j] = order[j - 1]; order[j - 1] = x; }
    for (int i = 0; i < n; i++) {
        mstate c = *s;
        if (!apply(&c, &H[order[i]].o[s->idx[order[i]]])) continue;
        c.idx[order[i]]++;
        if (!seen_add(hash_state(&c))) continue;
        if (seen_n > HS / 2) return -1;
        int r = lin(&c, done + 1, total);
        if (r) return r;
    }
    return 0;
}

static void describe(char *out, size_t n) {
    size_t w = 0;
    w += snprintf(out + w, n - w, "depth %d bsize %d lossless %d; linearized %d ops, model: filled", depth, bsize, lossless, best);
    for (int i = 0; i < best_state.nfilled && w < n - 40; i++) w += snprintf(out + w, n - w, " %d", best_state.f[i]);
    w += snprintf(out + w, n - w, " held %d stopped %d; next:", best_state.held, best_state.stopped);
    for (int t = 0; t < nthreads && w < n - 80; t++) {
        if (best_state.idx[t] >= H[t].n) continue;
        const op *o = &H[t].o[best_state.idx[t]];
        w += snprintf(out + w, n - w, " [t%d %s id %d ret %d @%u-%u]", t, (const char *[]) {"put", "take", "complete", "stop"}[o->kind], o->kind == PUT ? o->id : 0, o->ret, o->inv, o->res);
    }
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// distinct orders of invocations and responses seen
static uint64_t *orders; static int norders;
static void note_order(void) {
    uint64_t h = 1469598103934665603ULL;
    int idx[MAXT] = {0};
    for (;;) {
        int bt = -1; uint32_t b = UINT32_MAX;
        for (int t = 0; t < nthreads; t++) if (idx[t] < 2 * H[t].n) { const op *o = &H[t].o[idx[t] / 2]; uint32_t v = idx[t] & 1 ? o->res : o->inv; if (v < b) { b = v; bt = t; } }
        if (bt < 0) break;
        const op *o = &H[bt].o[idx[bt] / 2];
        h = (h ^ (uint64_t) (bt * 16 + o->kind * 2 + (idx[bt] & 1))) * 1099511628211ULL;
        if (idx[bt] & 1) h = (h ^ (uint64_t) (o->ret + 7)) * 1099511628211ULL;
        idx[bt]++;
    }
    if (!h) h = 1;
    for (uint64_t i = h & (HS - 1);; i = (i + 1) & (HS - 1)) {
        if (orders[i] == h) return;
        if (orders[i] == 0) { if (norders < HS / 2) { orders[i] = h; norders++; } return; }
    }
}

static long st_replaced, st_waited_shutdown, st_drained, st_puts, st_takes, st_refused;

static int conc_case(uint64_t seed, int mode) {          // mode 0 lossless 1 realtime 2 shutdown
    vh_rng r = vh_seed(seed, 1);
    case_seed = seed;
    lossless = mode == 0 ? 1 : mode == 1 ? 0 : (int) vh_below(&r, 2);
    depth = 1 + (int) vh_below(&r, vh_below(&r, 3) == 0 ? 12 : 4);
    bsize = 1 + (int) vh_below(&r, vh_below(&r, 2) ? 4 : 200);
    stall = mode == 2 && lossless ? (int) vh_below(&r, 6) : 0;
    nprod = lossless && (stall == 1 || stall == 2 || vh_below(&r, 3) == 0) ? 1 + (int) vh_below(&r, 3) : 1;
    nput = 1 + (int) vh_below(&r, nprod == 1 ? 40 : 14);
    producer_speed = (int) vh_below(&r, 4);
    consumer_speed = (int) vh_below(&r, 4);
    for (int t = 0; t < nprod; t++) for (int i = 0; i < nput; i++) lens[t][i] = 1 + (int) vh_below(&r, bsize);
    int stop_at = stall == 1 || stall == 2 ? 0 : mode == 2 ? (int) vh_below(&r, nput + 1) : -1;   // -1: when everything was put
    long stop_delay = stall == 1 || stall == 2 ? 1 + (long) vh_below(&r, 2000) : vh_below(&r, 3) == 0 ? (long) vh_below(&r, 600) : 0;
    memset(H, 0, sizeof H);
    memset(progress, 0, sizeof progress);
    atomic_store(&clk, 0);
    atomic_store(&content_errors, 0);
    content_msg[0] = 0;
    atomic_store_explicit(&perturb, (int) vh_below(&r, 4) != 0, memory_order_relaxed);
    if (create_queue(bsize, depth, lossless, &Q) != 0) { vh_viol("queue-create", "refused depth %d size %d", depth, bsize); return -1; }
    nthreads = nprod + 2;
    pthread_t th[MAXT];
    atomic_store(&running, nprod + 1);
    bool consumer_first = vh_below(&r, 2);
    if (consumer_first) pthread_create(&th[nprod], NULL, consumer, (void *) (intptr_t) nprod);
    for (int t = 0; t < nprod; t++) pthread_create(&th[t], NULL, producer, (void *) (intptr_t) t);
    if (!consumer_first) { if (!lossless && vh_below(&r, 3) == 0) usleep(200 + vh_below(&r, 600)); pthread_create(&th[nprod], NULL, consumer, (void *) (intptr_t) nprod); }
    // the stopper
    jit = vh_next(&r) | 1;
    double t0 = now(), lastp = t0; long lastsum = -1;
    int hang = 0;
    while (1) {
        long sum = 0, done = 0;
        for (int t = 0; t < nprod; t++) { int p = atomic_load_explicit(&progress[t], memory_order_relaxed); done += p; }
        sum = done + atomic_load_explicit(&progress[nprod], memory_order_relaxed);
        if (stop_at >= 0 ? atomic_load_explicit(&progress[0], memory_order_relaxed) >= stop_at : done >= (long) nprod * nput) break;
        if (sum != lastsum) { lastsum = sum; lastp = now(); }
        if (now() - lastp > 15) { hang = 1; break; }
        if (stop_at >= 0) sched_yield(); else usleep(20);
    }
    if (hang) {
        vh_viol(lossless ? "queue-stuck" : "queue-producer-blocks", "no progress for 15 s: depth %d, %d producers x %d, progress %ld", depth, nprod, nput, lastsum);
        return -1;
    }
    if (stop_delay) usleep(stop_delay);
    op *s = &H[nprod + 1].o[0];
    s->kind = STOP; s->inv = tick();
    interrupt_waiting_the_data(Q);
    s->res = tick();
    H[nprod + 1].n = 1;
    jit = 0;
    double t1 = now();
    while (atomic_load_explicit(&running, memory_order_relaxed) > 0) {
        if (now() - t1 > 15) { vh_viol("queue-shutdown-stuck", "threads still waiting 15 s after shutdown: depth %d lossless %d producers %d", depth, lossless, nprod); return -1; }
        usleep(10);
    }
    for (int t = 0; t <= nprod; t++) pthread_join(th[t], NULL);
    destroy_queue(Q);
    int total = 0;
    for (int t = 0; t < nthreads; t++) total += H[t].n;
    if (atomic_load(&content_errors)) { vh_viol("queue-content", "%s; depth %d bsize %d lossless %d seed %llu", content_msg, depth, bsize, lossless, (unsigned long long) seed); }
    memset(seen, 0, sizeof(uint64_t) * HS); seen_n = 0; best = -1;
    mstate init; memset(&init, 0, sizeof init);
    int res = lin(&init, 0, total);
    if (res == 0) {
        char d[1500]; describe(d, sizeof d);
        vh_viol(lossless ? "queue-lossless-order" : "queue-realtime-order", "no sequential order explains the history; seed %llu %s", (unsigned long long) seed, d);
    } else if (res < 0) printf("INCONCLUSIVE search limit for seed %llu\n", (unsigned long long) seed);
    int puts = 0, takes = 0, refused = 0;
    for (int t = 0; t < nprod; t++) for (int i = 0; i < H[t].n; i++) { if (H[t].o[i].ret == 0) puts++; else refused++; }
    for (int i = 0; i < H[nprod].n; i++) if (H[nprod].o[i].kind == TAKE && H[nprod].o[i].ret > 0) { takes++; if (H[nprod].o[i].inv > s->res) st_drained++; }
    // exactly once, counted directly
    if (lossless && takes != puts) vh_viol("queue-lossless-count", "accepted %d, delivered %d (depth %d producers %d seed %llu)", puts, takes, depth, nprod, (unsigned long long) seed);
    st_puts += puts; st_takes += takes; st_refused += refused; if (!lossless) st_replaced += puts - takes;
    note_order();
    return total;
}

// single-threaded sequences: every reachable small state, checked against the model at each step
static long seq_case(uint64_t seed, int which) {
    vh_rng r = vh_seed(seed, 5);
    lossless = (int) vh_below(&r, 2);
    if (which) lossless = which == 1;
    depth = 1 + (int) vh_below(&r, 5); bsize = 1 + (int) vh_below(&r, 9);
    if (create_queue(bsize, depth, lossless, &Q) != 0) { vh_viol("queue-create", "refused depth %d size %d", depth, bsize); return 0; }
    mstate s; memset(&s, 0, sizeof s);
    int slen[4096]; int id = 0; long n = 0;
    float complex *b = malloc(sizeof(float complex) * (bsize + 1));
    float complex *h = NULL; size_t hl = 0; int hid = 0;
    int ops = 20 + (int) vh_below(&r, 300);
    for (int i = 0; i < ops; i++, n++) {
        int k = (int) vh_below(&r, 100);
        if (h) for (size_t j = 0; j < hl; j++) if (h[j] != stamp(hid, (int) j)) { vh_viol("queue-content", "buffer %d changed while held (depth %d lossless %d seed %llu)", hid, depth, lossless, (unsigned long long) seed); return n; }
        if (k < 50) {
            if (lossless && !s.stopped && s.nfilled + s.held >= depth) continue;      // would wait
            id++; int len = 1 + (int) vh_below(&r, bsize); slen[id] = len;
            fill(b, id, len);
            op o = {PUT, id, queue_put(b, len, Q)};
            for (int j = 0; j < len; j++) b[j] = -1;
            if (!apply(&s, &o)) { vh_viol(lossless ? "queue-lossless-order" : "queue-realtime-order", "put %d returned %d: depth %d filled %d held %d stopped %d seed %llu", id, o.ret, depth, s.nfilled, s.held, s.stopped, (unsigned long long) seed); return n; }
        } else if (k < 75) {
            if (h || (s.nfilled == 0 && !s.stopped)) continue;
            size_t len = 0; float complex *x = NULL;
            take_buffer_for_processing(&x, &len, Q);
            op o = {TAKE, 0, x ? (int) crealf(x[0]) : -1};
            bool ok = apply(&s, &o);
            if (ok && x) { if ((int) len != slen[o.ret]) ok = false; else for (size_t j = 0; j < len; j++) if (x[j] != stamp(o.ret, (int) j)) ok = false; }
            if (!ok) { vh_viol(lossless ? "queue-lossless-order" : "queue-realtime-order", "take returned %d len %zu: depth %d filled %d (first %d) held %d stopped %d seed %llu", o.ret, len, depth, s.nfilled, s.nfilled ? s.f[0] : 0, s.held, s.stopped, (unsigned long long) seed); return n; }
            h = x; hl = len; hid = o.ret;
        } else if (k < 97) {
            if (!h) continue;
            complete_buffer_processing(Q); h = NULL; s.held = 0;
        } else if (i > 10 && vh_below(&r, 6) == 0) { interrupt_waiting_the_data(Q); s.stopped = 1; }
    }
    free(b);
    destroy_queue(Q);
    return n;
}


static _Atomic long alive;
// deep queues, large buffers and long histories, one thread, a model of its own
static long big_case(uint64_t seed, int which) {
    vh_rng r = vh_seed(seed, 6);
    lossless = which ? which == 1 : (int) vh_below(&r, 2);
    int kind = (int) vh_below(&r, 3);       // deep; large buffers; long history
    depth = kind == 0 ? 100 + (int) vh_below(&r, 600) : 1 + (int) vh_below(&r, 4);
    bsize = kind == 1 ? 40000 + (int) vh_below(&r, 100000) : 1 + (int) vh_below(&r, 6);
    long ops = kind == 0 ? 6000 : kind == 1 ? 60 : 150000, n = 0;
    case_seed = seed;
    if (create_queue(bsize, depth, lossless, &Q) != 0) { vh_viol("queue-create", "refused depth %d size %d", depth, bsize); return 0; }
    int *fid = malloc(sizeof(int) * (depth + 1)), *flen = malloc(sizeof(int) * (depth + 1)), head = 0, filled = 0, id = 0, hid = 0;
    float complex *b = malloc(sizeof(float complex) * bsize), *h = NULL; size_t hl = 0;
    int bias = 50;
    for (long i = 0; i < ops; i++, n++) {
        if ((i & 63) == 0) atomic_fetch_add(&alive, 1);
        if (vh_below(&r, depth * 4) == 0) bias = 15 + (int) vh_below(&r, 70);      // fill up and drain
        if ((int) vh_below(&r, 100) < bias) {
            bool full = filled + (h != NULL) >= depth;
            if (lossless && full) continue;
            id++; int len = vh_below(&r, 3) ? bsize : 1 + (int) vh_below(&r, bsize);
            fill(b, id, len);
            int want = full && filled == 0 ? -1 : 0, code = queue_put(b, len, Q);
            if ((code != 0) != (want != 0)) { vh_viol(lossless ? "queue-lossless-order" : "queue-realtime-order", "put %d returned %d: depth %d filled %d held %d", id, code, depth, filled, h != NULL); goto end; }
            if (code == 0) { int k = full ? filled - 1 : filled++; k = (head + k) % depth; fid[k] = id; flen[k] = len; }
        } else if (h == NULL && filled > 0) {
            float complex *x = NULL; size_t len = 0;
            take_buffer_for_processing(&x, &len, Q);
            hid = fid[head]; int wl = flen[head]; head = (head + 1) % depth; filled--;
            bool ok = x != NULL && (int) len == wl;
            for (size_t j = 0; ok && j < len; j++) ok = x[j] == stamp(hid, (int) j);
            if (!ok) { vh_viol(lossless ? "queue-lossless-order" : "queue-realtime-order", "expected buffer %d of %d samples, got %d of %zu: depth %d size %d operation %ld", hid, wl, x && len ? (int) crealf(x[0]) : -1, len, depth, bsize, i); goto end; }
            h = x; hl = len;
        } else if (h != NULL) {
            for (size_t j = 0; j < hl; j++) if (h[j] != stamp(hid, (int) j)) { vh_viol("queue-content", "buffer %d changed while held: depth %d size %d operation %ld", hid, depth, bsize, i); goto end; }
            complete_buffer_processing(Q); h = NULL;
        }
    }
    if (h) complete_buffer_processing(Q);
    interrupt_waiting_the_data(Q);
    while (1) {
        float complex *x = NULL; size_t len = 0;
        take_buffer_for_processing(&x, &len, Q);
        if (x == NULL) break;
        if (filled == 0 || (int) crealf(x[0]) != fid[head] || (int) len != flen[head]) { vh_viol("queue-drain", "after the shutdown: got %d, %d left", (int) crealf(x[0]), filled); goto end; }
        head = (head + 1) % depth; filled--;
        complete_buffer_processing(Q);
    }
    if (filled) vh_viol("queue-drain", "%d accepted buffers were not delivered after the shutdown: depth %d", filled, depth);
    if (lossless && queue_put(b, 1, Q) == 0) vh_viol("queue-accepts-after-shutdown", "depth %d", depth);
end:
    free(fid); free(flen); free(b);
    destroy_queue(Q);
    return n;
}

// long streams between two threads: order and content of hundreds of thousands of buffers
static long stream_n;
static void *stream_producer(void *arg) {
    float complex *b = malloc(sizeof(float complex) * bsize);
    for (long i = 1; i <= stream_n; i++) {
        int len = 1 + (int) (i * 7 % bsize);
        fill(b, (int) i, len);
        if (queue_put(b, len, Q) != 0 && lossless) { vh_viol("queue-lossless-order", "buffer %ld refused", i); break; }
    }
    free(b);
    interrupt_waiting_the_data(Q);
    return NULL;
}
static long stream_case(uint64_t seed, int which, long count) {
    vh_rng r = vh_seed(seed, 7);
    lossless = which ? which == 1 : (int) vh_below(&r, 2);
    depth = 1 + (int) vh_below(&r, 9); bsize = 1 + (int) vh_below(&r, 6); stream_n = count; case_seed = seed;
    if (create_queue(bsize, depth, lossless, &Q) != 0) { vh_viol("queue-create", "refused depth %d size %d", depth, bsize); return 0; }
    pthread_t t; pthread_create(&t, NULL, stream_producer, NULL);
    long last = 0, got = 0;
    while (1) {
        float complex *x = NULL; size_t len = 0;
        take_buffer_for_processing(&x, &len, Q);
        if (x == NULL) break;
        if ((++got & 255) == 0) atomic_fetch_add(&alive, 1);
        long id = (long) crealf(x[0]);
        bool ok = lossless ? id == last + 1 : id > last;
        ok = ok && len == (size_t) (1 + id * 7 % bsize);
        for (size_t j = 0; ok && j < len; j++) ok = x[j] == stamp((int) id, (int) j);
        if (!ok) { vh_viol(lossless ? "queue-lossless-order" : "queue-realtime-order", "stream: buffer %ld of %zu samples after %ld (depth %d size %d)", id, len, last, depth, bsize); vh_ev("evaluations", 1); vh_done(); fflush(NULL); _exit(0); }
        last = id;
        complete_buffer_processing(Q);
    }
    pthread_join(t, NULL);
    if (lossless && got != stream_n) vh_viol("queue-lossless-count", "stream: %ld of %ld buffers delivered", got, stream_n);
    // the last buffer replaces only the newest waiting one, so it is always delivered, unless the consumer held the only slot
    if (!lossless && depth > 1 && last != stream_n) vh_viol("queue-realtime-order", "stream: the last accepted buffer is %ld, the last delivered %ld", stream_n, last);
    st_puts += lossless ? stream_n : 0; st_takes += got;
    destroy_queue(Q);
    return stream_n;
}

static void *watchdog(void *arg) {
    long last = -1; int same = 0;
    for (;;) {
        sleep(1);
        long a = atomic_load(&alive) + atomic_load(&clk);
        same = a == last ? same + 1 : 0; last = a;
        if (same >= 20) { vh_viol((const char *) arg, "an operation that must not wait has not returned for 20 s (depth %d lossless %d seed %llu)", depth, lossless, (unsigned long long) case_seed); vh_ev("evaluations", 1); vh_done(); fflush(NULL); _exit(0); }
    }
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    const char *m = argv[1]; uint64_t seed = strtoull(argv[2], NULL, 10); long n = atol(argv[3]);
    seen = calloc(HS, sizeof *seen); orders = calloc(HS, sizeof *orders);
    long evals = 0, ops = 0;
    pthread_t wd; pthread_create(&wd, NULL, watchdog, "queue-stuck");
    for (long i = 0; i < n; i++) {
        atomic_fetch_add(&alive, 1);
        uint64_t s = seed * 1000003ULL + (uint64_t) i;
        if (!strncmp(m, "seq", 3)) { ops += seq_case(s, m[3] ? m[3] - '0' : 0); evals++; continue; }
        if (!strncmp(m, "big", 3)) { ops += big_case(s, m[3] ? m[3] - '0' : 0); evals++; continue; }
        if (!strncmp(m, "stream", 6)) { ops += stream_case(s, m[6] ? m[6] - '0' : 0, 70000); evals++; continue; }
        int mode = !strcmp(m, "lossless") ? 0 : !strcmp(m, "realtime") ? 1 : 2;
        int k = conc_case(s, mode);
        if (k < 0) { vh_ev("evaluations", evals + 1); vh_done(); fflush(NULL); _exit(0); }
        ops += k; evals++;
        if (i < 1) vh_sample("%s: depth %d buffer %d producers %d x %d: %d operations", m, depth, bsize, nprod, nput, k);
    }
    vh_ev("evaluations", evals); vh_ev("operations", ops); vh_ev("distinct", !strcmp(m, "lossless") || !strcmp(m, "realtime") || !strcmp(m, "shutdown") ? norders : evals);
    vh_ev("distinct_orders", norders); vh_ev("accepted_buffers", st_puts); vh_ev("delivered_buffers", st_takes); vh_ev("refused_buffers", st_refused);
    vh_ev("replaced_buffers", st_replaced); vh_ev("drained_after_shutdown", st_drained); vh_ev("condition_waits", waits); vh_ev("spurious_wakeups_injected", spurious);
    vh_done();
    return 0;
}
