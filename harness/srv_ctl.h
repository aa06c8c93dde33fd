#ifndef SRV_CTL_H
#define SRV_CTL_H
#include <stdint.h>
// layout is known to lib/srv.py
struct srv_ctl {
    uint32_t armed, kinds, nth, burst;          // 0: fault injection
    uint32_t seen, fired;                       // 16
    char name[40];                              // 24
    uint32_t delay_prob, delay_us, delay_mask, seed;  // 64
    uint32_t threads_seen, delays;              // 80
    uint32_t accepts, accepted, threads, ebadf; // 88
    uint64_t heap;                              // 104
    char ebadf_name[40];                        // 112
    uint32_t short_io, sndbuf;                     // 152
};
#define F_ALLOC 1
#define F_THREAD 2
#define F_FILE 4
#define F_FWRITE 8
#define F_SOCKET 16
#define F_IO 32
#define F_IIO 64
#define D_LOCK 1
#define D_UNLOCK 2
#define D_IO 4
#define D_START 8
int srv_fault(uint32_t kind, const char *name);
void srv_delay(uint32_t what);
struct srv_ctl *srv_ctl_get(void);
#endif
