/* Deterministic simulator for MPB: shared definitions. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

#define MAXR 16            /* simulated MPI processes */
#define MAXCOLL 8192
#define MAXMSG 8192
#define MAXFAULT 256
#define MAXOVR 65536
#define MAXDEC 4000000
#define MAXCTX 65536
#define MAXOPENP 512

enum { ST_RUN = 0, ST_BLOCKED = 1, ST_DONE = 2 };

/* I/O operation classes */
enum { IO_OPEN = 0, IO_READ, IO_WRITE, IO_TRUNC, IO_CLOSE, IO_NCLASS };

typedef struct {
    char kind;             /* 'i' io, 'm' malloc, 'k' kill rank, 'K' kill job, 'g' gc at malloc, 's' stall */
    int rank;              /* -1: any */
    int cls;               /* io class, -1 any */
    long nth;              /* 1-based index of the triggering occurrence */
    char action;           /* io: 'e' error once, 'S' sticky error, 'h' short, 'n' EINTR, 't' torn+kill */
    long arg;              /* errno, percentage, stall length */
    long hits;
} sim_fault;

typedef struct {
    int used; int ctx; long seq;
    int kind, root, op, n;           /* signature */
    long count; int dtype;
    uint32_t arrived, left, members_n;
    int sync;
    void *data[MAXR]; size_t len[MAXR];
    long aux[MAXR]; long aux2[MAXR];
    void *res; size_t reslen;
    double tmax;
    int first;             /* rank that arrived first */
} sim_coll;

typedef struct sim_msg {
    int used, src, dst, ctx, tag, matched, sync;
    size_t len; void *data;
    long order; double t;
} sim_msg;

typedef struct { int used; int pathid; int rank; int wr; } sim_openrec;

typedef struct {
    /* configuration */
    int nranks;
    uint64_t seed;
    double p_switch, p_eager, p_sync;
    int policy;            /* 0 random, 1 priority(PCT-like), 2 round robin, 3 starve */
    int policy_arg;
    int redorder;
    int poison;            /* malloc fill mode */
    int clockmode;
    long epoch;
    int aslrpad;
    double p_gc;
    int replay;
    int use_mpi;
    int exclusive_files;   /* monitor: a file may be open in one rank only */
    long max_events, max_ticks;
    char cwd[512];
    char out[512];
    int trace_log;
    int nfaults; sim_fault faults[MAXFAULT];
    int novr; struct { long idx; int rank; } ovr[MAXOVR];

    /* scheduler */
    volatile int cur;
    volatile int fut[MAXR];
    volatile int state[MAXR];
    char where[MAXR][160];
    long stall_until[MAXR];
    int prio[MAXR]; int prio_low;
    long nev, ndec, ticks, nswitch;
    uint64_t trace_hash, sched_hash;
    long rev[MAXR];        /* events per rank */
    double vt[MAXR];
    long nclock[MAXR];
    volatile int nrec; struct { int idx; int rank; } rec[MAXOVR];

    /* MPI state */
    sim_coll coll[MAXCOLL]; int coll_hi;
    sim_msg msg[MAXMSG]; long msg_order; int msg_hi;
    int nctx;
    int inited[MAXR], finalized[MAXR];
    long live_comms[MAXR], live_reqs[MAXR];

    /* I/O */
    long ioc[MAXR][IO_NCLASS], iotot[MAXR];
    long iobytes_w, iobytes_r;
    int npaths; char paths[256][256];
    sim_openrec opn[MAXOPENP];
    long sticky[MAXR];

    /* memory */
    struct { long site, n, ord[4]; } asite[MAXR][320];  /* allocations by calling site: how many, and a few of them */
    long nmalloc[MAXR], nfree[MAXR], livebytes[MAXR], liveblocks[MAXR], ngc[MAXR];
    long mfailed[MAXR];

    /* ends */
    volatile int verdict; char vkind[64]; char vmsg[8192];
    volatile int aborted, abort_rank, abort_code;
    volatile int killed_job;
    volatile int dead_exit; int dead_exit_rank, dead_exit_code;
    int exit_code[MAXR];

    /* coverage counters */
    long c_calls[64];
    long c_eager, c_rendez, c_sync, c_early, c_stallfires, c_clockjump, c_anysrc;

    /* shared heap */
    size_t heap_off, heap_size; void *freelist[64];
    char *heap;
} sim_shm;

extern sim_shm *S;
extern int ME;

uint64_t sim_hash3(uint64_t a, uint64_t b, uint64_t c);
double sim_u(uint64_t a, uint64_t b, uint64_t c);
uint64_t sim_fnv(const void *p, size_t n, uint64_t h);
void sim_event(const char *name, uint64_t h);
void sim_tick(void);
void sim_yield(void);
void sim_block(const char *where);
void sim_wake(int r);
void sim_violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void *shm_alloc(size_t n);
void shm_free(void *p, size_t n);
int sim_io_gate(int cls, long size, long *allowed); /* returns errno or 0; *allowed < size => short */
void sim_note(const char *fmt, ...);
void sim_open_note(const char *path, int wr, int fd);
int sim_path_id(const char *path);
double sim_now(void);
void sim_guile_export(void);
long sim_live_bytes(void);
void sim_do_gc(void);
extern int sim_in_guile;
#endif
