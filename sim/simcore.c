/* Deterministic simulator for MPB: scheduler, faults, clocks, allocator and
   file I/O seams, process supervision.

   Every simulated MPI process is a forked OS process, but exactly one of them
   runs at any moment: it holds the baton (S->cur).  At every MPI call and
   every intercepted file operation the holder asks the scheduler which process
   continues; that decision is a pure function of (seed, decision number), or
   comes from the override list of a replay file. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <linux/futex.h>

sim_shm *S;
int ME = -1;
int sim_in_guile = 0;
static int trace_fd = -1, log_fd = -1;
static pid_t pids[MAXR];

extern int mpb_real_main(int argc, char **argv);

/* ------------------------------------------------------------------ hash */
static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t sim_hash3(uint64_t a, uint64_t b, uint64_t c) {
    return mix(mix(mix(S->seed ^ (a * 0x9e3779b97f4a7c15ull)) ^ b) ^ c);
}
double sim_u(uint64_t a, uint64_t b, uint64_t c) {
    return (sim_hash3(a, b, c) >> 11) * (1.0 / 9007199254740992.0);
}
uint64_t sim_fnv(const void *p, size_t n, uint64_t h) {
    const unsigned char *q = p; size_t i;
    if (!h) h = 1469598103934665603ull;
    for (i = 0; i + 8 <= n; i += 8) {
        uint64_t v; memcpy(&v, q + i, 8);
        h = (h ^ v) * 1099511628211ull; h ^= h >> 29;
    }
    for (; i < n; ++i) h = (h ^ q[i]) * 1099511628211ull;
    return h;
}
enum { H_SCHED = 1, H_CLOCK = 5, H_POISON = 6, H_GC = 7, H_TIME = 8 };

/* ------------------------------------------------------------ shared heap */
static int szclass(size_t n) { int c = 6; while (((size_t)1 << c) < n) ++c; return c; }
void *shm_alloc(size_t n) {
    int c = szclass(n ? n : 1); void *p = S->freelist[c];
    if (p) { S->freelist[c] = *(void **)p; return p; }
    if (S->heap_off + ((size_t)1 << c) > S->heap_size) {
        fprintf(stderr, "sim: shared heap exhausted\n"); _exit(97);
    }
    p = S->heap + S->heap_off; S->heap_off += (size_t)1 << c; return p;
}
void shm_free(void *p, size_t n) {
    int c;
    if (!p) return;
    c = szclass(n ? n : 1); *(void **)p = S->freelist[c]; S->freelist[c] = p;
}

/* ------------------------------------------------------------------ futex */
static void fwait(volatile int *a, int v) { syscall(SYS_futex, (int *)a, FUTEX_WAIT, v, 0, 0, 0); }
static void fwake(volatile int *a) { syscall(SYS_futex, (int *)a, FUTEX_WAKE, 64, 0, 0, 0); }

static int job_over(void) { return S->verdict || S->aborted || S->killed_job || S->dead_exit; }

static void wait_baton(void) {
    for (;;) {
        int v = S->fut[ME];
        if (job_over()) for (;;) pause(); /* the supervisor ends us */
        if (S->cur == ME) return;
        fwait(&S->fut[ME], v);
    }
}
static void give_baton(int to) {
    S->cur = to;
    __sync_synchronize();
    S->fut[to]++;
    fwake(&S->fut[to]);
}

/* ------------------------------------------------------------ notes/trace */
void sim_note(const char *fmt, ...) {
    char b[700]; va_list ap; int n;
    if (trace_fd < 0) return;
    n = snprintf(b, sizeof b, "%ld r%d ", S->nev, ME);
    va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (syscall(SYS_write, trace_fd, b, n) < 0) {}
}

void sim_violation(const char *kind, const char *fmt, ...) {
    if (!S->verdict) {
        va_list ap;
        snprintf(S->vkind, sizeof S->vkind, "%s", kind);
        va_start(ap, fmt); vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
        __sync_synchronize();
        S->verdict = 1;
        sim_note("VIOLATION %s %s", S->vkind, S->vmsg);
    }
    syscall(SYS_exit_group, 96);
    __builtin_unreachable();
}

/* -------------------------------------------------------------- scheduler */
static void describe(char *b, size_t n) {
    int r; size_t o = 0; b[0] = 0;
    for (r = 0; r < S->nranks && o < n - 200; ++r)
        o += snprintf(b + o, n - o, "[rank %d: %s] ", r,
                      S->state[r] == ST_DONE ? "exited" : S->where[r]);
}

/* choose the next process; -1 if none can run */
static int sched_pick(void) {
    int run[MAXR], n = 0, r, def, ch, i, all[MAXR], na = 0;
    for (r = 0; r < S->nranks; ++r)
        if (S->state[r] == ST_RUN) {
            all[na++] = r;
            if (S->stall_until[r] <= S->nev) run[n++] = r;
        }
    if (!na) return -1;
    if (!n) { memcpy(run, all, sizeof all); n = na; } /* everyone stalled: time passes */
    if (n == 1) return run[0];
    def = -1;
    for (i = 0; i < n; ++i) if (run[i] == ME) def = ME;
    if (def < 0) {
        def = run[0];
        for (i = 0; i < n; ++i) if (run[i] > ME) { def = run[i]; break; }
    }
    long d = S->ndec++;
    ch = def;
    if (S->replay) {
        int lo = 0, hi = S->novr - 1;
        while (lo <= hi) {
            int m = (lo + hi) / 2;
            if (S->ovr[m].idx == d) {
                for (i = 0; i < n; ++i) if (run[i] == S->ovr[m].rank) ch = run[i];
                break;
            }
            if (S->ovr[m].idx < d) lo = m + 1; else hi = m - 1;
        }
    } else switch (S->policy) {
        case 0: /* random */
            if (def != ME || sim_u(H_SCHED, d, 1) < S->p_switch)
                ch = run[sim_hash3(H_SCHED, d, 2) % n];
            break;
        case 1: /* random priorities with random change points */
            if (sim_u(H_SCHED, d, 3) < 0.02 * S->policy_arg) S->prio[ME] = --S->prio_low;
            ch = run[0];
            for (i = 1; i < n; ++i) if (S->prio[run[i]] > S->prio[ch]) ch = run[i];
            break;
        case 2: /* round robin */
            ch = run[0];
            for (i = 0; i < n; ++i) if (run[i] > ME) { ch = run[i]; break; }
            break;
        case 3: /* starve one process as long as another can run */
            ch = run[sim_hash3(H_SCHED, d, 4) % n];
            if (ch == S->policy_arg % S->nranks)
                for (i = 0; i < n; ++i) if (run[i] != ch) { ch = run[i]; break; }
            break;
    }
    if (ch != def && S->nrec < MAXOVR) {
        S->rec[S->nrec].idx = (int)d; S->rec[S->nrec].rank = ch; S->nrec++;
    }
    S->sched_hash = (S->sched_hash ^ (uint64_t)(ch + 1)) * 1099511628211ull;
    return ch;
}

static void deadlock(void) {
    char b[4096]; int r, done = 0;
    describe(b, sizeof b);
    for (r = 0; r < S->nranks; ++r) done += S->state[r] == ST_DONE;
    sim_violation("deadlock", "no process can make progress: %s", b);
}

void sim_yield(void) {
    int to;
    if (S->nranks == 1) return;
    to = sched_pick();
    if (to < 0) deadlock();
    if (to != ME) { S->nswitch++; give_baton(to); wait_baton(); }
}

void sim_block(const char *where) {
    int to;
    snprintf(S->where[ME], sizeof S->where[ME], "%s", where);
    S->state[ME] = ST_BLOCKED;
    to = sched_pick();
    if (to < 0) deadlock();
    S->nswitch++;
    give_baton(to);
    wait_baton();
    S->where[ME][0] = 0;
}
void sim_wake(int r) { if (S->state[r] == ST_BLOCKED) S->state[r] = ST_RUN; }

/* what earlier calls left on the stack, which later calls' uninitialised
   variables show, differs between environments as well */
__attribute__((noinline)) void sim_scribble(long n) {
    volatile uint64_t b[n / 8]; long i; uint64_t h = 0, v = 0;
    switch (S->poison) {
        case 0: return;
        case 1: v = 0xcdcdcdcdcdcdcdcdull; break;
        case 2: v = ~0ull; break;
        case 3: v = 0; break;
        default: { double d; h = sim_hash3(H_POISON, S->ticks, ME + 99); d = 1.0 + (double)(h >> 40) * 1e-6; memcpy(&v, &d, 8); }
    }
    for (i = 0; i < n / 8; ++i) b[i] = v;
}
void sim_tick(void) {
    sim_scribble(4096);
    if (++S->ticks > S->max_ticks)
        sim_violation("no-progress", "step budget of %ld exceeded without finishing", S->max_ticks);
}

/* ----------------------------------------------------------------- events */
static void die_job(void) { S->killed_job = 1; __sync_synchronize(); syscall(SYS_exit_group, 95); }

void sim_event(const char *name, uint64_t h) {
    int i;
    S->nev++; S->rev[ME]++;
    S->vt[ME] += 1e-4 * (0.5 + sim_u(H_TIME, ME, S->rev[ME]));
    S->trace_hash = sim_fnv(name, strlen(name), S->trace_hash ^ ((uint64_t)ME << 56));
    S->trace_hash = sim_fnv(&h, 8, S->trace_hash);
    if (trace_fd >= 0) sim_note("%s %016lx", name, (unsigned long)h);
    for (i = 0; i < S->nfaults; ++i) {
        sim_fault *f = &S->faults[i];
        if (f->rank >= 0 && f->rank != ME) continue;
        if (f->kind == 's' && (f->rank >= 0 ? S->rev[ME] : S->nev) == f->nth) {
            f->hits++; S->c_stallfires++;
            S->stall_until[ME] = S->nev + f->arg;
        }
        if (f->kind == 'K' && S->nev == f->nth) { f->hits++; sim_note("crash of the whole job"); die_job(); }
        if (f->kind == 'k' && S->rev[ME] == f->nth) {
            f->hits++; sim_note("process killed");
            kill(getpid(), SIGKILL); for (;;) pause();
        }
    }
    if (S->nev > S->max_events)
        sim_violation("no-progress", "event budget of %ld exceeded without finishing", S->max_events);
    sim_tick();
}

/* ------------------------------------------------------------------ clock */
double sim_now(void) {
    double t = ME >= 0 ? S->vt[ME] : 0;
    if (S->clockmode >= 2 && ME >= 0) t += 3.0 * sim_u(H_CLOCK, 77, ME);   /* skew */
    return 1000.0 + t;
}
static void clock_jump(long k) {
    if (S->clockmode == 1 || S->clockmode == 3) {
        double u = sim_u(H_CLOCK, ME * 131 + 2, k);
        if (u < 0.05) { S->vt[ME] += 20.0 * sim_u(H_CLOCK, ME * 131 + 3, k); S->c_clockjump++; }
        else if (u < 0.06 && S->clockmode == 3) { S->vt[ME] -= 10.0 * sim_u(H_CLOCK, ME * 131 + 4, k); S->c_clockjump++; }
    }
}
/* a clock reading taken by MPB itself */
double sim_mpb_clock(void) {
    long k = ++S->nclock[ME];
    sim_tick();
    S->vt[ME] += 1e-5 * (0.5 + sim_u(H_CLOCK, ME * 131 + 1, k));
    clock_jump(k);
    return sim_now();
}
clock_t sim_clock(void) { return (clock_t)(sim_mpb_clock() * CLOCKS_PER_SEC); }

#define VIRT (S && ME >= 0)
time_t time(time_t *t) {
    time_t v;
    if (VIRT) v = S->epoch + (time_t)sim_now();
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (VIRT) {
        double n;
        /* the process may have been descheduled before it reads the time */
        if (S->clockmode >= 2) {
            long k = ++S->nclock[ME];
            if (sim_u(H_CLOCK, ME * 131 + 5, k) < 0.15) S->vt[ME] += 0.5 * sim_u(H_CLOCK, ME * 131 + 6, k);
        }
        n = sim_now();
        tv->tv_sec = S->epoch + (time_t)n; tv->tv_usec = (long)((n - (long)n) * 1e6);
        return 0;
    }
    { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
      tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (VIRT) {
        double n = sim_now();
        ts->tv_sec = (c == CLOCK_REALTIME ? S->epoch : 0) + (time_t)n;
        ts->tv_nsec = (long)((n - (long)n) * 1e9);
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
clock_t clock(void) {
    if (VIRT) return (clock_t)(sim_now() * CLOCKS_PER_SEC);
    return 0;
}
clock_t times(struct tms *b) {
    if (VIRT) {
        clock_t t = (clock_t)(sim_now() * 100);
        if (b) { memset(b, 0, sizeof *b); b->tms_utime = t; }
        return t;
    }
    return 0;
}

/* -------------------------------------------------------------- allocator */
static int in_alloc = 0;
extern void *__real_fftw_malloc(size_t) __attribute__((weak));

static void poison(void *p, size_t n, int freed) {
    unsigned char *q = p; size_t i;
    if (!S->poison || !p) return;
    switch (S->poison) {
        case 1: memset(p, freed ? 0xdd : 0xcd, n); break;
        case 2: memset(p, 0xff, n); break;          /* NaN pattern */
        case 3: memset(p, 0x00, n); break;
        case 4: { /* plausible doubles */
            uint64_t h = sim_hash3(H_POISON, S->nmalloc[ME], freed);
            for (i = 0; i + 8 <= n; i += 8) { double d = 1.0 + (double)((h = mix(h)) >> 40) * 1e-6; memcpy(q + i, &d, 8); }
            for (; i < n; ++i) q[i] = (unsigned char)h;
            break; }
    }
}

extern char __executable_start;
static void site_count(long site, long k) {
    int h = (int)(mix((uint64_t)site) % 320), t, j;
    for (t = 0; t < 320 && S->asite[ME][h].n && S->asite[ME][h].site != site; ++t) h = (h + 1) % 320;
    if (t == 320) return;
    S->asite[ME][h].site = site;
    j = (int)S->asite[ME][h].n++;
    /* the first, the latest, and two in between */
    if (j == 0) S->asite[ME][h].ord[0] = k;
    else if (j == 1 || sim_hash3(H_POISON, k, 77) % (j + 1) < 2) S->asite[ME][h].ord[1 + (j & 1)] = S->asite[ME][h].ord[3] ? S->asite[ME][h].ord[3] : k;
    S->asite[ME][h].ord[3] = k;
}
static int alloc_gate_(size_t n, void *site) {
    int i; long k;
    if (!VIRT || in_alloc) return 0;
    k = ++S->nmalloc[ME];
    if (n > 0) site_count((char *)site - &__executable_start, k);
    sim_tick();
    if (sim_in_guile && S->p_gc > 0 && sim_u(H_GC, ME, k) < S->p_gc) sim_do_gc();
    for (i = 0; i < S->nfaults; ++i) {
        sim_fault *f = &S->faults[i];
        if (f->rank >= 0 && f->rank != ME) continue;
        if (f->kind == 'g' && f->nth == k && sim_in_guile) { f->hits++; sim_do_gc(); }
        if (f->kind == 'm' && f->nth == k && n > 0) {
            f->hits++; S->mfailed[ME]++;
            sim_note("malloc(%ld) #%ld fails", (long)n, k);
            S->trace_hash = sim_fnv("mfail", 5, S->trace_hash);
            return 1;
        }
    }
    return 0;
}
#define alloc_gate(n) alloc_gate_((n), __builtin_return_address(0))
/* the blocks the code under test holds: address, size and allocating call site */
typedef struct { void *p; size_t n; void *site; uint64_t can; } blk;
#define NBLK (1 << 18)
static blk *blks = NULL; static long nblk = 0;
static size_t bslot(void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46) & (NBLK - 1); }
/* a pattern behind each block tells whether something wrote past its end; it
   differs between environments, so that values read there differ as well */
#define GUARD 16
static void guard_set(blk *b) {
    uint64_t v[2];
    v[0] = b->can; v[1] = mix(b->can);
    memcpy((char *)b->p + b->n, v, GUARD);
}
static void guard_check(blk *b) {
    uint64_t v[2], w[2];
    if (!b->can) return;
    v[0] = b->can; v[1] = mix(b->can);
    memcpy(w, (char *)b->p + b->n, GUARD);
    if (w[0] != v[0] || w[1] != v[1]) {
        b->can = 0;
        sim_violation("heap-overrun", "rank %d wrote past the end of a block of %ld bytes allocated at %p", ME, (long)b->n, (void *)((char *)b->site - &__executable_start));
    }
}
static void blk_del(void *p, int check) {
    size_t i, j, k;
    if (!blks) return;
    for (i = bslot(p); blks[i].p != p; i = (i + 1) & (NBLK - 1)) if (!blks[i].p) return;
    if (check) guard_check(&blks[i]);
    S->livebytes[ME] -= blks[i].n; S->liveblocks[ME]--; nblk--;
    for (j = i;;) {
        j = (j + 1) & (NBLK - 1);
        if (!blks[j].p) break;
        k = bslot(blks[j].p);
        if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
        blks[i] = blks[j]; i = j;
    }
    blks[i].p = NULL;
}
static void blk_check(void *p) {
    size_t i;
    if (!blks) return;
    for (i = bslot(p); blks[i].p != p; i = (i + 1) & (NBLK - 1)) if (!blks[i].p) return;
    guard_check(&blks[i]);
}
static void blk_add(void *p, size_t n, void *site, int guard) {
    size_t i;
    if (!blks) { blks = mmap(NULL, NBLK * sizeof(blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (blks == MAP_FAILED) { blks = NULL; return; } }
    blk_del(p, 0);      /* passed to and released by someone outside the seam */
    if (nblk > NBLK / 2) return;
    for (i = bslot(p); blks[i].p; i = (i + 1) & (NBLK - 1));
    blks[i].p = p; blks[i].n = n; blks[i].site = site; blks[i].can = 0;
    if (guard) { blks[i].can = sim_hash3(H_POISON, S->seed ^ S->aslrpad, n) | 1; guard_set(&blks[i]); }
    S->livebytes[ME] += blks[i].n; S->liveblocks[ME]++; nblk++;
}
/* calls f for every call site that holds memory */
void sim_live_sites(void (*f)(void *, long, long)) {
    struct { void *site; long c, b; } t[512]; int n = 0, k; size_t i;
    for (i = 0; blks && i < NBLK; ++i) if (blks[i].p) {
        for (k = 0; k < n && t[k].site != blks[i].site; ++k);
        if (k == n) { if (n == 512) continue; t[n].site = blks[i].site; t[n].c = t[n].b = 0; n++; }
        t[k].c++; t[k].b += blks[i].n;
    }
    for (k = 0; k < n; ++k) f(t[k].site, t[k].c, t[k].b);
}
static void *sim_acct_(void *p, size_t n, void *site, int guard) {
    if (p && VIRT && !in_alloc) blk_add(p, n, site, guard);
    return p;
}
#define sim_acct(p, n, g) sim_acct_((p), (n), __builtin_return_address(0), g)
void *sim_malloc(size_t n) {
    void *p;
    if (alloc_gate(n)) { errno = ENOMEM; return NULL; }
    p = malloc(n > SIZE_MAX - GUARD ? n : n + GUARD);
    if (p && VIRT) poison(p, n, 0);
    return sim_acct(p, n, 1);
}
void *sim_calloc(size_t a, size_t b) {
    if (alloc_gate(a * b)) { errno = ENOMEM; return NULL; }
    return sim_acct(a && b > (SIZE_MAX - GUARD) / a ? NULL : calloc(a * b + GUARD, 1), a * b, 1);
}
void sim_free(void *p) {
    if (p && VIRT && !in_alloc) {
        size_t n = malloc_usable_size(p);
        blk_del(p, 1); S->nfree[ME]++;
        if (S->poison == 1 || S->poison == 2) poison(p, n, 1);
    }
    free(p);
}
void *sim_realloc(void *p, size_t n) {
    void *q;
    if (alloc_gate(n)) { errno = ENOMEM; return NULL; }
    if (p && !n) { sim_free(p); return NULL; }
    if (p && VIRT) blk_check(p);
    q = realloc(p, n > SIZE_MAX - GUARD ? n : n + GUARD);
    if (q && VIRT) { if (p) blk_del(p, 0); sim_acct(q, n, 1); }
    return q;
}
extern void *fftw_malloc(size_t n);
extern void fftw_free(void *p);
void *sim_fftw_malloc(size_t n) {
    void *p;
    if (alloc_gate(n)) return NULL;
    p = fftw_malloc(n > SIZE_MAX - GUARD ? n : n + GUARD);
    if (p && VIRT) poison(p, n, 0);
    return sim_acct(p, n, 1);
}
void sim_fftw_free(void *p) {
    if (p && VIRT) { blk_del(p, 1); S->nfree[ME]++; }
    fftw_free(p);
}
/* all blocks still held when the job ends */
void sim_check_guards(void) {
    size_t i;
    for (i = 0; blks && i < NBLK; ++i) if (blks[i].p && blks[i].can) guard_check(&blks[i]);
}
/* fftw_malloc is absent from programs that do not link FFTW */
__attribute__((weak)) void *fftw_malloc(size_t n) { void *p; return posix_memalign(&p, 16, n) ? NULL : p; }
__attribute__((weak)) void fftw_free(void *p) { free(p); }

/* libctl's own allocations: accounted only */
void *simq_malloc(size_t n) { void *p = malloc(n); return p && VIRT ? sim_acct(p, n, 0) : p; }
void *simq_calloc(size_t a, size_t b) { void *p = calloc(a, b); return p && VIRT ? sim_acct(p, a * b, 0) : p; }
void simq_free(void *p) { sim_free(p); }
void *simq_realloc(void *p, size_t n) {
    void *q = realloc(p, n);
    if (q && VIRT) { if (p) blk_del(p, 1); sim_acct(q, n, 0); }
    return q;
}

/* FFTW's plans are memory, too */
static long live_plans = 0;
void *__real_fftw_mkapiplan(int, unsigned, void *); void __real_fftw_destroy_plan(void *);
void *__wrap_fftw_mkapiplan(int sign, unsigned flags, void *prb) { void *p = __real_fftw_mkapiplan(sign, flags, prb); if (p) live_plans++; return p; }
void __wrap_fftw_destroy_plan(void *p) { if (p) live_plans--; __real_fftw_destroy_plan(p); }
long sim_live_plans(void) { return live_plans; }

long sim_live_bytes(void) { return S->livebytes[ME]; }

/* ---------------------------------------------------------------- file IO */
static const char *cname[IO_NCLASS] = { "open", "read", "write", "trunc", "close" };
#define MAXFD 1024
static int fdpath[MAXFD]; /* path id + 1; 0 = not tracked */
static char fdwr[MAXFD];

int sim_path_id(const char *path) {
    int i; const char *b = path; char t[256];
    if (!strncmp(b, S->cwd, strlen(S->cwd))) { b += strlen(S->cwd); while (*b == '/') ++b; }
    while (b[0] == '.' && b[1] == '/') b += 2;
    snprintf(t, sizeof t, "%s", b);
    for (i = 0; i < S->npaths; ++i) if (!strcmp(S->paths[i], t)) return i;
    if (S->npaths == 256) return 255;
    strcpy(S->paths[S->npaths], t);
    return S->npaths++;
}

int sim_io_gate(int cls, long size, long *allowed) {
    int i, err = 0;
    char nm[32];
    *allowed = size;
    snprintf(nm, sizeof nm, "io:%s", cname[cls]);
    sim_event(nm, (uint64_t)size);
    S->ioc[ME][cls]++; S->iotot[ME]++;
    if ((cls == IO_WRITE || cls == IO_TRUNC || cls == IO_CLOSE) && S->sticky[ME] && cls != IO_CLOSE) err = S->sticky[ME];
    for (i = 0; i < S->nfaults; ++i) {
        sim_fault *f = &S->faults[i]; long k;
        if (f->kind != 'i') continue;
        if (f->rank >= 0 && f->rank != ME) continue;
        if (f->cls >= 0 && f->cls != cls) continue;
        k = f->cls >= 0 ? S->ioc[ME][cls] : S->iotot[ME];
        if (k != f->nth) continue;
        switch (f->action) {
            case 'e': f->hits++; err = f->arg; break;
            case 'S': f->hits++; err = f->arg; S->sticky[ME] = f->arg; break;
            case 'n': if (cls == IO_READ || cls == IO_WRITE) { f->hits++; err = EINTR; } break;
            case 'h': if ((cls == IO_READ || cls == IO_WRITE) && size > 1) {
                          f->hits++; *allowed = size * f->arg / 100; if (*allowed < 1) *allowed = 1; } break;
            case 't': f->hits++; *allowed = -1 - (cls == IO_WRITE ? size * f->arg / 100 : 0); break;
        }
        sim_note("fault %c on %s #%ld", f->action, cname[cls], k);
    }
    if (err) { char e[40]; snprintf(e, sizeof e, "ioerr:%s:%d", cname[cls], err); S->trace_hash = sim_fnv(e, strlen(e), S->trace_hash); }
    return err;
}

void sim_open_note(const char *path, int wr, int fd) {
    int id = sim_path_id(path), i, fr = -1;
    if (fd >= 0 && fd < MAXFD) { fdpath[fd] = id + 1; fdwr[fd] = wr; }
    for (i = 0; i < MAXOPENP; ++i) {
        sim_openrec *o = &S->opn[i];
        if (!o->used) { if (fr < 0) fr = i; continue; }
        if (S->exclusive_files && o->pathid == id && o->rank != ME && (o->wr || wr))
            sim_violation("exclusive", "rank %d opens '%s' while rank %d has it open%s", ME, S->paths[id], o->rank,
                          (wr && o->wr) ? " (both for writing)" : "");
    }
    if (fr >= 0) { S->opn[fr].used = 1; S->opn[fr].pathid = id; S->opn[fr].rank = ME; S->opn[fr].wr = wr; }
}
static void close_note(int fd) {
    int i, id = fdpath[fd] - 1;
    for (i = 0; i < MAXOPENP; ++i)
        if (S->opn[i].used && S->opn[i].rank == ME && S->opn[i].pathid == id && S->opn[i].wr == fdwr[fd]) { S->opn[i].used = 0; break; }
    fdpath[fd] = 0;
}
#define TRACKED(fd) (VIRT && (fd) >= 0 && (fd) < MAXFD && fdpath[fd])

extern int __real_open(const char *, int, ...);
extern int __real_close(int);
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t);
extern ssize_t __real_pread(int, void *, size_t, off_t), __real_pwrite(int, const void *, size_t, off_t);
extern int __real_ftruncate(int, off_t);

static int do_open(const char *path, int flags, int mode) {
    int fd, err; long al; int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (!VIRT || !strncmp(path, "/proc", 5) || !strncmp(path, "/dev", 4) || !strncmp(path, "/sys", 4) || !strncmp(path, "/etc", 4))
        return __real_open(path, flags, mode);
    err = sim_io_gate(IO_OPEN, 0, &al);
    sim_yield();
    if (al < 0) die_job();
    if (err) { errno = err; return -1; }
    fd = __real_open(path, flags, mode);
    sim_note("open %s %x -> %d", path, flags, fd >= 0);
    if (fd >= 0) sim_open_note(path, wr, fd);
    return fd;
}
int __wrap_open(const char *path, int flags, ...) {
    va_list ap; int m; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, m);
}
int __wrap_open64(const char *path, int flags, ...) {
    va_list ap; int m; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    return do_open(path, flags, m);
}
int __wrap_close(int fd) {
    if (TRACKED(fd)) {
        long al; int err = sim_io_gate(IO_CLOSE, 0, &al), r;
        sim_yield();
        if (al < 0) die_job();
        close_note(fd);
        r = __real_close(fd);
        if (err) { errno = err; return -1; }
        return r;
    }
    return __real_close(fd);
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int p) {
    if (TRACKED(fd)) {
        long al; int err = sim_io_gate(IO_WRITE, (long)n, &al); ssize_t w;
        S->trace_hash = sim_fnv(&off, sizeof off, S->trace_hash);
        sim_yield();
        if (al < 0) { long m = -1 - al; if (m > 0) { if (p ? __real_pwrite(fd, b, m, off) : __real_write(fd, b, m)) {} } die_job(); }
        if (err) { errno = err; return -1; }
        w = p ? __real_pwrite(fd, b, al, off) : __real_write(fd, b, al);
        if (w > 0) S->iobytes_w += w;
        return w;
    }
    return p ? __real_pwrite(fd, b, n, off) : __real_write(fd, b, n);
}
static ssize_t do_read(int fd, void *b, size_t n, off_t off, int p) {
    if (TRACKED(fd)) {
        long al; int err = sim_io_gate(IO_READ, (long)n, &al); ssize_t w;
        sim_yield();
        if (al < 0) die_job();
        if (err) { errno = err; return -1; }
        w = p ? __real_pread(fd, b, al, off) : __real_read(fd, b, al);
        if (w > 0) S->iobytes_r += w;
        return w;
    }
    return p ? __real_pread(fd, b, n, off) : __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
int __wrap_ftruncate(int fd, off_t n) {
    if (TRACKED(fd)) {
        long al; int err = sim_io_gate(IO_TRUNC, (long)n, &al);
        sim_yield();
        if (al < 0) die_job();
        if (err) { errno = err; return -1; }
    }
    return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }

/* ------------------------------------------------- log of the simulated rank */
void sim_rank_log(const char *s) {
    size_t n = strlen(s);
    S->trace_hash = sim_fnv(s, n, S->trace_hash ^ (uint64_t)ME);
    if (log_fd >= 0) { if (syscall(SYS_write, log_fd, s, n) < 0 || syscall(SYS_write, log_fd, "\n", 1) < 0) {} }
}

/* ----------------------------------------------------------- exit handling */
static void rank_exit(int code, void *arg) {
    int to;
    (void)arg;
    if (ME < 0) return;
    if (!code && !job_over()) sim_check_guards();
    fflush(stdout); fflush(stderr);
    S->exit_code[ME] = code;
    S->trace_hash = sim_fnv(&code, sizeof code, S->trace_hash ^ ((uint64_t)ME << 40));
    sim_note("exit %d", code);
    if (S->use_mpi && (code != 0 || (S->inited[ME] && !S->finalized[ME]))) {
        /* as mpirun does: a process that fails, or leaves without MPI_Finalize, ends the job */
        if (S->nranks > 1 || code != 0 || !S->finalized[ME]) {
            S->dead_exit_rank = ME; S->dead_exit_code = code;
            __sync_synchronize();
            S->dead_exit = 1;
            syscall(SYS_exit_group, code ? code : 94);
        }
    }
    S->state[ME] = ST_DONE;
    to = -1;
    if (S->nranks > 1) {
        int r, left = 0;
        for (r = 0; r < S->nranks; ++r) left += S->state[r] != ST_DONE;
        if (left) { to = sched_pick(); if (to < 0) deadlock(); }
    }
    if (to >= 0) give_baton(to);
    syscall(SYS_exit_group, code);
}

/* ------------------------------------------------------------------ config */
static int rd_class(const char *s) {
    int i; for (i = 0; i < IO_NCLASS; ++i) if (!strcmp(s, cname[i])) return i;
    return -1;
}
static void parse_conf(const char *fn) {
    FILE *f = fopen(fn, "r"); char l[1024], k[64], v[900];
    if (!f) { fprintf(stderr, "sim: cannot open %s\n", fn); exit(98); }
    S->nranks = 1; S->p_switch = 0.3; S->p_eager = 0.5; S->p_sync = 0.3;
    S->max_events = 3000000; S->max_ticks = 40000000; S->epoch = 1000000000;
    while (fgets(l, sizeof l, f)) {
        if (l[0] == '#' || sscanf(l, "%63s %899[^\n]", k, v) < 2) continue;
#define NUM(nm, fld) else if (!strcmp(k, nm)) S->fld = atol(v)
#define DBL(nm, fld) else if (!strcmp(k, nm)) S->fld = atof(v)
        if (!strcmp(k, "seed")) S->seed = strtoull(v, 0, 0);
        NUM("nranks", nranks); DBL("p_switch", p_switch); DBL("p_eager", p_eager); DBL("p_sync", p_sync);
        NUM("policy", policy); NUM("policy_arg", policy_arg); NUM("redorder", redorder); NUM("poison", poison);
        NUM("clockmode", clockmode); NUM("epoch", epoch); DBL("p_gc", p_gc); NUM("replay", replay);
        NUM("exclusive_files", exclusive_files);
        NUM("max_events", max_events); NUM("max_ticks", max_ticks); NUM("trace_log", trace_log);
        NUM("aslrpad", aslrpad);
        else if (!strcmp(k, "cwd")) snprintf(S->cwd, sizeof S->cwd, "%s", v);
        else if (!strcmp(k, "out")) snprintf(S->out, sizeof S->out, "%s", v);
        else if (!strcmp(k, "override") && S->novr < MAXOVR) {
            long a; int b; if (sscanf(v, "%ld %d", &a, &b) == 2) { S->ovr[S->novr].idx = a; S->ovr[S->novr].rank = b; S->novr++; }
        }
        else if (!strcmp(k, "fault") && S->nfaults < MAXFAULT) {
            sim_fault *q = &S->faults[S->nfaults]; char w[5][64]; int n;
            memset(q, 0, sizeof *q);
            n = sscanf(v, "%63s %63s %63s %63s %63s", w[0], w[1], w[2], w[3], w[4]);
            if (n < 3) continue;
            q->rank = atoi(w[1]); q->cls = -1;
            if (!strcmp(w[0], "io")) { /* io rank class nth action:arg */
                char *c; q->kind = 'i'; q->cls = rd_class(w[2]); q->nth = atol(w[3]); q->action = w[4][0];
                c = strchr(w[4], ':'); q->arg = c ? atol(c + 1) : 0;
            } else if (!strcmp(w[0], "malloc")) { q->kind = 'm'; q->nth = atol(w[2]); }
            else if (!strcmp(w[0], "gc")) { q->kind = 'g'; q->nth = atol(w[2]); }
            else if (!strcmp(w[0], "kill")) { q->kind = 'k'; q->nth = atol(w[2]); }
            else if (!strcmp(w[0], "crash")) { q->kind = 'K'; q->nth = atol(w[2]); }
            else if (!strcmp(w[0], "stall")) { q->kind = 's'; q->nth = atol(w[2]); q->arg = n > 3 ? atol(w[3]) : 1000; }
            S->nfaults++;
        }
    }
    fclose(f);
    if (S->nranks < 1) S->nranks = 1;
    if (S->nranks > MAXR) S->nranks = MAXR;
}

/* ------------------------------------------------------------- supervision */
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); }
        else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s);
        else fputc(*s, f);
    }
    fputc('"', f);
}
#define JARR(nm, fld, fmt) do { int q_; fprintf(f, ",\"%s\":[", nm); \
    for (q_ = 0; q_ < S->nranks; ++q_) { fprintf(f, "%s" fmt, q_ ? "," : "", S->fld[q_]); } fprintf(f, "]"); } while (0)

static volatile sig_atomic_t alarmed = 0;
static void on_alarm(int s) { (void)s; alarmed = 1; }

extern const char *sim_mpi_names[];

static int supervise(int wall) {
    int status[MAXR], alive = S->nranks, r, crashed = -1, csig = 0, timeout = 0; FILE *f;
    const char *outcome;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, 0);
    memset(status, 0, sizeof status);
    { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = wall; setitimer(ITIMER_REAL, &it, 0); }
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR && alarmed) {
                timeout = 1; for (r = 0; r < S->nranks; ++r) if (pids[r]) kill(pids[r], SIGKILL);
                alarmed = 0;
            }
            if (errno == ECHILD) break;
            continue;
        }
        for (r = 0; r < S->nranks; ++r) if (pids[r] == p) {
            pids[r] = 0; status[r] = st; --alive;
            if (timeout) break;
            if (WIFSIGNALED(st) && !job_over() && crashed < 0) { crashed = r; csig = WTERMSIG(st); }
            if (crashed >= 0 || job_over()) {
                int q; for (q = 0; q < S->nranks; ++q) if (pids[q]) kill(pids[q], SIGKILL);
            }
        }
    }
    int code = 0;
    if (timeout) { outcome = "timeout"; code = 124; }
    else if (S->verdict) { outcome = "violation"; code = 96; }
    else if (S->killed_job) { outcome = "crash-injected"; code = 95; }
    else if (crashed >= 0) {
        int inj = 0, i; for (i = 0; i < S->nfaults; ++i) if (S->faults[i].kind == 'k' && S->faults[i].hits) inj = 1;
        outcome = inj && csig == SIGKILL ? "kill-injected" : "signal"; code = 128 + csig;
    }
    else if (S->aborted) { outcome = "abort"; code = S->abort_code & 255; if (!code) code = 1; }
    else if (S->dead_exit) { outcome = "exit-early"; code = S->dead_exit_code ? S->dead_exit_code & 255 : 94; }
    else {
        outcome = "exit";
        for (r = 0; r < S->nranks; ++r) if (WIFEXITED(status[r]) && WEXITSTATUS(status[r])) code = WEXITSTATUS(status[r]);
    }
    f = fopen(S->out, "w");
    if (!f) { fprintf(stderr, "sim: cannot write %s\n", S->out); return 99; }
    fprintf(f, "{\"outcome\":\"%s\",\"code\":%d,\"signal\":%d,\"signal_rank\":%d", outcome, code, csig, crashed);
    fprintf(f, ",\"abort_rank\":%d,\"exit_rank\":%d", S->aborted ? S->abort_rank : -1, S->dead_exit ? S->dead_exit_rank : -1);
    fprintf(f, ",\"vkind\":"); jstr(f, S->vkind); fprintf(f, ",\"vmsg\":"); jstr(f, S->vmsg);
    fprintf(f, ",\"nranks\":%d,\"nev\":%ld,\"ndec\":%ld,\"ticks\":%ld,\"nswitch\":%ld", S->nranks, S->nev, S->ndec, S->ticks, S->nswitch);
    fprintf(f, ",\"trace_hash\":\"%016lx\",\"sched_hash\":\"%016lx\"", (unsigned long)S->trace_hash, (unsigned long)S->sched_hash);
    { double m = 0; for (r = 0; r < S->nranks; ++r) if (S->vt[r] > m) m = S->vt[r]; fprintf(f, ",\"vtime\":%.6f", m); }
    JARR("malloc", nmalloc, "%ld"); JARR("gc", ngc, "%ld"); JARR("clock", nclock, "%ld"); JARR("io", iotot, "%ld");
    JARR("events", rev, "%ld");
    { int q, h, j, one; fprintf(f, ",\"asites\":["); for (q = 0; q < S->nranks; ++q) { fprintf(f, "%s[", q ? "," : ""); one = 0;
        for (h = 0; h < 320; ++h) if (S->asite[q][h].n) { fprintf(f, "%s[%ld,%ld", one++ ? "," : "", S->asite[q][h].site, S->asite[q][h].n);
            for (j = 0; j < 4; ++j) if (S->asite[q][h].ord[j]) { fprintf(f, ",%ld", S->asite[q][h].ord[j]); } fprintf(f, "]"); } fprintf(f, "]"); } fprintf(f, "]"); }
    JARR("live_comms", live_comms, "%ld"); JARR("live_reqs", live_reqs, "%ld"); JARR("livebytes", livebytes, "%ld"); JARR("finalized", finalized, "%d");
    { int c; fprintf(f, ",\"ioc\":{"); for (c = 0; c < IO_NCLASS; ++c) { fprintf(f, "%s\"%s\":[", c ? "," : "", cname[c]);
        for (r = 0; r < S->nranks; ++r) { fprintf(f, "%s%ld", r ? "," : "", S->ioc[r][c]); } fprintf(f, "]"); } fprintf(f, "}"); }
    fprintf(f, ",\"bytes_written\":%ld,\"bytes_read\":%ld", S->iobytes_w, S->iobytes_r);
    fprintf(f, ",\"eager\":%ld,\"rendezvous\":%ld,\"sync_colls\":%ld,\"early_exits\":%ld,\"stalls\":%ld,\"clock_jumps\":%ld,\"any_source\":%ld",
            S->c_eager, S->c_rendez, S->c_sync, S->c_early, S->c_stallfires, S->c_clockjump, S->c_anysrc);
    { int i; fprintf(f, ",\"fault_hits\":["); for (i = 0; i < S->nfaults; ++i) fprintf(f, "%s%ld", i ? "," : "", S->faults[i].hits); fprintf(f, "]"); }
    { int i; fprintf(f, ",\"calls\":{"); int first = 1; for (i = 0; i < 64; ++i) if (S->c_calls[i]) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", sim_mpi_names[i], S->c_calls[i]); first = 0; } fprintf(f, "}"); }
    { int i; fprintf(f, ",\"paths\":["); for (i = 0; i < S->npaths; ++i) { if (i) fputc(',', f); jstr(f, S->paths[i]); } fprintf(f, "]"); }
    if (!S->replay) { int i; fprintf(f, ",\"overrides\":["); for (i = 0; i < S->nrec; ++i) fprintf(f, "%s[%d,%d]", i ? "," : "", S->rec[i].idx, S->rec[i].rank); fprintf(f, "]"); }
    fprintf(f, "}\n");
    fclose(f);
    return code;
}

#include <execinfo.h>
static void on_crash(int sig) {
    void *b[40]; int n = backtrace(b, 40);
    backtrace_symbols_fd(b, n, 2);
    signal(sig, SIG_DFL); raise(sig);
}
static int child_main(int argc, char **argv) {
    char fn[700]; int fd;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    { struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); }
    snprintf(fn, sizeof fn, "stdout.%d", ME);
    fd = (int)syscall(SYS_openat, AT_FDCWD, fn, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644); dup2(fd, 1); syscall(SYS_close, fd);
    snprintf(fn, sizeof fn, "stderr.%d", ME);
    fd = (int)syscall(SYS_openat, AT_FDCWD, fn, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644); dup2(fd, 2); syscall(SYS_close, fd);
    fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0); dup2(fd, 0); if (fd) syscall(SYS_close, fd);
    snprintf(fn, sizeof fn, "log.%d", ME);
    fd = (int)syscall(SYS_openat, AT_FDCWD, fn, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
    log_fd = fcntl(fd, F_DUPFD, 200); syscall(SYS_close, fd);
    if (S->trace_log) {
        fd = (int)syscall(SYS_openat, AT_FDCWD, "trace.log", O_CREAT | O_WRONLY | O_APPEND, 0644);
        trace_fd = fcntl(fd, F_DUPFD, 200); syscall(SYS_close, fd);
    }
    if (S->aslrpad) { if (!malloc(S->aslrpad)) return 1; }
    if (getenv("SIM_BT")) { signal(SIGFPE, on_crash); signal(SIGSEGV, on_crash); signal(SIGABRT, on_crash); signal(SIGBUS, on_crash); }
    on_exit(rank_exit, NULL);
    wait_baton();
    exit(mpb_real_main(argc, argv));
}

int main(int argc, char **argv) {
    const char *conf = getenv("SIM_CONF"); int r, pers;
    if (!conf) { fprintf(stderr, "SIM_CONF not set\n"); return 98; }
    pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) {
        personality(pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_NOPERS", "1", 1);
        execv("/proc/self/exe", argv);
    }
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 98; }
    S->heap_size = (size_t)2 << 30;
    S->heap = mmap(NULL, S->heap_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S->heap == MAP_FAILED) { perror("mmap heap"); return 98; }
    parse_conf(conf);
    if (chdir(S->cwd)) { perror(S->cwd); return 98; }
    for (r = 0; r < S->nranks; ++r) S->prio[r] = (int)(sim_hash3(H_SCHED, 999, r) % 1000);
    S->cur = S->replay || S->nranks == 1 ? 0 : (int)(sim_hash3(H_SCHED, 998, 0) % S->nranks);
    S->cur = 0;
    S->nctx = 2;
    fflush(stdout);
    for (r = 0; r < S->nranks; ++r) {
        pid_t p = fork();
        if (p == 0) { ME = r; child_main(argc, argv); _exit(0); }
        if (p < 0) { perror("fork"); for (r = 0; r < S->nranks; ++r) if (pids[r]) kill(pids[r], SIGKILL); return 98; }
        pids[r] = p;
    }
    { const char *w = getenv("SIM_WALL"); return supervise(w ? atoi(w) : 120); }
}
