/* Simulated MPI (Open MPI 4 ABI, so MPI-enabled FFTW and HDF5 static libraries
   link against it unchanged).  All state shared between the simulated processes
   lives in S; every call is a scheduling point. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <mpi.h>

const char *sim_mpi_names[64] = {
    "?", "Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Gatherv", "Scatter", "Scatterv", "Allgather",
    "Allgatherv", "Alltoall", "Alltoallv", "Scan", "Reduce_scatter", "Comm_split", "Comm_dup", "Comm_free",
    "Send", "Recv", "Isend", "Irecv", "Sendrecv", "Probe", "Wait", "Test", "Init", "Finalize", "Abort",
    "File_open", "File_close", "File_write_at", "File_read_at", "File_write_at_all", "File_read_at_all",
    "File_set_size", "File_set_view", "File_sync", "Ibarrier", "Comm_create", "File_misc", "Exscan", "Ssend", "Issend"
};
enum { F_BARRIER = 1, F_BCAST, F_REDUCE, F_ALLREDUCE, F_GATHER, F_GATHERV, F_SCATTER, F_SCATTERV, F_ALLGATHER,
       F_ALLGATHERV, F_ALLTOALL, F_ALLTOALLV, F_SCAN, F_REDSCAT, F_SPLIT, F_DUP, F_CFREE, F_SEND, F_RECV, F_ISEND,
       F_IRECV, F_SENDRECV, F_PROBE, F_WAIT, F_TESTRQ, F_INIT, F_FINALIZE, F_ABORT, F_FOPEN, F_FCLOSE, F_FWRITE,
       F_FREAD, F_FWRITEALL, F_FREADALL, F_FSETSIZE, F_FVIEW, F_FSYNC, F_IBARRIER, F_CCREATE, F_FMISC, F_EXSCAN,
       F_SSEND, F_ISSEND };
enum { H_MSG = 101, H_COLL, H_RED, H_ANY };

/* ----------------------------------------------------------------- handles */
typedef struct seg { MPI_Aint off, len; } seg;
enum { B_NONE = 0, B_CHAR, B_UCHAR, B_SHORT, B_USHORT, B_INT, B_UINT, B_LONG, B_ULONG, B_FLOAT, B_DOUBLE, B_LDOUBLE,
       B_CFLOAT, B_CDOUBLE, B_DI, B_2I, B_FI, B_LI, B_BYTE };
struct ompi_datatype_t { int predefined, basic; MPI_Aint size, lb, extent; int nseg; seg *s; };
struct ompi_communicator_t { int ctx, n, rank, members[MAXR]; long seq; int freed; MPI_Errhandler eh;
    int nattr; struct { int key; void *v; } attr[8]; };
struct ompi_op_t { int kind; MPI_User_function *f; };
struct ompi_errhandler_t { int k; };
struct ompi_info_t { int n; char k[16][64], v[16][256]; };
struct ompi_group_t { int n, m[MAXR]; };
struct ompi_request_t { int kind, done, err; /* 1 send, 2 recv, 3 ibarrier, 0 null */ int ctx, src, tag; void *buf; int count; MPI_Datatype t;
    MPI_Status st; int msgid; long msgorder; sim_coll *c; uint32_t mask; struct ompi_request_t *next; MPI_Comm comm; int cancelled; };
struct ompi_message_t { int k; };
struct ompi_file_t { int fd; MPI_Comm comm; MPI_Offset disp; MPI_Datatype et, ft; int atomic; int amode; char *name; MPI_Errhandler eh; };
struct ompi_win_t { int k; };

#define PAD(nm) struct ompi_predefined_##nm##_t { struct ompi_##nm##_t x; }
PAD(communicator); PAD(datatype); PAD(op); PAD(errhandler); PAD(info); PAD(group); PAD(file); PAD(win); PAD(message);
struct ompi_predefined_request_t { struct ompi_request_t x; };

struct ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
struct ompi_predefined_group_t ompi_mpi_group_empty, ompi_mpi_group_null;
struct ompi_predefined_request_t ompi_request_null;
struct ompi_predefined_message_t ompi_message_null, ompi_message_no_proc;
struct ompi_predefined_win_t ompi_mpi_win_null;
struct ompi_predefined_file_t ompi_mpi_file_null;
struct ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
struct ompi_predefined_errhandler_t ompi_mpi_errhandler_null, ompi_mpi_errors_are_fatal, ompi_mpi_errors_return;
enum { O_NULL, O_MIN, O_MAX, O_SUM, O_PROD, O_LAND, O_BAND, O_LOR, O_BOR, O_LXOR, O_BXOR, O_MAXLOC, O_MINLOC, O_REPL, O_NOOP, O_USER };
#define OP(n, k) struct ompi_predefined_op_t ompi_mpi_op_##n = { { k, 0 } }
OP(null, O_NULL); OP(min, O_MIN); OP(max, O_MAX); OP(sum, O_SUM); OP(prod, O_PROD); OP(land, O_LAND); OP(band, O_BAND);
OP(lor, O_LOR); OP(bor, O_BOR); OP(lxor, O_LXOR); OP(bxor, O_BXOR); OP(maxloc, O_MAXLOC); OP(minloc, O_MINLOC);
OP(replace, O_REPL); OP(no_op, O_NOOP);
#define DT(n, b, sz) static seg seg_##n = { 0, sz }; \
    struct ompi_predefined_datatype_t ompi_mpi_##n = { { 1, b, sz, 0, sz, 1, &seg_##n } }
struct ompi_predefined_datatype_t ompi_mpi_datatype_null;
DT(char, B_CHAR, 1); DT(signed_char, B_CHAR, 1); DT(unsigned_char, B_UCHAR, 1); DT(byte, B_BYTE, 1); DT(short, B_SHORT, 2);
DT(unsigned_short, B_USHORT, 2); DT(int, B_INT, 4); DT(unsigned, B_UINT, 4); DT(long, B_LONG, 8); DT(unsigned_long, B_ULONG, 8);
DT(long_long_int, B_LONG, 8); DT(unsigned_long_long, B_ULONG, 8); DT(float, B_FLOAT, 4); DT(double, B_DOUBLE, 8);
DT(long_double, B_LDOUBLE, 16); DT(wchar, B_INT, 4); DT(packed, B_BYTE, 1);
DT(cxx_bool, B_UCHAR, 1); DT(cxx_cplex, B_CFLOAT, 8); DT(cxx_dblcplex, B_CDOUBLE, 16); DT(cxx_ldblcplex, B_NONE, 32);
DT(2int, B_2I, 8); DT(float_int, B_FI, 8); DT(double_int, B_DI, 12); DT(long_int, B_LI, 12); DT(longdbl_int, B_NONE, 20); DT(short_int, B_NONE, 6);
DT(int8_t, B_CHAR, 1); DT(uint8_t, B_UCHAR, 1); DT(int16_t, B_SHORT, 2); DT(uint16_t, B_USHORT, 2); DT(int32_t, B_INT, 4);
DT(uint32_t, B_UINT, 4); DT(int64_t, B_LONG, 8); DT(uint64_t, B_ULONG, 8); DT(aint, B_LONG, 8); DT(offset, B_LONG, 8); DT(count, B_LONG, 8);
DT(c_bool, B_UCHAR, 1); DT(c_float_complex, B_CFLOAT, 8); DT(c_double_complex, B_CDOUBLE, 16); DT(c_long_double_complex, B_NONE, 32);
DT(integer, B_INT, 4); DT(dblprec, B_DOUBLE, 8); DT(dblcplex, B_CDOUBLE, 16); DT(real, B_FLOAT, 4);
DT(logical, B_INT, 4); DT(character, B_CHAR, 1);
MPI_Fint *MPI_F_STATUS_IGNORE, *MPI_F_STATUSES_IGNORE;

static void __attribute__((constructor)) fixtypes(void) {
    /* the pair types have C struct layout */
    static seg di[2] = { { 0, 8 }, { 8, 4 } };
    ompi_mpi_double_int.x.extent = 16; ompi_mpi_double_int.x.nseg = 2; ompi_mpi_double_int.x.s = di;
    ompi_mpi_long_int.x.extent = 16; ompi_mpi_long_int.x.nseg = 2; ompi_mpi_long_int.x.s = di;
}

#define WORLD (&ompi_mpi_comm_world.x)
#define SELF (&ompi_mpi_comm_self.x)
static int ready = 0;

static void misuse(const char *fn, const char *what) {
    sim_violation("mpi-misuse", "%s: %s (rank %d)", fn, what, ME);
}
static void enter(int f, uint64_t h) {
    char nm[48];
    if (!S->inited[ME] || S->finalized[ME] == 1) misuse(sim_mpi_names[f], "called outside MPI_Init..MPI_Finalize");
    S->c_calls[f]++;
    snprintf(nm, sizeof nm, "MPI_%s", sim_mpi_names[f]);
    sim_event(nm, h);
    sim_yield();
}
static MPI_Comm ck(MPI_Comm c, const char *fn) {
    if (!c || c == MPI_COMM_NULL || c->freed) misuse(fn, "invalid communicator");
    return c;
}

/* ---------------------------------------------------------- datatype pack */
static int contig(MPI_Datatype t) { return t->nseg == 1 && t->s[0].off == 0 && t->s[0].len == t->size && t->extent == t->size; }
static void packn(void *dst, const void *src, long count, MPI_Datatype t) {
    char *d = dst; long i; int k;
    if (contig(t)) { if (count > 0) memcpy(d, src, count * t->size); return; }
    for (i = 0; i < count; ++i) for (k = 0; k < t->nseg; ++k) {
        memcpy(d, (const char *)src + i * t->extent + t->s[k].off, t->s[k].len); d += t->s[k].len; }
}
static void unpackb(void *dst, const void *src, long bytes, MPI_Datatype t) {
    const char *s = src; long i; int k;
    if (bytes <= 0) return;
    if (contig(t)) { memcpy(dst, src, bytes); return; }
    for (i = 0; bytes > 0; ++i) for (k = 0; k < t->nseg && bytes > 0; ++k) {
        long l = t->s[k].len < bytes ? t->s[k].len : bytes;
        memcpy((char *)dst + i * t->extent + t->s[k].off, s, l); s += l; bytes -= l; }
}
static MPI_Aint span(long count, MPI_Datatype t) { return count > 0 ? (count - 1) * t->extent + (t->s ? t->lb + t->extent : 0) : 0; }
static void alias(const char *fn, const void *a, MPI_Aint na, const void *b, MPI_Aint nb) {
    if (a == MPI_IN_PLACE || b == MPI_IN_PLACE || na <= 0 || nb <= 0 || !a || !b) return;
    if ((const char *)a < (const char *)b + nb && (const char *)b < (const char *)a + na)
        misuse(fn, "send and receive buffers overlap");
}
static uint64_t ph(const void *p, long count, MPI_Datatype t) {
    uint64_t h; void *b;
    if (count <= 0) return 7;
    if (contig(t)) return sim_fnv(p, count * t->size, 0);
    b = malloc(count * t->size + 1); packn(b, p, count, t); h = sim_fnv(b, count * t->size, 0); free(b); return h;
}

/* -------------------------------------------------------------- collectives */
static const char *cwhere(int kind, MPI_Comm c, long seq) {
    static char b[150]; snprintf(b, sizeof b, "in MPI_%s, operation %ld on communicator %d", sim_mpi_names[kind], seq, c->ctx); return b;
}
static sim_coll *coll_get(MPI_Comm c, int kind, int root, int op, long count, MPI_Datatype t) {
    int i, fr = -1; sim_coll *s; long seq = c->seq++; int bt = t ? t->basic : 0;
    for (i = 0; i < S->coll_hi; ++i) {
        s = &S->coll[i];
        if (!s->used) { if (fr < 0) fr = i; continue; }
        if (s->ctx == c->ctx && s->seq == seq) {
            if (s->kind != kind || s->root != root || s->op != op || s->count != count || (s->dtype != bt && (op >= 0)))
                sim_violation("collective-mismatch",
                    "operation %ld on communicator %d: rank %d calls MPI_%s(root %d, op %d, size %ld, type %d) but rank %d called MPI_%s(root %d, op %d, size %ld, type %d)",
                    seq, c->ctx, ME, sim_mpi_names[kind], root, op, count, bt, s->first, sim_mpi_names[s->kind], s->root, s->op, s->count, s->dtype);
            return s;
        }
    }
    if (fr < 0) { if (S->coll_hi >= MAXCOLL) misuse("collective", "too many outstanding collectives"); fr = S->coll_hi++; }
    s = &S->coll[fr]; memset(s, 0, sizeof *s);
    s->used = 1; s->ctx = c->ctx; s->seq = seq; s->kind = kind; s->root = root; s->op = op; s->count = count; s->dtype = bt;
    s->n = c->n; s->first = ME;
    return s;
}
static void coll_put(sim_coll *s, MPI_Comm c, const void *b, size_t len) {
    int i;
    s->data[c->rank] = NULL; s->len[c->rank] = len;
    if (len) { s->data[c->rank] = shm_alloc(len); memcpy(s->data[c->rank], b, len); }
    s->arrived |= 1u << c->rank;
    if (S->vt[ME] > s->tmax) s->tmax = S->vt[ME];
    for (i = 0; i < c->n; ++i) if (c->members[i] != ME) sim_wake(c->members[i]);
}
static void coll_putt(sim_coll *s, MPI_Comm c, const void *b, long count, MPI_Datatype t) {
    if (contig(t)) coll_put(s, c, b, count * t->size);
    else { void *p = malloc(count * t->size + 1); packn(p, b, count, t); coll_put(s, c, p, count * t->size); free(p); }
}
static void progress(void);
static void coll_wait(sim_coll *s, MPI_Comm c, uint32_t mask) {
    uint32_t all = (1u << c->n) - 1;
    if ((mask & all) != all) {
        if (sim_u(H_COLL, (uint64_t)s->ctx << 32 | s->seq, c->rank) < S->p_sync) { mask = all; S->c_sync++; }
        else if (c->n > 1) S->c_early++;
    }
    while ((s->arrived & mask) != mask) { sim_block(cwhere(s->kind, c, s->seq)); progress(); }
    if (s->tmax > S->vt[ME]) S->vt[ME] = s->tmax;
}
static void coll_leave(sim_coll *s, MPI_Comm c) {
    int i;
    s->left |= 1u << c->rank;
    if (s->left == (1u << c->n) - 1) {
        for (i = 0; i < c->n; ++i) shm_free(s->data[i], s->len[i]);
        shm_free(s->res, s->reslen);
        s->used = 0;
        while (S->coll_hi > 0 && !S->coll[S->coll_hi - 1].used) S->coll_hi--;
    }
}
#define ALL(c) ((1u << (c)->n) - 1)

static void reduce2(void *acc, const void *in, long n, int op, int bt, MPI_Datatype t) {
    long i;
#define R(T) { T *a = acc; const T *b = in; for (i = 0; i < n; ++i) switch (op) { \
        case O_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case O_MAX: if (b[i] > a[i]) a[i] = b[i]; break; \
        case O_SUM: a[i] = a[i] + b[i]; break; case O_PROD: a[i] = a[i] * b[i]; break; \
        case O_LAND: a[i] = a[i] && b[i]; break; case O_LOR: a[i] = a[i] || b[i]; break; case O_LXOR: a[i] = !a[i] != !b[i]; break; \
        default: misuse("reduction", "unsupported operation"); } } break
#define RI(T) { T *a = acc; const T *b = in; for (i = 0; i < n; ++i) switch (op) { \
        case O_BAND: a[i] &= b[i]; break; case O_BOR: a[i] |= b[i]; break; case O_BXOR: a[i] ^= b[i]; break; } } break
    if (op == O_BAND || op == O_BOR || op == O_BXOR) switch (bt) {
        case B_CHAR: case B_UCHAR: case B_BYTE: RI(unsigned char); case B_SHORT: case B_USHORT: RI(unsigned short);
        case B_INT: case B_UINT: RI(unsigned); case B_LONG: case B_ULONG: RI(unsigned long);
        default: misuse("reduction", "bitwise operation on a non-integer type"); }
    else if (op == O_MAXLOC || op == O_MINLOC) {
#define RL(T, TI) { char *a = acc; const char *b = in; for (i = 0; i < n; ++i, a += sizeof(T) + sizeof(TI), b += sizeof(T) + sizeof(TI)) { T x, y; TI p, q; \
        memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); memcpy(&p, a + sizeof x, sizeof p); memcpy(&q, b + sizeof x, sizeof q); \
        if ((op == O_MAXLOC ? y > x : y < x) || (y == x && q < p)) memcpy(a, b, sizeof(T) + sizeof(TI)); } } break
        switch (bt) { case B_DI: RL(double, int); case B_2I: RL(int, int); case B_FI: RL(float, int); case B_LI: RL(long, int);
            default: misuse("reduction", "MAXLOC/MINLOC on an unsupported type"); }
    } else switch (bt) {
        case B_CHAR: R(signed char); case B_UCHAR: case B_BYTE: R(unsigned char); case B_SHORT: R(short); case B_USHORT: R(unsigned short);
        case B_INT: R(int); case B_UINT: R(unsigned); case B_LONG: R(long); case B_ULONG: R(unsigned long);
        case B_FLOAT: R(float); case B_DOUBLE: R(double); case B_LDOUBLE: R(long double);
        case B_CDOUBLE: if (op != O_SUM) misuse("reduction", "unsupported complex operation"); n *= 2; R(double);
        case B_CFLOAT: if (op != O_SUM) misuse("reduction", "unsupported complex operation"); n *= 2; R(float);
        default: misuse("reduction", "unsupported type"); }
}
/* the order in which a reduction combines contributions is the implementation's choice */
static void combine(sim_coll *s, int upto, MPI_Op op, MPI_Datatype t, void *out) {
    int ord[MAXR] = { 0 }, i, n = upto; long cnt = s->count / (t->size ? t->size : 1);
    size_t len = s->count;
    for (i = 0; i < n; ++i) ord[i] = i;
    if (S->redorder == 1) for (i = 0; i < n; ++i) ord[i] = n - 1 - i;
    if (S->redorder == 2) for (i = n - 1; i > 0; --i) {
        int j = sim_hash3(H_RED, (uint64_t)s->ctx << 32 | s->seq, i) % (i + 1), q = ord[i]; ord[i] = ord[j]; ord[j] = q; }
    if (S->redorder == 3) { /* binary tree */
        char *tmp = malloc(len * n + 1); int st;
        for (i = 0; i < n; ++i) memcpy(tmp + i * len, s->data[i], len);
        for (st = 1; st < n; st *= 2) for (i = 0; i + st < n; i += 2 * st)
            reduce2(tmp + i * len, tmp + (i + st) * len, cnt, op->kind, t->basic, t);
        memcpy(out, tmp, len); free(tmp); return;
    }
    memcpy(out, s->data[ord[0]], len);
    for (i = 1; i < n; ++i) reduce2(out, s->data[ord[i]], cnt, op->kind, t->basic, t);
}
static void ckred(const char *fn, MPI_Op op, MPI_Datatype t) {
    if (!op || op->kind == O_NULL || op->kind >= O_REPL) misuse(fn, "invalid reduction operation");
    if (!t->basic) misuse(fn, "invalid reduction type");
}
static void ckroot(const char *fn, MPI_Comm c, int root) { if (root < 0 || root >= c->n) misuse(fn, "root outside the communicator"); }

int MPI_Barrier(MPI_Comm c) {
    sim_coll *s; ck(c, "MPI_Barrier"); enter(F_BARRIER, c->ctx); progress();
    s = coll_get(c, F_BARRIER, 0, -1, 0, NULL); coll_put(s, c, NULL, 0); coll_wait(s, c, ALL(c)); coll_leave(s, c); return 0;
}
int MPI_Bcast(void *b, int count, MPI_Datatype t, int root, MPI_Comm c) {
    sim_coll *s; ck(c, "MPI_Bcast"); ckroot("MPI_Bcast", c, root);
    enter(F_BCAST, c->rank == root ? ph(b, count, t) : 0); progress();
    s = coll_get(c, F_BCAST, root, -1, (long)count * t->size, t);
    if (c->rank == root) { coll_putt(s, c, b, count, t); coll_wait(s, c, 1u << root); }
    else { coll_put(s, c, NULL, 0); coll_wait(s, c, 1u << root | 1u << c->rank); unpackb(b, s->data[root], s->len[root], t); }
    coll_leave(s, c); return 0;
}
int MPI_Reduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    sim_coll *s; const void *in = sb == MPI_IN_PLACE ? rb : sb; ck(c, "MPI_Reduce"); ckroot("MPI_Reduce", c, root); ckred("MPI_Reduce", op, t);
    if (c->rank == root) alias("MPI_Reduce", sb, span(count, t), rb, span(count, t));
    enter(F_REDUCE, ph(in, count, t)); progress();
    s = coll_get(c, F_REDUCE, root, op->kind, (long)count * t->size, t); coll_putt(s, c, in, count, t);
    coll_wait(s, c, c->rank == root ? ALL(c) : 1u << c->rank);
    if (c->rank == root && count) { void *o = malloc(s->count); combine(s, c->n, op, t, o); unpackb(rb, o, s->count, t); free(o); }
    coll_leave(s, c); return 0;
}
int MPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    sim_coll *s; const void *in = sb == MPI_IN_PLACE ? rb : sb; ck(c, "MPI_Allreduce"); ckred("MPI_Allreduce", op, t);
    alias("MPI_Allreduce", sb, span(count, t), rb, span(count, t));
    enter(F_ALLREDUCE, ph(in, count, t)); progress();
    s = coll_get(c, F_ALLREDUCE, 0, op->kind, (long)count * t->size, t); coll_putt(s, c, in, count, t); coll_wait(s, c, ALL(c));
    if (count) {
        if (!s->res) { s->reslen = s->count; s->res = shm_alloc(s->count); combine(s, c->n, op, t, s->res); }
        unpackb(rb, s->res, s->count, t);
    }
    coll_leave(s, c); return 0;
}
static int scan(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c, int ex) {
    sim_coll *s; const void *in = sb == MPI_IN_PLACE ? rb : sb; ck(c, "MPI_Scan"); ckred("MPI_Scan", op, t);
    alias("MPI_Scan", sb, span(count, t), rb, span(count, t));
    enter(ex ? F_EXSCAN : F_SCAN, ph(in, count, t)); progress();
    s = coll_get(c, ex ? F_EXSCAN : F_SCAN, 0, op->kind, (long)count * t->size, t); coll_putt(s, c, in, count, t);
    coll_wait(s, c, (2u << c->rank) - 1);
    if (count && (!ex || c->rank > 0)) { void *o = malloc(s->count); combine(s, ex ? c->rank : c->rank + 1, op, t, o); unpackb(rb, o, s->count, t); free(o); }
    coll_leave(s, c); return 0;
}
int MPI_Scan(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(a, b, n, t, op, c, 0); }
int MPI_Exscan(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(a, b, n, t, op, c, 1); }
static int gath(int kind, const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, const int *ds, int rc1, MPI_Datatype rt, int root, MPI_Comm c) {
    sim_coll *s; int i, me = c->rank, recv = root < 0 || me == root; const char *fn = sim_mpi_names[kind];
    ck(c, fn); if (root >= 0) ckroot(fn, c, root);
    if (sb == MPI_IN_PLACE) { st = rt; sc = rcs ? rcs[me] : rc1; sb = (char *)rb + (rcs ? ds[me] : me * rc1) * rt->extent; }
    else if (recv && !rcs) alias(fn, sb, span(sc, st), rb, span((long)rc1 * c->n, rt));
    enter(kind, ph(sb, sc, st)); progress();
    s = coll_get(c, kind, root, -1, rcs || kind == F_GATHERV || kind == F_ALLGATHERV ? 0 : (long)sc * st->size, NULL);
    coll_putt(s, c, sb, sc, st); coll_wait(s, c, recv ? ALL(c) : 1u << me);
    if (recv) for (i = 0; i < c->n; ++i) {
        long want = (long)(rcs ? rcs[i] : rc1) * rt->size;
        if ((long)s->len[i] != want) sim_violation("collective-mismatch", "MPI_%s: rank %d sent %ld bytes, rank %d expects %ld", fn, c->members[i], (long)s->len[i], ME, want);
        if (i != me || (const char *)sb != (char *)rb + (rcs ? ds[i] : (long)i * rc1) * rt->extent)
            unpackb((char *)rb + (rcs ? ds[i] : (long)i * rc1) * rt->extent, s->data[i], s->len[i], rt);
    }
    coll_leave(s, c); return 0;
}
int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) { return gath(F_GATHER, sb, sc, st, rb, 0, 0, rc, rt, root, c); }
int MPI_Gatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, const int *ds, MPI_Datatype rt, int root, MPI_Comm c) { return gath(F_GATHERV, sb, sc, st, rb, rcs, ds, 0, rt, root, c); }
int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c) { return gath(F_ALLGATHER, sb, sc, st, rb, 0, 0, rc, rt, -1, c); }
int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, const int *ds, MPI_Datatype rt, MPI_Comm c) { return gath(F_ALLGATHERV, sb, sc, st, rb, rcs, ds, 0, rt, -1, c); }
static int scat(int kind, const void *sb, const int *scs, const int *ds, int sc1, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
    sim_coll *s; int i, me = c->rank; const char *fn = sim_mpi_names[kind]; ck(c, fn); ckroot(fn, c, root);
    enter(kind, me == root); progress();
    s = coll_get(c, kind, root, -1, 0, NULL);
    if (me == root) {
        long tot = 0, o = 0, *hd; char *b;
        for (i = 0; i < c->n; ++i) tot += (long)(scs ? scs[i] : sc1) * st->size;
        b = malloc(tot + sizeof(long) * c->n + 1); hd = (long *)b; o = sizeof(long) * c->n;
        for (i = 0; i < c->n; ++i) { long k = scs ? scs[i] : sc1; hd[i] = k * st->size;
            packn(b + o, (const char *)sb + (scs ? ds[i] : (long)i * sc1) * st->extent, k, st); o += hd[i]; }
        S->trace_hash = sim_fnv(b, o, S->trace_hash);
        coll_put(s, c, b, o); free(b); coll_wait(s, c, 1u << root);
    } else { coll_put(s, c, NULL, 0); coll_wait(s, c, 1u << root | 1u << me); }
    if (rb != MPI_IN_PLACE) {
        long *hd = s->data[root], o = sizeof(long) * c->n;
        for (i = 0; i < me; ++i) o += hd[i];
        if (hd[me] != (long)rc * rt->size) sim_violation("collective-mismatch", "MPI_%s: root sends %ld bytes to rank %d which expects %ld", fn, hd[me], ME, (long)rc * rt->size);
        unpackb(rb, (char *)s->data[root] + o, hd[me], rt);
    }
    coll_leave(s, c); return 0;
}
int MPI_Scatter(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) { return scat(F_SCATTER, sb, 0, 0, sc, st, rb, rc, rt, root, c); }
int MPI_Scatterv(const void *sb, const int *scs, const int *ds, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) { return scat(F_SCATTERV, sb, scs, ds, 0, st, rb, rc, rt, root, c); }
static int a2a(int kind, const void *sb, const int *scs, const int *sd, int sc1, MPI_Datatype st, void *rb, const int *rcs, const int *rd, int rc1, MPI_Datatype rt, MPI_Comm c) {
    sim_coll *s; int i, me = c->rank; long tot = 0, o, *hd; char *b; const char *fn = sim_mpi_names[kind]; ck(c, fn);
    if (sb == MPI_IN_PLACE) { sb = rb; scs = rcs; sd = rd; sc1 = rc1; st = rt; }
    else if (!scs) alias(fn, sb, span((long)sc1 * c->n, st), rb, span((long)rc1 * c->n, rt));
    for (i = 0; i < c->n; ++i) tot += (long)(scs ? scs[i] : sc1) * st->size;
    b = malloc(tot + sizeof(long) * c->n + 1); hd = (long *)b; o = sizeof(long) * c->n;
    for (i = 0; i < c->n; ++i) { long k = scs ? scs[i] : sc1; hd[i] = k * st->size;
        packn(b + o, (const char *)sb + (scs ? (long)sd[i] : (long)i * sc1) * st->extent, k, st); o += hd[i]; }
    enter(kind, sim_fnv(b, o, 0)); progress();
    s = coll_get(c, kind, 0, -1, scs ? 0 : (long)sc1 * st->size, NULL);
    coll_put(s, c, b, o); free(b); coll_wait(s, c, ALL(c));
    for (i = 0; i < c->n; ++i) {
        long *h = s->data[i], off = sizeof(long) * c->n, want = (long)(rcs ? rcs[i] : rc1) * rt->size; int q;
        for (q = 0; q < me; ++q) off += h[q];
        if (h[me] != want) sim_violation("collective-mismatch", "MPI_%s: rank %d sends %ld bytes to rank %d which expects %ld", fn, c->members[i], h[me], ME, want);
        unpackb((char *)rb + (rcs ? (long)rd[i] : (long)i * rc1) * rt->extent, (char *)s->data[i] + off, want, rt);
    }
    coll_leave(s, c); return 0;
}
int MPI_Alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c) { return a2a(F_ALLTOALL, sb, 0, 0, sc, st, rb, 0, 0, rc, rt, c); }
int MPI_Alltoallv(const void *sb, const int *scs, const int *sd, MPI_Datatype st, void *rb, const int *rcs, const int *rd, MPI_Datatype rt, MPI_Comm c) { return a2a(F_ALLTOALLV, sb, scs, sd, 0, st, rb, rcs, rd, 0, rt, c); }
static int redscat(const void *sb, void *rb, const int *rcs, int rc1, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    long tot = 0, o = 0; int i; void *b;
    for (i = 0; i < c->n; ++i) { if (i < c->rank) o += rcs ? rcs[i] : rc1; tot += rcs ? rcs[i] : rc1; }
    b = malloc(tot * t->extent + 1);
    MPI_Allreduce(sb == MPI_IN_PLACE ? rb : sb, b, tot, t, op, c);
    memcpy(rb, (char *)b + o * t->extent, (rcs ? rcs[c->rank] : rc1) * t->extent); free(b); return 0;
}
int MPI_Reduce_scatter(const void *sb, void *rb, const int *rcs, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return redscat(sb, rb, rcs, 0, t, op, c); }
int MPI_Reduce_scatter_block(const void *sb, void *rb, int rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return redscat(sb, rb, 0, rc, t, op, c); }

/* ------------------------------------------------------------ communicators */
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = ck(c, "MPI_Comm_rank")->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = ck(c, "MPI_Comm_size")->n; return 0; }
static MPI_Comm newcomm(void) { MPI_Comm n = calloc(1, sizeof *n); S->live_comms[ME]++; return n; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
    sim_coll *s; int v[2] = { color, key }, i, j, n = 0, idx[MAXR]; MPI_Comm r; ck(c, "MPI_Comm_split");
    enter(F_SPLIT, (uint64_t)(uint32_t)color << 32 | (uint32_t)key); progress();
    if (color < 0 && color != MPI_UNDEFINED) misuse("MPI_Comm_split", "negative color");
    s = coll_get(c, F_SPLIT, 0, -1, 0, NULL); coll_put(s, c, v, sizeof v); coll_wait(s, c, ALL(c));
    if (!s->aux[0]) { s->aux[0] = S->nctx; S->nctx += c->n; }
    *out = MPI_COMM_NULL;
    if (color != MPI_UNDEFINED) {
        for (i = 0; i < c->n; ++i) if (((int *)s->data[i])[0] == color) idx[n++] = i;
        for (i = 1; i < n; ++i) for (j = i; j > 0 && ((int *)s->data[idx[j]])[1] < ((int *)s->data[idx[j - 1]])[1]; --j) { int q = idx[j]; idx[j] = idx[j - 1]; idx[j - 1] = q; }
        r = newcomm(); r->n = n;
        { int lo = idx[0]; for (i = 1; i < n; ++i) if (idx[i] < lo) lo = idx[i]; r->ctx = (int)s->aux[0] + lo; }
        for (i = 0; i < n; ++i) { r->members[i] = c->members[idx[i]]; if (idx[i] == c->rank) r->rank = i; }
        *out = r;
    }
    coll_leave(s, c); return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
    sim_coll *s; MPI_Comm r; ck(c, "MPI_Comm_dup"); enter(F_DUP, c->ctx); progress();
    s = coll_get(c, F_DUP, 0, -1, 0, NULL); coll_put(s, c, NULL, 0); coll_wait(s, c, ALL(c));
    if (!s->aux[0]) s->aux[0] = S->nctx++;
    r = newcomm(); *r = *c; r->ctx = (int)s->aux[0]; r->seq = 0; r->nattr = 0; *out = r;
    coll_leave(s, c); return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
    MPI_Comm k; ck(*c, "MPI_Comm_free"); if (*c == WORLD || *c == SELF) misuse("MPI_Comm_free", "predefined communicator");
    enter(F_CFREE, (*c)->ctx); k = *c; k->freed = 1; *c = MPI_COMM_NULL; S->live_comms[ME]--; return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    if (a == b) *r = MPI_IDENT;
    else if (a->n == b->n && !memcmp(a->members, b->members, sizeof(int) * a->n)) *r = MPI_CONGRUENT;
    else *r = MPI_UNEQUAL;
    return 0;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { (void)f; return MPI_COMM_NULL; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { c->eh = e; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { *e = c->eh ? c->eh : MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return 0; }
static struct { MPI_Comm_delete_attr_function *del; } keys[32]; static int nkeys = 1;
int OMPI_C_MPI_COMM_NULL_COPY_FN(MPI_Comm a, int b, void *c, void *d, void *e, int *flag) { (void)a; (void)b; (void)c; (void)d; (void)e; *flag = 0; return 0; }
int OMPI_C_MPI_COMM_DUP_FN(MPI_Comm a, int b, void *c, void *d, void *e, int *flag) { (void)a; (void)b; (void)c; *(void **)e = d; *flag = 1; return 0; }
int OMPI_C_MPI_COMM_NULL_DELETE_FN(MPI_Comm a, int b, void *c, void *d) { (void)a; (void)b; (void)c; (void)d; return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *d, int *k, void *x) { (void)cp; (void)x; *k = nkeys++; if (*k < 32) keys[*k].del = d; return 0; }
int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c, int k, void *v) { if (c->nattr < 8) { c->attr[c->nattr].key = k; c->attr[c->nattr++].v = v; } return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *flag) { int i; *flag = 0;
    for (i = 0; i < c->nattr; ++i) if (c->attr[i].key == k) { *(void **)v = c->attr[i].v; *flag = 1; }
    return 0; }
int MPI_Comm_delete_attr(MPI_Comm c, int k) { (void)c; (void)k; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = calloc(1, sizeof **g); (*g)->n = c->n; memcpy((*g)->m, c->members, sizeof c->members); return 0; }
int MPI_Group_free(MPI_Group *g) { free(*g); *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { *n = g->n; return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { int i; *r = MPI_UNDEFINED; for (i = 0; i < g->n; ++i) if (g->m[i] == ME) *r = i; return 0; }

/* ------------------------------------------------------------ point to point */
static struct ompi_request_t *pend_head, **pend_tail = &pend_head;
static const char *pwhere(const char *f, int peer, int tag, int ctx) { static char b[150]; snprintf(b, sizeof b, "in %s(peer %d, tag %d) on communicator %d", f, peer, tag, ctx); return b; }
static int ckpeer(const char *fn, MPI_Comm c, int r, int any) {
    if (r == MPI_PROC_NULL) return 0;
    if (r == MPI_ANY_SOURCE && any) return 1;
    if (r < 0 || r >= c->n) misuse(fn, "peer rank outside the communicator");
    return 1;
}
static int post(MPI_Comm c, int dst, int tag, const void *b, long count, MPI_Datatype t, int sync) {
    int i; sim_msg *m;
    for (i = 0; i < MAXMSG && S->msg[i].used; ++i);
    if (i == MAXMSG) misuse("MPI_Send", "too many outstanding messages");
    m = &S->msg[i]; memset(m, 0, sizeof *m); m->used = 1; m->src = c->rank; m->dst = c->members[dst]; m->ctx = c->ctx; m->tag = tag; m->sync = sync;
    m->len = count * t->size; m->data = shm_alloc(m->len + 1); packn(m->data, b, count, t); m->order = ++S->msg_order; m->t = S->vt[ME] + 1e-5;
    if (i >= S->msg_hi) S->msg_hi = i + 1;
    sim_wake(m->dst);
    return i;
}
static int owner_of(MPI_Comm c, int src) { return c->members[src]; }
/* earliest matching message; with several sources the choice is the scheduler's */
static sim_msg *match(int ctx, int src, int tag) {
    int i, k, n = 0; sim_msg *best[MAXR]; int order[MAXR];
    for (k = 0; k < MAXR; ++k) best[k] = NULL;
    for (i = 0; i < S->msg_hi; ++i) {
        sim_msg *m = &S->msg[i];
        if (!m->used || m->matched || m->dst != ME || m->ctx != ctx) continue;
        if (src != MPI_ANY_SOURCE && m->src != src) continue;
        if (tag != MPI_ANY_TAG && m->tag != tag) continue;
        if (!best[m->src] || m->order < best[m->src]->order) best[m->src] = m;
    }
    for (k = 0; k < MAXR; ++k) if (best[k]) order[n++] = k;
    if (!n) return NULL;
    if (n > 1) S->c_anysrc++;
    return best[order[n > 1 ? sim_hash3(H_ANY, S->nev, ME) % n : 0]];
}
static void consume(sim_msg *m, MPI_Comm c, void *b, long count, MPI_Datatype t, MPI_Status *st) {
    if ((long)m->len > count * t->size)
        sim_violation("mpi-misuse", "message of %ld bytes from rank %d (tag %d) truncated to a %ld-byte receive on rank %d", (long)m->len, owner_of(c, m->src), m->tag, (long)(count * t->size), ME);
    unpackb(b, m->data, m->len, t);
    S->trace_hash = sim_fnv(m->data, m->len, S->trace_hash ^ (uint64_t)m->src << 8);
    if (m->t > S->vt[ME]) S->vt[ME] = m->t;
    if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = m->len; st->_cancelled = 0; }
    m->matched = 1;
    if (m->sync) { sim_wake(owner_of(c, m->src)); } /* freed by the sender */
    else { shm_free(m->data, m->len + 1); m->used = 0; }
}
static void progress(void) {
    struct ompi_request_t **pp = &pend_head;
    while (*pp) {
        struct ompi_request_t *r = *pp; sim_msg *m = match(r->ctx, r->src, r->tag);
        if (m) { consume(m, r->comm, r->buf, r->count, r->t, &r->st); r->done = 1; *pp = r->next; if (!*pp) pend_tail = pp; }
        else pp = &r->next;
    }
}
static void finish_sync(int id) { sim_msg *m = &S->msg[id]; shm_free(m->data, m->len + 1); m->used = 0; }
static int dosend(int f, const char *nm, const void *b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, int sync) {
    int id; ck(c, nm);
    enter(f, ph(b, count, t)); progress();
    if (!ckpeer(nm, c, dst, 0)) return 0;
    if (!sync) sync = sim_u(H_MSG, S->nev, ME) >= S->p_eager;
    if (sync) S->c_rendez++; else S->c_eager++;
    id = post(c, dst, tag, b, count, t, sync);
    if (sync) {
        while (!S->msg[id].matched) { sim_block(pwhere(nm, dst, tag, c->ctx)); progress(); }
        finish_sync(id);
    }
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return dosend(F_SEND, "MPI_Send", b, n, t, d, tag, c, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return dosend(F_SSEND, "MPI_Ssend", b, n, t, d, tag, c, 1); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return dosend(F_SEND, "MPI_Rsend", b, n, t, d, tag, c, 0); }
static void dorecv(const char *nm, void *b, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
    sim_msg *m;
    while (!(m = match(c->ctx, src, tag))) { sim_block(pwhere(nm, src, tag, c->ctx)); progress(); }
    consume(m, c, b, count, t, st);
}
static void nullst(MPI_Status *st) { if (st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; } }
int MPI_Recv(void *b, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
    ck(c, "MPI_Recv"); enter(F_RECV, (uint64_t)(uint32_t)src << 32 | (uint32_t)tag); progress();
    if (!ckpeer("MPI_Recv", c, src, 1)) { nullst(st); return 0; }
    dorecv("MPI_Recv", b, count, t, src, tag, c, st); return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    int id = -1; ck(c, "MPI_Sendrecv"); alias("MPI_Sendrecv", sb, span(sn, stt), rb, span(rn, rt));
    enter(F_SENDRECV, ph(sb, sn, stt)); progress();
    if (ckpeer("MPI_Sendrecv", c, d, 0)) id = post(c, d, stag, sb, sn, stt, 0);
    (void)id;
    if (ckpeer("MPI_Sendrecv", c, src, 1)) dorecv("MPI_Sendrecv", rb, rn, rt, src, rtag, c, st); else nullst(st);
    return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    ck(c, "MPI_Sendrecv_replace"); enter(F_SENDRECV, ph(b, n, t)); progress();
    if (ckpeer("MPI_Sendrecv_replace", c, d, 0)) post(c, d, stag, b, n, t, 0);
    if (ckpeer("MPI_Sendrecv_replace", c, src, 1)) dorecv("MPI_Sendrecv_replace", b, n, t, src, rtag, c, st); else nullst(st);
    return 0;
}
static struct ompi_request_t *newreq(int k) { struct ompi_request_t *r = calloc(1, sizeof *r); r->kind = k; S->live_reqs[ME]++; return r; }
static int doisend(int f, const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *rq, int sync) {
    struct ompi_request_t *r; ck(c, "MPI_Isend"); enter(f, ph(b, n, t)); progress();
    r = newreq(1); r->comm = c; *rq = r;
    if (!ckpeer("MPI_Isend", c, d, 0)) { r->done = 1; return 0; }
    if (!sync) sync = sim_u(H_MSG, S->nev, ME) >= S->p_eager;
    r->msgid = post(c, d, tag, b, n, t, sync); r->done = !sync; r->src = d; r->tag = tag; r->ctx = c->ctx;
    return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return doisend(F_ISEND, b, n, t, d, tag, c, r, 0); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return doisend(F_ISSEND, b, n, t, d, tag, c, r, 1); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *rq) {
    struct ompi_request_t *r; ck(c, "MPI_Irecv"); enter(F_IRECV, (uint64_t)(uint32_t)src << 32 | (uint32_t)tag); progress();
    r = newreq(2); r->comm = c; r->ctx = c->ctx; r->src = src; r->tag = tag; r->buf = b; r->count = n; r->t = t; *rq = r;
    if (!ckpeer("MPI_Irecv", c, src, 1)) { r->done = 1; nullst(&r->st); return 0; }
    *pend_tail = r; pend_tail = &r->next; progress(); return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request *rq) {
    struct ompi_request_t *r; ck(c, "MPI_Ibarrier"); enter(F_IBARRIER, c->ctx);
    r = newreq(3); r->comm = c; r->c = coll_get(c, F_IBARRIER, 0, -1, 0, NULL); coll_put(r->c, c, NULL, 0); *rq = r; return 0;
}
static int poll_req(struct ompi_request_t *r) {
    if (r->done) return 1;
    if (r->kind == 1 && S->msg[r->msgid].matched) { finish_sync(r->msgid); r->done = 1; }
    if (r->kind == 3 && r->c->arrived == ALL(r->comm)) { coll_leave(r->c, r->comm); r->done = 1; }
    return r->done;
}
static void endreq(MPI_Request *r, MPI_Status *st) {
    if (st && st != MPI_STATUS_IGNORE) { *st = (*r)->st; }
    free(*r); *r = MPI_REQUEST_NULL; S->live_reqs[ME]--;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
    if (*r == MPI_REQUEST_NULL) { nullst(st); return 0; }
    enter(F_WAIT, 0); progress();
    while (!poll_req(*r)) { sim_block(pwhere("MPI_Wait", (*r)->src, (*r)->tag, (*r)->ctx)); progress(); }
    endreq(r, st); return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { int i; for (i = 0; i < n; ++i) MPI_Wait(&r[i], st && st != MPI_STATUSES_IGNORE ? &st[i] : MPI_STATUS_IGNORE); return 0; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    int i, act = 0; enter(F_WAIT, 1);
    for (;;) { progress(); act = 0;
        for (i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) { act = 1; if (poll_req(r[i])) { endreq(&r[i], st); *idx = i; return 0; } }
        if (!act) { *idx = MPI_UNDEFINED; return 0; }
        sim_block("in MPI_Waitany"); }
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
    *flag = 1; if (*r == MPI_REQUEST_NULL) { nullst(st); return 0; }
    enter(F_TESTRQ, 0); progress(); if (poll_req(*r)) endreq(r, st); else *flag = 0; return 0;
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *st) {
    int i; enter(F_TESTRQ, 1); progress(); *flag = 1;
    for (i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL && !poll_req(r[i])) *flag = 0;
    if (*flag) for (i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) endreq(&r[i], st && st != MPI_STATUSES_IGNORE ? &st[i] : MPI_STATUS_IGNORE);
    return 0;
}
int MPI_Cancel(MPI_Request *r) {
    struct ompi_request_t **pp;
    for (pp = &pend_head; *pp; pp = &(*pp)->next) if (*pp == *r) { *pp = (*r)->next; if (!*pp) pend_tail = pp; (*r)->done = 1; (*r)->st._cancelled = 1; return 0; }
    return 0;
}
int MPI_Request_free(MPI_Request *r) { free(*r); *r = MPI_REQUEST_NULL; S->live_reqs[ME]--; return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    sim_msg *m; ck(c, "MPI_Iprobe"); enter(F_PROBE, tag); progress(); m = match(c->ctx, src, tag); *flag = m != NULL;
    if (m && st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->_ucount = m->len; }
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
    sim_msg *m; ck(c, "MPI_Probe"); enter(F_PROBE, tag); progress();
    while (!(m = match(c->ctx, src, tag))) { sim_block(pwhere("MPI_Probe", src, tag, c->ctx)); progress(); }
    if (st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->_ucount = m->len; }
    return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = t->size ? (int)(st->_ucount / t->size) : 0; return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }
int MPI_Get_elements_x(const MPI_Status *st, MPI_Datatype t, MPI_Count *n) { *n = t->size ? (MPI_Count)(st->_ucount / t->size) : 0; return 0; }

/* ----------------------------------------------------------------- lifetime */
int MPI_Init(int *argc, char ***argv) {
    int i; (void)argc; (void)argv;
    if (S->inited[ME]) misuse("MPI_Init", "called twice");
    S->use_mpi = 1; S->inited[ME] = 1; ready = 1;
    WORLD->ctx = 0; WORLD->n = S->nranks; WORLD->rank = ME; for (i = 0; i < S->nranks; ++i) WORLD->members[i] = i;
    SELF->ctx = 60000 + ME; SELF->n = 1; SELF->rank = 0; SELF->members[0] = ME;
    enter(F_INIT, ME);
    return 0;
}
int MPI_Init_thread(int *argc, char ***argv, int req, int *prov) { if (prov) *prov = req; return MPI_Init(argc, argv); }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SINGLE; return 0; }
int MPI_Initialized(int *f) { *f = S->inited[ME]; return 0; }
int MPI_Finalized(int *f) { *f = S->finalized[ME] == 1; return 0; }
int MPI_Finalize(void) {
    int i; sim_coll *s;
    enter(F_FINALIZE, 0); progress();
    S->finalized[ME] = 2;
    for (i = 0; i < SELF->nattr; ++i) if (SELF->attr[i].key < 32 && keys[SELF->attr[i].key].del) keys[SELF->attr[i].key].del(SELF, SELF->attr[i].key, SELF->attr[i].v, NULL);
    if (pend_head) sim_violation("mpi-misuse", "rank %d calls MPI_Finalize with a pending receive", ME);
    s = coll_get(WORLD, F_FINALIZE, 0, -1, 0, NULL); coll_put(s, WORLD, NULL, 0);
    while ((s->arrived & ALL(WORLD)) != ALL(WORLD)) sim_block("in MPI_Finalize");
    coll_leave(s, WORLD);
    for (i = 0; i < S->msg_hi; ++i) if (S->msg[i].used && S->msg[i].dst == ME && !S->msg[i].matched)
        sim_violation("unreceived-message", "a message to rank %d (tag %d, %ld bytes, communicator %d) is never received", ME, S->msg[i].tag, (long)S->msg[i].len, S->msg[i].ctx);
    S->finalized[ME] = 1;
    return 0;
}
int MPI_Abort(MPI_Comm c, int code) {
    (void)c; fflush(stdout); fflush(stderr);
    sim_note("MPI_Abort(%d)", code);
    S->c_calls[F_ABORT]++;
    S->trace_hash = sim_fnv("abort", 5, S->trace_hash ^ ((uint64_t)ME << 40) ^ (uint64_t)code);
    S->abort_rank = ME; S->abort_code = code; __sync_synchronize(); S->aborted = 1;
    syscall(SYS_exit_group, code ? code : 1); __builtin_unreachable();
}
extern double sim_mpb_clock(void);
double MPI_Wtime(void) { return sim_mpb_clock(); }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Error_string(int c, char *s, int *l) { *l = snprintf(s, 64, "simulated MPI error %d", c); return 0; }
int MPI_Error_class(int c, int *k) { *k = c; return 0; }

/* ---------------------------------------------------------------- datatypes */
static MPI_Datatype newt(void) { return calloc(1, sizeof(struct ompi_datatype_t)); }
static void addseg(MPI_Datatype r, MPI_Aint off, MPI_Aint len) {
    if (len == 0) return;
    if (r->nseg && r->s[r->nseg - 1].off + r->s[r->nseg - 1].len == off) { r->s[r->nseg - 1].len += len; r->size += len; return; }
    if ((r->nseg & (r->nseg - 1)) == 0) r->s = realloc(r->s, sizeof(seg) * (r->nseg ? 2 * r->nseg : 1));
    r->s[r->nseg].off = off; r->s[r->nseg++].len = len; r->size += len;
}
static void addt(MPI_Datatype r, MPI_Aint off, MPI_Datatype t, MPI_Aint *lo, MPI_Aint *hi) {
    int k; for (k = 0; k < t->nseg; ++k) addseg(r, off + t->s[k].off, t->s[k].len);
    if (off + t->lb < *lo) *lo = off + t->lb;
    if (off + t->lb + t->extent > *hi) *hi = off + t->lb + t->extent;
}
#define BND MPI_Aint lo = (MPI_Aint)1 << 60, hi = -((MPI_Aint)1 << 60)
#define FIN if (lo > hi) lo = hi = 0; r->lb = lo; r->extent = hi - lo; *o = r; return 0
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { MPI_Datatype r = newt(); int i; BND; for (i = 0; i < n; ++i) addt(r, i * t->extent, t, &lo, &hi); if (t->predefined) r->basic = 0; FIN; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o) { MPI_Datatype r = newt(); int i, j; BND; for (i = 0; i < n; ++i) for (j = 0; j < bl; ++j) addt(r, i * st + j * t->extent, t, &lo, &hi); FIN; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype *o) { return MPI_Type_create_hvector(n, bl, st * t->extent, t, o); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype t, MPI_Datatype *o) { MPI_Datatype r = newt(); int i, j; BND; for (i = 0; i < n; ++i) for (j = 0; j < bl[i]; ++j) addt(r, d[i] + j * t->extent, t, &lo, &hi); FIN; }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *d, MPI_Datatype t, MPI_Datatype *o) { MPI_Datatype r = newt(); int i, j; BND; for (i = 0; i < n; ++i) for (j = 0; j < bl; ++j) addt(r, d[i] + j * t->extent, t, &lo, &hi); FIN; }
int MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype t, MPI_Datatype *o) { MPI_Datatype r = newt(); int i, j; BND; for (i = 0; i < n; ++i) for (j = 0; j < bl[i]; ++j) addt(r, (d[i] + j) * t->extent, t, &lo, &hi); FIN; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o) { MPI_Datatype r = newt(); int i, j; BND; for (i = 0; i < n; ++i) for (j = 0; j < bl[i]; ++j) addt(r, d[i] + j * t[i]->extent, t[i], &lo, &hi); FIN; }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *o) { MPI_Datatype r = newt(); BND; addt(r, 0, t, &lo, &hi); lo = lb; hi = lb + ext; FIN; }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o) { MPI_Datatype r = newt(); BND; addt(r, 0, t, &lo, &hi); lo = t->lb; hi = t->lb + t->extent; r->basic = t->basic; FIN; }
int MPI_Type_commit(MPI_Datatype *t) { (void)t; return 0; }
int MPI_Type_free(MPI_Datatype *t) { if ((*t)->predefined) misuse("MPI_Type_free", "predefined datatype"); free((*t)->s); free(*t); *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int)t->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count *n) { *n = t->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = t->lb; *e = t->extent; return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { *lb = t->lb; *e = t->extent; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op) { (void)f; (void)commute; (void)op; misuse("MPI_Op_create", "user reductions are not simulated"); return 1; }

/* --------------------------------------------------------------------- info */
int MPI_Info_create(MPI_Info *i) { *i = calloc(1, sizeof **i); return 0; }
int MPI_Info_dup(MPI_Info a, MPI_Info *b) { *b = calloc(1, sizeof **b); if (a) **b = *a; return 0; }
int MPI_Info_free(MPI_Info *i) { free(*i); *i = MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v) { if (i->n < 16) { snprintf(i->k[i->n], 64, "%s", k); snprintf(i->v[i->n++], 256, "%s", v); } return 0; }
int MPI_Info_get(MPI_Info i, const char *k, int l, char *v, int *f) { int q; *f = 0; for (q = 0; q < i->n; ++q) if (!strcmp(i->k[q], k)) { snprintf(v, l + 1, "%s", i->v[q]); *f = 1; } return 0; }
int MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = i->n; return 0; }
int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { strcpy(k, i->k[n]); return 0; }

/* -------------------------------------------------------------------- files */
extern int __wrap_open(const char *, int, ...); extern int __wrap_close(int);
extern ssize_t __wrap_pwrite(int, const void *, size_t, off_t), __wrap_pread(int, void *, size_t, off_t);
extern int __wrap_ftruncate(int, off_t);
static int errcl(int e) { return e == ENOSPC ? MPI_ERR_NO_SPACE : e == ENOENT ? MPI_ERR_NO_SUCH_FILE : e == EACCES ? MPI_ERR_ACCESS : e == EEXIST ? MPI_ERR_FILE_EXISTS : MPI_ERR_IO; }
static int agree(MPI_Comm c, int kind, int err) { /* collective: the operation fails everywhere if it fails anywhere */
    sim_coll *s; int i, w = 0;
    s = coll_get(c, kind, 0, -1, 0, NULL); coll_put(s, c, &err, sizeof err); coll_wait(s, c, ALL(c));
    for (i = 0; i < c->n; ++i) if (*(int *)s->data[i]) w = *(int *)s->data[i];
    coll_leave(s, c); return w;
}
int MPI_File_open(MPI_Comm c, const char *fn, int amode, MPI_Info info, MPI_File *fh) {
    struct ompi_file_t *f; int fl = 0, err = 0, fd = -1; (void)info; ck(c, "MPI_File_open");
    enter(F_FOPEN, sim_fnv(fn, strlen(fn), amode)); progress();
    { sim_coll *s = coll_get(c, F_FOPEN, 0, -1, amode, NULL); coll_put(s, c, fn, strlen(fn) + 1); coll_wait(s, c, ALL(c));
      if (strcmp(fn, s->data[0])) sim_violation("collective-mismatch", "MPI_File_open of '%s' on rank %d, '%s' on rank %d", fn, ME, (char *)s->data[0], c->members[0]);
      coll_leave(s, c); }
    fl = amode & MPI_MODE_RDONLY ? O_RDONLY : amode & MPI_MODE_WRONLY ? O_WRONLY : O_RDWR;
    if (c->rank == 0) { fd = __wrap_open(fn, fl | (amode & MPI_MODE_CREATE ? O_CREAT : 0) | (amode & MPI_MODE_EXCL ? O_EXCL : 0), 0644); if (fd < 0) err = errcl(errno); }
    err = agree(c, F_FMISC, err);
    if (!err && c->rank != 0) { fd = __wrap_open(fn, fl, 0644); if (fd < 0) err = errcl(errno); }
    if (!err || c->rank != 0 || fd >= 0) {}
    err = agree(c, F_FMISC, err);
    if (err) { if (fd >= 0) __wrap_close(fd); *fh = MPI_FILE_NULL; return err; }
    f = calloc(1, sizeof *f); f->fd = fd; f->comm = c; f->et = f->ft = MPI_BYTE; f->amode = amode; f->name = strdup(fn); *fh = f; S->live_comms[ME] += 1000;
    return 0;
}
int MPI_File_close(MPI_File *fh) {
    struct ompi_file_t *f = *fh; int err = 0; enter(F_FCLOSE, 0); progress();
    agree(f->comm, F_FCLOSE, 0);
    if (__wrap_close(f->fd)) err = errcl(errno);
    free(f->name); free(f); *fh = MPI_FILE_NULL; S->live_comms[ME] -= 1000; return err;
}
int MPI_File_delete(const char *fn, MPI_Info i) { (void)i; return unlink(fn) ? errcl(errno) : 0; }
int MPI_File_set_atomicity(MPI_File f, int a) { f->atomic = a; return 0; }
int MPI_File_get_atomicity(MPI_File f, int *a) { *a = f->atomic; return 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset *n) { struct stat st; if (fstat(f->fd, &st)) return MPI_ERR_IO; *n = st.st_size; return 0; }
int MPI_File_set_size(MPI_File f, MPI_Offset n) {
    int err = 0; enter(F_FSETSIZE, n); progress();
    agree(f->comm, F_FSETSIZE, 0);
    if (f->comm->rank == 0 && __wrap_ftruncate(f->fd, n)) err = errcl(errno);
    return agree(f->comm, F_FMISC, err);
}
int MPI_File_sync(MPI_File f) { enter(F_FSYNC, 0); progress(); agree(f->comm, F_FSYNC, 0); return 0; }
int MPI_File_set_view(MPI_File f, MPI_Offset disp, MPI_Datatype et, MPI_Datatype ft, const char *rep, MPI_Info i) {
    (void)rep; (void)i; enter(F_FVIEW, disp); progress(); agree(f->comm, F_FVIEW, 0); f->disp = disp; f->et = et; f->ft = ft; return 0;
}
static ssize_t full(struct ompi_file_t *f, char *b, size_t n, off_t o, int wr) {
    size_t d = 0; /* ROMIO loops over short transfers and EINTR */
    while (d < n) {
        ssize_t k = wr ? __wrap_pwrite(f->fd, b + d, n - d, o + d) : __wrap_pread(f->fd, b + d, n - d, o + d);
        if (k < 0) { if (errno == EINTR) continue; return -1; }
        if (k == 0) break;
        d += k;
    }
    return d;
}
static int rw(struct ompi_file_t *f, MPI_Offset off, void *buf, int count, MPI_Datatype t, MPI_Status *st, int wr) {
    long bytes = (long)count * t->size, done = 0; char *b = malloc(bytes + 1); int err = 0;
    if (wr) packn(b, buf, count, t);
    if (bytes) {
        /* position in the view: off counts etypes */
        MPI_Aint pos = off * f->et->size, fs = f->ft->size;
        if (contig(f->ft)) { ssize_t k = full(f, b, bytes, f->disp + pos, wr); if (k < 0) err = errcl(errno); else done = k; }
        else while (done < bytes && !err) {
            MPI_Aint tile = pos / fs, in = pos % fs; int k;
            for (k = 0; k < f->ft->nseg && done < bytes; ++k) {
                if (in >= f->ft->s[k].len) { in -= f->ft->s[k].len; continue; }
                long l = f->ft->s[k].len - in; ssize_t g; if (l > bytes - done) l = bytes - done;
                g = full(f, b + done, l, f->disp + tile * f->ft->extent + f->ft->s[k].off + in, wr);
                if (g < 0) { err = errcl(errno); break; }
                done += g; pos += g; in = 0; if (g < l) { bytes = done; break; }
            }
        }
    }
    if (!wr) unpackb(buf, b, done, t);
    free(b);
    if (st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->_ucount = done; }
    return err;
}
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) { enter(F_FWRITE, o); progress(); return rw(f, o, (void *)b, n, t, st, 1); }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { enter(F_FREAD, o); progress(); return rw(f, o, b, n, t, st, 0); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) { int e; enter(F_FWRITEALL, o); progress(); agree(f->comm, F_FWRITEALL, 0); e = rw(f, o, (void *)b, n, t, st, 1); return e; }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { int e; enter(F_FREADALL, o); progress(); agree(f->comm, F_FREADALL, 0); e = rw(f, o, b, n, t, st, 0); return e; }
int MPI_File_set_errhandler(MPI_File f, MPI_Errhandler e) { f->eh = e; return 0; }
