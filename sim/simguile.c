/* Simulator hooks inside the Guile interpreter that runs MPB's scripts. */
#include <libguile.h>
#include <stdlib.h>
#include <dirent.h>
#include <malloc.h>
#include <hdf5.h>
#include <string.h>
#include <libguile/finalizers.h>
#include "sim.h"

extern void ctl_export_hook(void);
extern void sim_rank_log(const char *);
extern void sim_scribble(long);

/* A collection, with its finalizers, at a moment chosen by the simulator:
   Guile's finalizer thread may run them at any time, so any time is allowed. */
void sim_do_gc(void) {
    static int busy = 0;
    if (busy || !sim_in_guile) return;
    busy = 1;
    S->ngc[ME]++;
    scm_gc(); scm_run_finalizers();
    busy = 0;
}
static SCM p_gc(void) { int i; for (i = 0; i < 3; ++i) sim_do_gc(); return SCM_UNSPECIFIED; }
extern int verbose;        /* libctl's --verbose */
static SCM p_verbose(void) { verbose = 1; return SCM_UNSPECIFIED; }
static SCM p_rank(void) { return scm_from_int(ME); }
static SCM p_nranks(void) { return scm_from_int(S->nranks); }
static SCM p_live(void) { return scm_from_long(sim_live_bytes()); }
static SCM p_comms(void) { return scm_from_long(S->live_comms[ME]); }
static SCM p_log(SCM s) { char *c = scm_to_locale_string(s); sim_rank_log(c); free(c); sim_scribble(65536); return SCM_UNSPECIFIED; }
/* exact image of a real number */
static SCM p_hex(SCM x) { char b[64]; snprintf(b, sizeof b, "%a", scm_to_double(x)); return scm_from_locale_string(b); }

/* descriptors this process holds, and objects open inside the HDF5 library */
static SCM p_fds(void) {
    DIR *d = opendir("/proc/self/fd"); int n = 0;
    if (d) { while (readdir(d)) n++; closedir(d); }
    return scm_from_int(n);
}
/* everything the process holds from malloc: MPB, FFTW's plans, HDF5, libctl (Guile's own heap is separate) */
static SCM p_heap(void) { struct mallinfo2 m = mallinfo2(); return scm_from_long((long)(m.uordblks + m.hblkhd)); }
extern void sim_live_sites(void (*)(void *, long, long));
extern char __executable_start;
static SCM sites;
static void site1(void *a, long c, long b) { sites = scm_cons(scm_list_3(scm_from_long((char *)a - &__executable_start), scm_from_long(c), scm_from_long(b)), sites); }
static SCM p_sites(void) { SCM r; sites = SCM_EOL; sim_live_sites(site1); r = sites; sites = SCM_EOL; return r; }
extern long sim_live_plans(void);
static SCM p_plans(void) { return scm_from_long(sim_live_plans()); }
static SCM p_h5ids(void) {
    int i; SCM l = SCM_EOL;
    hsize_t m;
    static const H5I_type_t ty[] = { H5I_FILE, H5I_GROUP, H5I_DATATYPE, H5I_DATASPACE, H5I_DATASET, H5I_ATTR };
    for (i = 5; i >= 0; --i) { m = 0; if (H5Inmembers(ty[i], &m) < 0) m = 0; l = scm_cons(scm_from_long((long)m), l); }
    return l;
}
/* MPB's API for several simulations in one parallel job (mpi_utils.h) */
extern int divide_parallel_processes(int);
extern void end_divide_parallel(void), begin_global_communications(void), end_global_communications(void);
extern int my_global_rank(void);
static SCM p_divide(SCM n) { return scm_from_int(divide_parallel_processes(scm_to_int(n))); }
static SCM p_enddivide(void) { end_divide_parallel(); return SCM_UNSPECIFIED; }
static SCM p_bglobal(void) { begin_global_communications(); return SCM_UNSPECIFIED; }
static SCM p_eglobal(void) { end_global_communications(); return SCM_UNSPECIFIED; }
static SCM p_grank(void) { return scm_from_int(my_global_rank()); }

void sim_export_hook(void) {
    sim_in_guile = 1;
    scm_c_define_gsubr("sim-open-fds", 0, 0, 0, p_fds);
    scm_c_define_gsubr("sim-heap-bytes", 0, 0, 0, p_heap);
    scm_c_define_gsubr("sim-live-sites", 0, 0, 0, p_sites);
    scm_c_define_gsubr("sim-live-plans", 0, 0, 0, p_plans);
    scm_c_define_gsubr("sim-h5-ids", 0, 0, 0, p_h5ids);
    scm_c_define_gsubr("sim-divide", 1, 0, 0, p_divide);
    scm_c_define_gsubr("sim-end-divide", 0, 0, 0, p_enddivide);
    scm_c_define_gsubr("sim-begin-global", 0, 0, 0, p_bglobal);
    scm_c_define_gsubr("sim-end-global", 0, 0, 0, p_eglobal);
    scm_c_define_gsubr("sim-global-rank", 0, 0, 0, p_grank);
    scm_c_define_gsubr("sim-gc", 0, 0, 0, p_gc);
    scm_c_define_gsubr("sim-verbose", 0, 0, 0, p_verbose);
    scm_c_define_gsubr("sim-rank", 0, 0, 0, p_rank);
    scm_c_define_gsubr("sim-nranks", 0, 0, 0, p_nranks);
    scm_c_define_gsubr("sim-live-bytes", 0, 0, 0, p_live);
    scm_c_define_gsubr("sim-live-comms", 0, 0, 0, p_comms);
    scm_c_define_gsubr("sim-log", 1, 0, 0, p_log);
    scm_c_define_gsubr("sim-hex", 1, 0, 0, p_hex);
    ctl_export_hook();
}

extern int mpb_main2(int argc, char **argv);
int mpb_real_main(int argc, char **argv) {
    scm_set_automatic_finalization_enabled(0);
    return mpb_main2(argc, argv);
}
