#include "sim.h"
const char *sim_mpi_names[64] = { "?" };
