#include "sim.h"
void sim_do_gc(void) {}
