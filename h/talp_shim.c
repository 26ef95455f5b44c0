#include "LB_core/DLB_kernel.h"
#include "LB_core/DLB_talp.h"
#include "LB_core/spd.h"
long shim_mpi_init(void) { talp_mpi_init(thread_spd); return 0; }
long shim_mpi_fini(void) { talp_mpi_finalize(thread_spd); return 0; }
