/* entry points of the synchronous-call interface used by the MPI interception and DLB_Barrier */
#include "LB_core/DLB_kernel.h"
#include <stdbool.h>
long shim_into(long lewi) { into_sync_call((sync_call_flags_t){ .is_mpi = true, .is_blocking = true, .is_collective = true, .do_lewi = lewi }); return 0; }
long shim_out(long lewi) { out_of_sync_call((sync_call_flags_t){ .is_mpi = true, .is_blocking = true, .is_collective = true, .do_lewi = lewi }); return 0; }
