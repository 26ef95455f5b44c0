"""What each check runs: harness programs (h/*.cpp), the DLB build variant they link, and which of their jobs
(regex) are explored one level deeper than the base depth. All jobs of a harness are always run."""
TIME = {"quick": 400, "thorough": 3000}
ASSUME_VN = ["the virtual POSIX layer (shared memory, process-shared locks, clock, heap) behaves as Linux/glibc", "sequentially consistent memory"]
ASSUME_NAT = ["the C library (strings, regular expressions, files) behaves as documented; files under /sys are replaced by generated ones"]
LEWI = lambda deep: [dict(name="lewi_mask", shims=["sync_shim.c"], jobs="^(poll|async)", deep=deep)]
CHECKS = {
 "C01": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=LEWI(r"poll\.2x2$|async\.(smt|aff.any)$|poll\.smt$|poll\.3x1$")),
 "C02": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=LEWI(r"life|poll\.(pm|misc|overlap)$|borrowed|smt.lent")),
 "C03": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=LEWI(r"aff|nr|poll\.mp$|poll\.masks$|poll.smt$|poll.2x2.borrowed")),
 "C04": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=LEWI(r"async\.(masks|misc|2x2|mp|smt|3x1.queued|2x2.borrowed)$")),
 "C05": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="lewi_mask_sched", dlb=("tsan",), shims=["sync_shim.c"], jobs=".", deep="poll.ops|async.(life|return)")]),
 "C06": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="lewi_count", shims=["sync_shim.c"], jobs="^poll", deep="."), dict(name="lewi_count_sched", dlb=("tsan",), shims=["sync_shim.c"], jobs="^poll", deep=".")]),
 "C07": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="lewi_count", shims=["sync_shim.c"], jobs="^async", deep="."), dict(name="lewi_count_sched", dlb=("tsan",), shims=["sync_shim.c"], jobs="^async", deep="life|triples")]),
 "C08": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="drom", jobs="^(set|sync)", deep=".")]),
 "C09": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="drom", jobs="^(pre|launch|env)", deep=".")]),
 "C14": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="talp", shims=["sync_shim.c", "talp_shim.c"], jobs="^(mpi|api|select)", deep="ext|1t|select|api"), dict(name="talp_sched", dlb=("tsan",), shims=["sync_shim.c", "talp_shim.c"], jobs=".", deep="omp|warm")]),
 "C15": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="talp", shims=["sync_shim.c", "talp_shim.c"], jobs="^omp", deep="fork|sync|tasks|nested$|mpi")]),
 "C17": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="talp_shm", shims=["sync_shim.c", "talp_shim.c"], jobs=".", deep="regions|mpi"), dict(name="talp_node_sched", dlb=("tsan",), shims=["sync_shim.c", "talp_shim.c"], jobs=".", deep="2p|3p.min")]),
 "C12": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="barrier", shims=["sync_shim.c", "talp_shim.c"], jobs=".", deep="."), dict(name="barrier_sched", dlb=("tsan",), shims=["sync_shim.c", "talp_shim.c"], jobs=".", deep="2p|threads")]),
 "C11": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="crash", shims=["sync_shim.c", "talp_shim.c"], jobs=".", deep=r"."), dict(name="life_sched", dlb=("tsan",), shims=["sync_shim.c", "talp_shim.c"], jobs=r"crash", deep=r"^(mask|drom|talp|count)\.")]),
 "C13": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="life_sched", dlb=("tsan",), shims=["sync_shim.c", "talp_shim.c"], jobs=r"^(?!.*crash)", deep=r"^(mask|drom|talp|count|threads)\.|threads|countasync.(init|finit|fin)$")]),
 "C10": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="lewi_mask", shims=["sync_shim.c"], jobs="^drom", deep=".")]),
 "C20": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="lewi_mask", shims=["sync_shim.c"], jobs="^mpi", deep=".")]),
 "C21": dict(level="model_checking", assumptions=ASSUME_VN, harnesses=[dict(name="omp", shims=["sync_shim.c"], jobs=".", deep=".")]),
 "C22": dict(level="model_checking", assumptions=ASSUME_NAT, harnesses=[dict(name="report", dlb=("native",), jobs=".", deep=".")]),
 "C23": dict(level="model_checking", assumptions=ASSUME_VN + ["the simulated MPI library implements the operations that DLB uses as the MPI standard says"], harnesses=[dict(name="mpi", dlb=("mpi",), jobs=".", deep=".")]),
 "C24": dict(level="model_checking", assumptions=ASSUME_VN + ["a simulated MPI library of one process that records its calls; argument values are opaque to DLB"], harnesses=[dict(name="mpicalls", dlb=("mpi",), jobs=".", deep=".")]),
 "C25": dict(level="model_checking", assumptions=ASSUME_VN + ["calls that the documentation forbids (detaching when not attached while initialized, finalizing another live process) are left out", "partial results of a refused operation on several CPUs with a mask that is pending or that has CPUs of others are allowed"], harnesses=[dict(name="api", jobs=".", deep=".")]),
 "C26": dict(level="model_checking", assumptions=ASSUME_VN + ["the two handles are used by threads of one process; a thread enters a handle by calling a function with it", "histories of classic LeWI (polling) in which both handles are initialized at once are excluded once they differ (known finding)"], harnesses=[dict(name="sp", jobs=".", deep=".")]),
 "C27": dict(level="model_checking", assumptions=ASSUME_VN + ["fork, exec, wait and exit of the tool are replaced: the two halves of a launch run as the steps of two processes", "an application that is killed after its DLB_Init is excluded: its CPUs are freed by the clean-up of dead processes (C12)"], harnesses=[dict(name="taskset", shims=["tool_shim.c", "run_shim.c"], jobs="^set|^launch", deep="set$")]),
 "C29": dict(level="model_checking", assumptions=ASSUME_VN + ["fork, exec, wait, signals and exit of the tool are replaced: the events of the node while the tool waits run inside its wait, and a signal arrives while it waits", "an application that is killed after its DLB_Init is excluded: its CPUs are freed by the clean-up of dead processes (C12), as those of a dlb_run that is killed or gives up"], harnesses=[dict(name="taskset", shims=["tool_shim.c", "run_shim.c"], jobs="^run", deep="^$")]),
 "C28": dict(level="model_checking", assumptions=ASSUME_VN + ["the directory of the shared memories, and the deletion of files, are stand-ins of the harness", "the states listed are those of processes that wait: a listing takes the lock of each shared memory once"], harnesses=[dict(name="shmtool", shims=["shmtool_shim.c"], jobs=".", deep="async|wide")]),
 "C18": dict(level="model_checking", assumptions=ASSUME_NAT, harnesses=[dict(name="options", dlb=("native",), jobs=".", deep=".")]),
 "C19": dict(level="model_checking", assumptions=ASSUME_NAT, harnesses=[dict(name="masks", dlb=("native",), jobs=".", deep=".")]),
}
