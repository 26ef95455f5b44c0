#!/usr/bin/env python3
"""Compile the DLB library from /repo's working tree into one relocatable object whose
writable data lives in named sections and whose libc references are redirected to VNODE."""
import os, subprocess, sys, glob, re, json, concurrent.futures
REPO = os.environ.get("VN_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
REDIR = """abort exit clock_gettime time usleep getpid getuid gethostname sysconf syscall sched_getaffinity sched_setaffinity sched_getcpu
getenv fork execvp backtrace fopen fclose fgets fprintf vfprintf printf puts putchar fputs fputc fwrite fflush
malloc calloc free realloc posix_memalign aligned_alloc strdup strndup vasprintf asprintf __sched_cpualloc __sched_cpufree
shm_open ftruncate posix_fallocate fstat close mmap munmap shm_unlink access
pthread_create pthread_join pthread_detach pthread_self pthread_setaffinity_np pthread_getaffinity_np
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_timedwrlock pthread_rwlock_trywrlock pthread_rwlock_tryrdlock pthread_rwlock_unlock
pthread_once pthread_key_create pthread_key_delete pthread_setspecific pthread_getspecific
omp_get_max_threads
secure_getenv dlopen dlsym dlerror opendir readdir closedir ioctl isatty backtrace_symbols""".split()
MAP = {s: "vn_" + s for s in REDIR}
MAP.update({"kill": "vn_kill_sig", "setenv": "vn_setenv_"})
TSANMAP = {s: "vn_" + s for s in ("memcpy", "memmove", "memset", "memcmp")}
CONFIG_H = """#pragma once
#define DLB_CONFIGURE_ARGS "vnode"
#define DLB_VERSION_MAJOR 3
#define DLB_VERSION_MINOR 5
#define DLB_VERSION_PATCH 0
#define DLB_VERSION_STRING "dlb 3.5.0"
#define HAVE_EMMINTRIN_H
#define HAVE_EXECINFO_H
#define HAVE_IMMINTRIN_H
#define HAVE_STDATOMIC_H
#define MPI_LIBRARY_VERSION "vnode"
#define PACKAGE "dlb"
#define PACKAGE_BUGREPORT "dlb@bsc.es"
#define PACKAGE_NAME "dlb"
#define PACKAGE_VERSION "3.5.0"
#define VERSION "3.5.0"
"""
EXCLUDE = {"JustProf.c", "RaL.c", "PERaL.c", "DLB_interfaceF.c"}

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)
    return r.stdout

def gen_headers(out):
    os.makedirs(out + "/gen/apis", exist_ok=True)
    open(out + "/gen/config.h", "w").write(CONFIG_H)
    src = open(REPO + "/src/apis/dlb.h.in").read().replace("@DLB_VERSION_HEXA@", "0x30500")
    open(out + "/gen/apis/dlb.h", "w").write(src)

def gen_mpi(out):
    """sources that the build system generates from the table of MPI calls, and a fake of every PMPI function"""
    d = out + "/gen/LB_MPI"; os.makedirs(d, exist_ok=True)
    for f in ("MPI_calls_coded.c", "MPI_calls_coded.h", "MPI_interface.c", "MPI_interface.h", "MPI_interfaceF.c", "MPI_interfaceF.h", "MPI_intercept.c", "MPI_interceptF.c"):
        run([sys.executable, REPO + "/scripts/pygen.py", "--ifile", REPO + "/src/LB_MPI/" + f + ".in", "--ofile", d + "/" + f, "--json", REPO + "/src/LB_MPI/mpicalls.json", "--std", "3.1", "--lib", "Open MPI v4.1.6"])
    names = re.findall(r"void DLB_(MPI_\w+)_enter\((.*?)\);", open(d + "/MPI_interface.h").read(), re.S)
    fnames = re.findall(r"void DLB_(MPI_\w+)_F_enter\((.*?)\);", open(d + "/MPI_interfaceF.h").read(), re.S)
    A = ", ".join("long a%d" % i for i in range(20)); B = ", ".join("a%d" % i for i in range(20))
    s = "long vf_pmpi(const char *name, int fortran, long *a);\n"
    for n, _ in names: s += '__attribute__((weak)) long P%s(%s) { long a[] = {%s}; return vf_pmpi("%s", 0, a); }\n' % (n, A, B, n)
    for n, _ in fnames: s += 'void p%s(%s) { long a[] = {%s}; vf_pmpi("%s", 1, a); }\n' % (n.lower(), A, B, n)
    open(d + "/pmpi_stubs.c", "w").write(s)
    t = "struct vf_call { const char *name, *params; void *fn; int fortran; };\n" + "".join('extern char %s[];\n' % n for n, _ in names) + "".join('extern char %s[], %s_[], %s__[];\n' % (n.lower(), n.lower(), n.lower()) for n, _ in fnames)
    t += "struct vf_call vf_calls[] = {\n" + "".join('  {"%s", "%s", %s, 0},\n' % (n, " ".join(p.split()), n) for n, p in names) + "".join('  {"%s", "%s", %s%s, 1},\n' % (n, " ".join(p.split()), n.lower(), u) for n, p in fnames for u in ("", "_", "__")) + "  {0}};\n"
    open(d + "/mpi_table.c", "w").write(t)
    return [d + "/" + f for f in ("MPI_calls_coded.c", "MPI_interface.c", "MPI_interfaceF.c", "MPI_intercept.c", "MPI_interceptF.c", "pmpi_stubs.c", "mpi_table.c")]

def cflags(out, extra=()):
    return ["-std=gnu11", "-g", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-I" + out + "/gen", "-I" + out + "/gen/apis", "-I" + REPO + "/src",
            "-I" + REPO + "/src/apis", "-I" + HERE, "-D__thread=__attribute__((section(\"vntls\")))",
            "-D_Thread_local=__attribute__((section(\"vntls\")))",
            "-fno-pic", "-fno-pie", "-fno-common", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-builtin-putchar", "-w"] + list(extra)

def build_dlb(out, tsan=False, debug=False, mpi=False, opt="-O1", extra=()):
    """returns path of the object"""
    tag = "dlb" + ("_tsan" if tsan else "") + ("_dbg" if debug else "") + ("_mpi" if mpi else "")
    od = out + "/" + tag; os.makedirs(od, exist_ok=True)
    gen_headers(out)
    srcs = []
    for d in ("LB_comm", "LB_core", "LB_numThreads", "LB_policies", "support", "apis"):
        srcs += sorted(f for f in glob.glob(REPO + "/src/" + d + "/*.c") if os.path.basename(f) not in EXCLUDE)
    fl = [opt] + list(extra)
    if tsan: fl += ["-fsanitize=thread", "--param=tsan-distinguish-volatile=1", "-fno-builtin-memcpy", "-fno-builtin-memset"]
    if debug: fl += ["-DDEBUG_VERSION"]
    if mpi:
        g = gen_mpi(out)
        fl += ["-DMPI_LIB"] + run(["mpicc", "--showme:compile"]).split()
        srcs += [REPO + "/src/LB_MPI/process_MPI.c"] + g
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = []
        for s in srcs:
            o = od + "/" + os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o"; objs.append(o)
            fs.append(ex.submit(run, ["gcc"] + cflags(out, fl) + ["-c", s, "-o", o]))
        for f in fs: f.result()
    lds = od + "/ld.lds"
    open(lds, "w").write("""SECTIONS {
  vnimg : { *(.data .data.rel .data.rel.local .data.[a-qs-zA-Z_]* .bss .bss.* COMMON) }
  vntls : { *(vntls) }
}
""")
    raw = od + "/all_raw.o"; final = out + "/" + tag + ".o"
    run(["ld", "-r", "-T", lds, "-o", raw] + objs)
    mp = dict(MAP)
    if tsan: mp.update(TSANMAP)
    rd = od + "/redef.txt"
    defined = set(l.split()[-1] for l in run(["nm", "--defined-only", raw]).splitlines() if l.split())
    open(rd, "w").write("".join("%s %s\n" % (k, v) for k, v in mp.items() if k not in defined))
    run(["objcopy", "--redefine-syms=" + rd, raw, final])
    return final

NATFLAGS = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer"]
def build_native(out, name, source, extra=()):
    """the library as it is, with sanitizers, for harnesses of components that are functions of their inputs"""
    od = out + "/native"; os.makedirs(od, exist_ok=True); gen_headers(out)
    inc = ["-I" + out + "/gen", "-I" + out + "/gen/apis", "-I" + REPO + "/src", "-I" + REPO + "/src/apis", "-I" + HERE]
    srcs = []
    for d in ("LB_comm", "LB_core", "LB_numThreads", "LB_policies", "support", "apis"):
        srcs += sorted(f for f in glob.glob(REPO + "/src/" + d + "/*.c") if os.path.basename(f) not in EXCLUDE)
    jobs = []; objs = []
    for s in srcs:
        o = od + "/" + os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o"; objs.append(o)
        if not os.path.exists(o): jobs.append(["gcc", "-std=gnu11", "-O1", "-g", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-fexceptions", "-w"] + inc + NATFLAGS + ["-c", s, "-o", o])
    for s in [HERE + "/mc.cpp", HERE + "/nat.cpp", HERE + "/../h/" + source]:
        o = od + "/" + os.path.basename(s) + ".o"; objs.append(o)
        # the exploration itself runs unchecked: only the library is instrumented
        if not os.path.exists(o): jobs.append(["g++", "-O2", "-g", "-std=c++17", "-w"] + inc + ["-c", s, "-o", o])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, j) for j in jobs]: f.result()
    exe = out + "/" + name
    run(["g++", "-o", exe, "-fsanitize=address,undefined", "-Wl," + ",".join("--wrap=" + f for f in ("abort", "fopen", "access", "opendir", "readdir", "closedir"))] + objs + ["-lpthread", "-lrt", "-ldl", "-lm"])
    return exe

def build_prog(out, name, sources, dlbobj, shims=(), cxxflags=(), cflags_extra=()):
    """sources: C++ harness files; shims: C files compiled against DLB internals, and redirected likewise"""
    objs = [dlbobj]
    jobs = []
    for e in ("vn", "mc"):
        if not os.path.exists(out + "/" + e + ".o"):
            jobs.append(["g++", "-O2", "-g", "-std=c++17", "-w", "-fno-pie", "-I" + HERE, "-c", HERE + "/" + e + ".cpp", "-o", out + "/" + e + ".o"])
    objs += [out + "/vn.o", out + "/mc.o"]
    for s in sources:
        o = out + "/" + name + "_" + os.path.basename(s) + ".o"; objs.append(o)
        jobs.append(["g++", "-O2", "-g", "-std=c++17", "-w", "-fno-pie", "-I" + HERE, "-I" + out + "/gen", "-I" + out + "/gen/apis", "-I" + REPO + "/src", "-I" + REPO + "/src/apis"] + list(cxxflags) + ["-c", s, "-o", o])
    for s in shims:
        o = out + "/" + name + "_" + os.path.basename(s) + ".o"; objs.append(o)
        jobs.append(["gcc", "-O1"] + cflags(out, cflags_extra) + ["-c", s, "-o", o])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, j) for j in jobs]: f.result()
    for s in shims:     # statics of a tool that runs several times: in sections of their own
        if s.endswith("shmtool_shim.c"): run(["objcopy", "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=shmtool_bss", "--rename-section", ".data=shmtool_data", out + "/" + name + "_" + os.path.basename(s) + ".o"])
    exe = out + "/" + name
    run(["g++", "-no-pie", "-o", exe] + objs + ["-lpthread", "-lrt", "-ldl", "-lm"])
    return exe

if __name__ == "__main__":
    out = sys.argv[1]; os.makedirs(out, exist_ok=True)
    o = build_dlb(out, tsan="tsan" in sys.argv, debug="debug" in sys.argv)
    print(o)
