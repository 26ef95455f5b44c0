#include "nat.h"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace mc { void die(const char *sig, const char *msg); extern long n_cases; }
namespace nat {
static FILE *mem, *real_err, *real_out; static char *buf; static size_t len; static std::string text;
static void flush() { if (mem) { fflush(mem); } }
void cap() {
    if (!real_err) { real_err = stderr; real_out = stdout; }
    if (!mem) { mem = open_memstream(&buf, &len); stderr = mem; stdout = mem; }
    fflush(mem); fseeko(mem, 0, SEEK_SET); len = 0;
}
const std::string &out() { flush(); long n = mem ? ftello(mem) : 0; text.assign(buf ? buf : "", n > 0 ? n : 0); return text; }
bool run(const std::function<void()> &f) { try { f(); return true; } catch (Abort &) { return false; } }
}
namespace nat { bool fake_sys; std::map<std::string, std::string> sys_files; std::map<std::string, std::vector<std::string>> sys_dirs; }
#include <dirent.h>
struct fake_dir { long magic; const std::vector<std::string> *v; size_t i; struct dirent d; };
extern "C" {
FILE *__real_fopen(const char *, const char *); int __real_access(const char *, int); DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *); int __real_closedir(DIR *);
static bool faked(const char *p) { return nat::fake_sys && !strncmp(p, "/sys/", 5); }
FILE *__wrap_fopen(const char *p, const char *m) { if (!faked(p)) return __real_fopen(p, m); auto it = nat::sys_files.find(p); if (it == nat::sys_files.end()) return nullptr; return fmemopen((void *)it->second.data(), it->second.size(), "r"); }
int __wrap_access(const char *p, int m) { return faked(p) ? nat::sys_files.count(p) ? 0 : -1 : __real_access(p, m); }
DIR *__wrap_opendir(const char *p) { if (!faked(p)) return __real_opendir(p); auto it = nat::sys_dirs.find(p); if (it == nat::sys_dirs.end()) return nullptr; return (DIR *)new fake_dir{0x46414b45, &it->second, 0}; }
struct dirent *__wrap_readdir(DIR *d) { fake_dir *f = (fake_dir *)d; if (!nat::fake_sys) return __real_readdir(d); if (f->i >= f->v->size()) return nullptr; memset(&f->d, 0, sizeof f->d); f->d.d_type = DT_DIR; strcpy(f->d.d_name, (*f->v)[f->i++].c_str()); return &f->d; }
int __wrap_closedir(DIR *d) { if (!nat::fake_sys) return __real_closedir(d); delete (fake_dir *)d; return 0; }
void __wrap_abort(void) { throw nat::Abort(); }
/* what mc.o needs of the virtual node */
struct vn_global G; int vn_explore; char vn_exc_msg[512];
static void on_death(void) { mc::die("memory", "memory error or crash in the library (sanitizer report in the log)"); }
static int same; static long last = -1;
static void on_prof(int) { if (mc::n_cases != last) { last = mc::n_cases; same = 0; } else if (++same >= 10) mc::die("hang", "the library does not return"); }
void vn_boot(void) {
    __sanitizer_set_death_callback(on_death);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
}
void vn_reset(void) {} void vn_leave(void) {} void vn_canon_time(void) {} int vn_enabled(int) { return 0; } int vn_can_wake(int) { return 0; }
void vn_wake(int) {} void vn_kill(int) {} int vn_run(int) { return 0; } void vn_hash(uint64_t *h) { h[0] = h[1] = 0; }
void vn_save(struct vn_snap *, int) {} void vn_restore(const struct vn_snap *) {} void vn_snap_free(struct vn_snap *) {}
}
