/* dlb_run as a function: fork, exec, wait, signals, exit and output are observed by the harness */
#ifdef HAVE_CONFIG_H
#include <config.h>
#endif
#include "apis/dlb.h"
#include <sched.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdbool.h>
#include <string.h>
#include <getopt.h>
#include <setjmp.h>
static jmp_buf jb; char run_out[4096], run_prog[64]; static int len; void (*run_handler[65])(int); sigset_t run_blocked[65]; int run_alarm;
extern int run_fork(void), run_wait(int *st); int vn_getpid(void), vn_sched_getaffinity(int, size_t, void*);
static void rt_exit(int c) { longjmp(jb, c + 1); }
static int rt_execvp(const char *f, char *const a[]) { snprintf(run_prog, sizeof run_prog, "%s %s", f, a[1] ? a[1] : ""); if (!strcmp(f, "missing")) return -1; longjmp(jb, 1001); }
static int rt_vfprintf(FILE *f, const char *fmt, va_list l) { int n = vsnprintf(run_out + len, sizeof run_out - len, fmt, l); len += n; if (len >= (int)sizeof run_out) len = sizeof run_out - 1; return n; }
static int rt_fprintf(FILE *f, const char *fmt, ...) { va_list l; va_start(l, fmt); int n = rt_vfprintf(f, fmt, l); va_end(l); return n; }
static int rt_printf(const char *fmt, ...) { va_list l; va_start(l, fmt); int n = rt_vfprintf(stdout, fmt, l); va_end(l); return n; }
static int rt_fputs(const char *s, FILE *f) { return rt_fprintf(f, "%s", s); }
static int rt_puts(const char *s) { return rt_fprintf(stdout, "%s\n", s); }
static int rt_sigaction(int n, const struct sigaction *s, struct sigaction *o) { if (n > 0 && n < 65 && s) { run_handler[n] = s->sa_handler; run_blocked[n] = s->sa_mask; } return 0; }
static void *rt_signal(int n, void (*h)(int)) { if (n > 0 && n < 65) { run_handler[n] = h; sigemptyset(&run_blocked[n]); } return 0; }
static unsigned rt_alarm(unsigned s) { unsigned o = run_alarm; run_alarm = s; return o; }
static int rt_waitpid(int p, int *st, int o) { return run_wait(st); }
#define main run_main
#define exit rt_exit
#define _exit rt_exit
#define fork run_fork
#define wait run_wait
#define waitpid rt_waitpid
#define execvp rt_execvp
#define sigaction(n, s, o) rt_sigaction(n, s, o)
#define signal(n, h) rt_signal(n, h)
#define alarm rt_alarm
#define fprintf rt_fprintf
#define vfprintf rt_vfprintf
#define printf rt_printf
#define fputs rt_fputs
#define puts rt_puts
#define fflush(f) 0
#define getpid vn_getpid
#define sched_getaffinity vn_sched_getaffinity
#include "utils/dlb_run.c"
#undef exit
/* exit code of the command, or 1000 when the process became another program */
long run_tool(int argc, char **argv) {
    verbose = false; len = 0; run_out[0] = run_prog[0] = 0; memset(run_handler, 0, sizeof run_handler); run_alarm = 0; optind = 0; int r = setjmp(jb);
    if (r) return r - 1;
    return run_main(argc, argv);
}
