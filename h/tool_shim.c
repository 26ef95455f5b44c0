/* dlb_taskset as a function: everything that leaves the process (exit, fork, exec, wait, output) is observed by the harness */
#ifdef HAVE_CONFIG_H
#include <config.h>
#endif
#include <sched.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <limits.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <getopt.h>
#include <ctype.h>
#include <regex.h>
#include <stdbool.h>
#include <setjmp.h>
static jmp_buf jb; char tool_out[4096]; int tool_len, tool_child, tool_execs; char tool_prog[64];
int vn_getpid(void), vn_sched_setaffinity(int, size_t, const void*), vn_sched_getaffinity(int, size_t, void*);
static void tool_exit(int c) { longjmp(jb, c + 1); }
static int tool_fork(void) { return tool_child; }
static int tool_wait(int *st) { if (st) *st = 0; return tool_child; }
static int tool_waitpid(int p, int *st, int o) { if (st) *st = 0; return tool_child; }
static int tool_execvp(const char *f, char *const a[]) { snprintf(tool_prog, sizeof tool_prog, "%s %s", f, a[1] ? a[1] : ""); ++tool_execs; longjmp(jb, 1001); }
static int tool_vfprintf(FILE *f, const char *fmt, va_list l) { int n = vsnprintf(tool_out + tool_len, sizeof tool_out - tool_len, fmt, l); tool_len += n; if (tool_len >= (int)sizeof tool_out) tool_len = sizeof tool_out - 1; return n; }
static int tool_fprintf(FILE *f, const char *fmt, ...) { va_list l; va_start(l, fmt); int n = tool_vfprintf(f, fmt, l); va_end(l); return n; }
static int tool_printf(const char *fmt, ...) { va_list l; va_start(l, fmt); int n = tool_vfprintf(stdout, fmt, l); va_end(l); return n; }
static int tool_fputs(const char *s, FILE *f) { return tool_fprintf(f, "%s", s); }
static int tool_puts(const char *s) { return tool_fprintf(stdout, "%s\n", s); }
#undef getopt_long
#define main taskset_main
#define exit tool_exit
#define _exit tool_exit
#define fork tool_fork
#define wait tool_wait
#define waitpid tool_waitpid
#define execvp tool_execvp
#define fprintf tool_fprintf
#define printf tool_printf
#define fputs tool_fputs
#define puts tool_puts
#define getpid vn_getpid
#define sched_setaffinity vn_sched_setaffinity
#define sched_getaffinity vn_sched_getaffinity
#include "utils/dlb_taskset.c"
#undef exit
/* exit code of the command, or 1000 when the process became another program */
long tool_run(int argc, char **argv, int child) {
    tool_len = 0; tool_out[0] = 0; tool_child = child; optind = 0; int r = setjmp(jb);
    if (r) return r - 1;
    return taskset_main(argc, argv);
}
