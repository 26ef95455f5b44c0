/* dlb_shm as a function: what it does with files, processes, output and memory is observed by the harness */
#ifdef HAVE_CONFIG_H
#include <config.h>
#endif
#include "apis/dlb.h"
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <fnmatch.h>
#include <dirent.h>
#include <sys/stat.h>
#include <getopt.h>
#include <stdbool.h>
#include <limits.h>
#include <setjmp.h>
#include <errno.h>
extern char __start_shmtool_bss[], __stop_shmtool_bss[], __start_shmtool_data[], __stop_shmtool_data[];
/* provided by the harness */
extern int st_file(int i, char *name, struct stat *st, struct stat *lst), st_unlink(const char *name);
extern void st_say(const char *s), st_overflow(void);
char *vn_getenv(const char *); int vn_setenv_(const char *, const char *, int);
int st_dummy_data = 1, st_dummy_bss;
#define KEEP __attribute__((section("shmtool_keep")))
static KEEP jmp_buf jb = {{{0}}}; static KEEP char *img0 = (char*)1, *img1 = (char*)1; static KEEP int next = 1; static KEEP struct dirent de = {.d_name = "x"};
static KEEP char arena[1 << 14] = {1}; static KEEP size_t used = 1; static KEEP struct { unsigned char *p; size_t n; } blk[256] = {{0, 1}}; static KEEP int nblk = 1;
static void checkmem(void) { for (int i = 0; i < nblk; ++i) for (int k = 0; k < 32; ++k) if (blk[i].p && blk[i].p[blk[i].n + k] != 0xa5) { st_overflow(); return; } }
static void *st_realloc(void *old, size_t n) {
    checkmem(); size_t o = 0; for (int i = 0; i < nblk; ++i) if (old && blk[i].p == old) { o = blk[i].n; blk[i].p = 0; }
    if (nblk == 256 || used + n + 64 > sizeof arena) { abort(); } unsigned char *p = (unsigned char*)arena + used; used += (n + 63) & ~15ul; memset(p, 0xa5, n + 32); if (old) memcpy(p, old, o < n ? o : n); blk[nblk].p = p; blk[nblk++].n = n; return p;
}
static void *st_malloc(size_t n) { return st_realloc(0, n); }
static void st_free(void *p) { checkmem(); for (int i = 0; i < nblk; ++i) if (p && blk[i].p == p) blk[i].p = 0; }
static void st_exit(int c) { longjmp(jb, c + 1); }
static int st_fprintf(FILE *f, const char *fmt, ...) { static KEEP char b[4096] = {1}; va_list l; va_start(l, fmt); int n = vsnprintf(b, sizeof b, fmt, l); va_end(l); st_say(b); return n; }
static int st_printf(const char *fmt, ...) { static KEEP char b[4096] = {1}; va_list l; va_start(l, fmt); int n = vsnprintf(b, sizeof b, fmt, l); va_end(l); st_say(b); return n; }
static int st_puts(const char *s) { st_say(s); st_say("\n"); return 1; }
static char *st_strdup(const char *s) { return strcpy(st_malloc(strlen(s) + 1), s); }
static void *st_calloc(size_t a, size_t b) { return memset(st_malloc(a * b), 0, a * b); }
static int st_asprintf(char **r, const char *fmt, ...) { static KEEP char b[4096] = {1}; va_list l; va_start(l, fmt); int n = vsnprintf(b, sizeof b, fmt, l); va_end(l); *r = st_strdup(b); return n; }
static int st_fputs(const char *s, FILE *f) { st_say(s); return 1; }
static DIR *st_opendir(const char *d) { next = 0; if (strcmp(d, "/dev/shm")) { errno = ENOENT; return 0; } return (DIR*)&next; }
static struct dirent *st_readdir(DIR *d) { return st_file(next++, de.d_name, 0, 0) ? &de : 0; }
static int st_statx(const char *f, struct stat *st, int l) { if (!strncmp(f, "/dev/shm/", 9)) f += 9; char nm[256]; struct stat a, b; for (int i = 0; st_file(i, nm, &a, &b); ++i) if (!strcmp(nm, f)) { *st = l ? b : a; return 0; } errno = ENOENT; return -1; }
#define opendir(d) st_opendir(d)
#define readdir(d) st_readdir(d)
#define closedir(d) 0
#define stat(f, s) st_statx(f, s, 0)
#define lstat(f, s) st_statx(f, s, 1)
#define chdir(d) 0
#define getuid() 0
#define unlink(f) st_unlink(f)
#define remove(f) st_unlink(f)
#define malloc st_malloc
#define realloc st_realloc
#define free st_free
#define exit st_exit
#define fprintf st_fprintf
#define fputs st_fputs
#define printf st_printf
#define puts st_puts
#define calloc st_calloc
#define asprintf st_asprintf
#undef strdup
#define strdup st_strdup
#define unlinkat(d, f, g) st_unlink(f)
#define _exit st_exit
#define perror(s) st_say(s)
#define getenv vn_getenv
#define setenv vn_setenv_
#define main shm_main
#include "utils/dlb_shm.c"
#undef malloc
#undef free
long st_run(int argc, char **argv) {
    size_t nb = __stop_shmtool_bss - __start_shmtool_bss, nd = __stop_shmtool_data - __start_shmtool_data;
    if (img0 == (char*)1) { img0 = memcpy(malloc(nb), __start_shmtool_bss, nb); img1 = memcpy(malloc(nd + 1), __start_shmtool_data, nd); }
    memcpy(__start_shmtool_bss, img0, nb); memcpy(__start_shmtool_data, img1, nd);     /* a new process of the tool */
    used = nblk = 0; optind = 0; int r = setjmp(jb); long code;
    if (r) code = r - 1; else code = shm_main(argc, argv);
    checkmem(); return code;
}
