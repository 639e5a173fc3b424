/* Forced include for the program copies the simulator runs: process-wide
 * facilities that cannot be interposed by symbol are routed to the simulator. */
#ifndef NSCA_SIM_SHIM_H
#define NSCA_SIM_SHIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void sim_exit(int) __attribute__((noreturn));
void sim__exit(int) __attribute__((noreturn));
void sim_abort(void) __attribute__((noreturn));
int sim_atexit(void (*)(void));
FILE *sim_stderr(void);
FILE *sim_stdout(void);
FILE *sim_stdin(void);
char *sim_strtok(char *, const char *);
int sim_getopt(int, char *const *, const char *);
extern char **environ;
void *sim_malloc(size_t);
void *sim_realloc(void *, size_t);
char *sim_strdup(const char *);
int sim_vasprintf(char **, const char *, va_list);
#ifdef __cplusplus
}
#endif
#undef stderr
#undef stdout
#undef stdin
#define stderr (sim_stderr())
#define stdout (sim_stdout())
#define stdin (sim_stdin())
#define exit sim_exit
#define _exit sim__exit
#define _Exit sim__exit
#define quick_exit sim__exit
#define abort sim_abort
#define atexit sim_atexit
#define strtok sim_strtok
#define getopt sim_getopt
/* allocations which may fail (libev, which aborts then, and the stand-ins of the interpreters excepted) */
#ifndef SIM_MEM_OK
#undef malloc
#undef realloc
#undef strdup
#undef vasprintf
#define malloc(n) sim_malloc(n)
#define realloc(p, n) sim_realloc((p), (n))
#define strdup(s) sim_strdup(s)
#define vasprintf(r, f, a) sim_vasprintf((r), (f), (a))
#define uthash_malloc(n) (malloc)(n)
#endif
/* stdout by another name */
#undef puts
#undef printf
#undef putchar
#undef vprintf
#undef perror
#define puts(s) fprintf(sim_stdout(), "%s\n", (s))
#define printf(...) fprintf(sim_stdout(), __VA_ARGS__)
#define putchar(c) fputc((c), sim_stdout())
#define vprintf(f, a) vfprintf(sim_stdout(), (f), (a))
#define perror(s) fprintf(sim_stderr(), "%s\n", (s))
#endif
