/* Interface between the model MPI runtime (mockmpi.c), the job runner and the driver. */
#ifndef MOCK_H
#define MOCK_H
#include <stdint.h>
#include <stdarg.h>
#define MAXR 40       /* ranks */
#define MAXA 64       /* actors (threads) */
typedef struct {
  int nranks; uint64_t seed;
  int sched;     /* 0 uniform, 1 sticky, 2 priorities with change points, 3 round robin, 4 run-to-block, 5 choice-controlled */
  int net;       /* 0 eager, 1 lazy, 2 random */
  int order;     /* 0 weak, 1 fifo per (origin,target,window) */
  int sendm;     /* 0 eager, 1 synchronous, 2 random */
  int reuse;     /* heap: 0 never reuse freed memory, 1 reuse LIFO */
  int wide;      /* elements per cell */
  int adj;       /* memory from MPI lies block against block */
  long gap;      /* >0: bytes from one cell to the next (slices and buffers of many gigabytes, of which only the cells are touched) */
  int dunit;     /* unit of double cells: 0 large, 1 close to one */
  int hints;     /* emit what MPI is told about windows */
  int lunit;     /* unit of long cells: 1 all 64 bits */
  int unified;   /* 1 MPI_WIN_UNIFIED  0 the attribute says SEPARATE, memory is coherent all the same  2 private and public copies of windows */
  int acc;       /* n>0: one in n direct accesses of the library to window memory is a scheduling point */
  int blk;       /* emit "blk" events */
  int segred;    /* 1: reductions may call user ops on segments of the vector */
  long maxsteps;
  int nprefix; int prefix[4096];  /* forced scheduling choices */
  int preempt;   /* sched 5: maximal number of preemptive switches, -1 unlimited */
} mock_cfg;
extern int mock_rank(void);
extern int mock_nranks(void);
void mock_setthr(int t);   /* thread number of the calling actor, for events */
void mock_setalias(int a); /* the number by which events name this rank */
/* trace */
void mock_ev(const char *fmt, ...) __attribute__((format(printf,1,2)));
long mock_voff(const void *va);      /* offset of an address in the process heap: -1 for NULL, -2 outside */
void mock_observe(int id, void *va, long n, char type);
long mock_cellval(const void *p, char type);
void mock_cellput(void *p, char type, long k);
int  mock_csize(char type);
long mock_pitch(char type);
long mock_gap(void);
int  mock_wide(void);
long mock_lunit(void); double mock_unit(char type);
void mock_unobserve(int id);
void mock_resync(int id);
void mock_diff(void);
void mock_yield(void);
void mock_focus(int n);
extern const char*mock_use; extern int mock_burst, mock_burst_max; /* what windows are made for; one-sided operations since the last flush */
int mock_hints(void);
int  mock_choose(int n);
long mock_now(void);
int  mock_spawn(void (*fn)(void*), void *arg);  /* new thread (actor) of this rank */
void mock_join(int actor);
void mock_fatal(const char *kind, const char *fmt, ...) __attribute__((noreturn));
/* runner */
extern void driver_main(int rank, const char *script);   /* implemented by the driver */
const char *mock_run(const mock_cfg *cfg, const char *script, int *outcome_len, int **choices, int **widths, int *nchoices);
void *mock_heap_alloc(size_t n);
void *mock_own_alloc(size_t n);      /* the same, not counted as held by the library */
void mock_res(long out[8]);         /* live communicators, groups, datatypes, infos, requests, windows, heap blocks, operators of this process */
#endif
