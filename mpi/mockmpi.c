/* A model of MPI-3 for conformance checking.
 *
 * N ranks are N forked processes; exactly one of them runs at any time (it holds
 * the baton), so an execution is a deterministic function of (program, seed) and
 * the trace is totally ordered without clocks.  Every MPI call is a scheduling point.
 * RMA operations are split into their MPI-3 phases: issue, capture of the
 * origin buffer, application at the target (possibly in pieces), delivery of results.
 * Each phase happens as late (or early, or at random) as MPI-3 permits. */
#define _GNU_SOURCE
#include "mpi.h"
#include "mock.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sched.h>
#include <limits.h>
#include <pthread.h>
#include <time.h>
#include <complex.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/futex.h>

#define ARENA_ADDR ((void*)0x600000000000UL)
#define ARENA_SIZE (256UL<<20)
#define TRACE_SIZE (48UL<<20)
#define HEAP_ADDR 0x500000000000UL
#define HEAP_SIZE (S->cfg.gap?1UL<<40:64UL<<20)
#define GHEAP_ADDR 0x510000000000UL
#define MAXCHOICE 200000
#define MAXCOMM 4096
#define MAXWIN 2048
#define MAXOBS 256

void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*,size_t); void *__real_calloc(size_t,size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);

/* ------------------------------------------------------------------ shared state */
typedef struct { int rank, alive, blocked, go, started, thr; uint64_t seen; int prio; int joinable; char why[24]; } actor_t;
typedef struct { int used, n, ranks[MAXR]; int inter, rn, rranks[MAXR]; int freed[MAXR]; int seq[MAXR]; long ctx; } comm_t;
typedef struct { long off; int basic; long n; } run_t;      /* n elements of basic type at byte offset */
typedef struct op_s {
  struct op_s *next; long id; int org, tgt, win, kind, mop, isacc, rr; int basic; long nbytes;
  int ntr; run_t *tr; int nor; run_t *orr; uint8_t *obase; int nres; run_t *resr; uint8_t *resbase;
  uint8_t *odata, *rdata, *cdata; int captured, delivered, done; long applied; int tests;
  uint8_t *cmpbase;
} op_t;
enum { K_PUT, K_GET, K_ACC, K_GACC, K_CAS };
typedef struct { int used, flavor, n, ranks[MAXR]; long base[MAXR], size[MAXR]; int disp[MAXR]; int freed[MAXR]; int acc_order, acc_contig; long acc_max; /* what the info of the window promises about accumulates */
  int exc[MAXR]; int shc[MAXR]; int lockall[MAXR]; int lock[MAXR][MAXR]; int fence[MAXR]; int nocheck[MAXR][MAXR]; int comm; uint8_t *pub[MAXR], *last[MAXR]; } win_t;   /* pub, last: separate memory model */
typedef struct msg_s { struct msg_s *next; int src, dst, tag; long ctx; long n; uint8_t *data; int sync, matched; } msg_t;
typedef struct coll_s { struct coll_s *next; long ctx; int seq, kind, n, arrived, left; int here[MAXR]; uint8_t *data[MAXR]; long len[MAXR]; long arg[MAXR]; long res[MAXR*2]; int nres; long reskey[MAXR*2]; } coll_t;
typedef struct { int used, rank, id; long va; long n; char type; uint8_t *shadow, *pub; } obs_t;
typedef struct {
  mock_cfg cfg; uint64_t rng; uint64_t version; long steps; int nact; actor_t act[MAXA]; int turn;
  int done; int outcome; int nchoice; int choice[MAXCHOICE]; int width[MAXCHOICE]; int preempts; int usesfocus, focus, unfocus, ftarget;
  size_t bump; comm_t comm[MAXCOMM]; int ncomm; win_t win[MAXWIN]; int nwin; long nextctx;
  op_t *ops, *opstail; long nops; msg_t *msgs, *msgtail; coll_t *colls; obs_t obs[MAXOBS];
  int alias[MAXR]; int rrnext; int change_at[8]; int ended; int mpi_inited[MAXR], mpi_finalized[MAXR];
  size_t tlen; char trace[TRACE_SIZE];
} shared_t;
static shared_t *S;
static __thread int me = -1;        /* actor */
static int myrank = -1;             /* rank of this process */
static int in_rank;
static int heapfd = -1;

#define ALIAS(r) ((r)<0?(r):S->alias[r])
int mock_rank(void){ return myrank; }
void mock_setthr(int t){ if(me>=0) S->act[me].thr=t; }
void mock_setalias(int a){ if(myrank>=0) S->alias[myrank]=a; }
int mock_nranks(void){ return S->cfg.nranks; }
long mock_now(void){ return S->steps; }

static void *arena(size_t n){ n=(n+15)&~15UL; if(S->bump+n>ARENA_SIZE) mock_fatal("exhausted","arena"); void*p=(char*)ARENA_ADDR+S->bump; S->bump+=n; return p; }
static void *gaddr(int rank,long va){ if((unsigned long)va<HEAP_ADDR||(unsigned long)va>=HEAP_ADDR+HEAP_SIZE) return NULL; return (void*)(GHEAP_ADDR+(unsigned long)rank*HEAP_SIZE+((unsigned long)va-HEAP_ADDR)); }
long mock_voff(const void*va){ unsigned long v=(unsigned long)va; if(!v) return -1; if(v<HEAP_ADDR||v>=HEAP_ADDR+HEAP_SIZE) return -2; return (long)(v-HEAP_ADDR)>>(S->cfg.gap?20:0); }

static void fwait(int*a,int v){ syscall(SYS_futex,a,FUTEX_WAIT,v,NULL,NULL,0); }
static void fwake(int*a){ syscall(SYS_futex,a,FUTEX_WAKE,INT_MAX,NULL,NULL,0); }

/* ------------------------------------------------------------------ trace */
static void tput(const char*fmt,va_list ap){
  size_t left=TRACE_SIZE-S->tlen; if(left<70000){ if(left>200) S->tlen+=(size_t)sprintf(S->trace+S->tlen,"{\"e\":\"exhausted\",\"p\":-1,\"msg\":\"trace\"}\n"); S->outcome=1; S->done=1; fwake(&S->done); for(;;) pause(); }
  int k=vsnprintf(S->trace+S->tlen,left-2,fmt,ap); S->tlen+=(size_t)k; S->trace[S->tlen++]='\n'; S->trace[S->tlen]=0; }
static void tev(const char*fmt,...){ va_list ap; va_start(ap,fmt); tput(fmt,ap); va_end(ap); }
void mock_ev(const char*fmt,...){ if(in_rank&&me>=0) mock_diff(); va_list ap; va_start(ap,fmt); tput(fmt,ap); va_end(ap); }
static void finish_all(int outcome) __attribute__((noreturn));
static void finish_all(int outcome){ S->outcome=outcome; __sync_synchronize(); S->done=1; fwake(&S->done); for(;;) pause(); }
static int abort_code=-1;
void mock_fatal(const char*kind,const char*fmt,...){ char b[400]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  for(char*c=b;*c;c++) if(*c=='"'||*c=='\\'||*c=='\n') *c=' ';
  if(in_rank&&me>=0&&strcmp(kind,"crash")) mock_diff();
  tev("{\"e\":\"%s\",\"p\":%d,\"code\":%d,\"msg\":\"%s\"}",kind,ALIAS(myrank),abort_code,b); finish_all(!strcmp(kind,"harness")?9:1); }
#define MISUSE(...) mock_fatal("misuse",__VA_ARGS__)

/* ------------------------------------------------------------------ observation of memory */
/* Cells are printed as small integers k.  The encodings are linear, so that sums, scaled sums and copies of encoded values are
   encodings of sums and copies, and wide enough that truncation to a narrower type or a reinterpretation cannot go unnoticed:
   b: k   i: k   l: k*(2^33+1), or k*LMUL modulo 2^64 with lunit=1   o: 2^40+k, and k-10^9 for k near 10^9
   f: k/8   d: k*(2^30+1), or k*(1+2^-25) with dunit=1
   Origin buffers of accumulates may be plain (L, F, D: k), with the unit in the scale. */
#define DUNIT (S->cfg.dunit?1.0+1.0/33554432:1073741825.0)
#define LMUL 0x9E3779B97F4A7C15UL
static unsigned long linv(void){ static unsigned long x; if(!x){ x=LMUL; for(int i=0;i<6;i++) x*=2-LMUL*x; } return x; }
long mock_lunit(void){ return S->cfg.lunit?(long)LMUL:8589934593L; }
double mock_unit(char t){ return t=='l'?8589934593.0:t=='f'?0.125:t=='d'?DUNIT:1; }
#define BADCELL (-777777777L)
static long cellval1(const void*pv,char t){ const uint8_t*p=pv; double d; long v; int i; float f;
  switch(t){ case 'b': return *p; case 'i': memcpy(&i,p,4); return (i>=-(1<<30)&&i<(1<<30))?i:BADCELL;
  case 'l': memcpy(&v,p,8); if(S->cfg.lunit) v=(long)((unsigned long)v*linv()); else { if(v%8589934593L) return BADCELL; v/=8589934593L; } return (v>=-(1L<<28)&&v<(1L<<28))?v:BADCELL;
  case 'o': memcpy(&v,p,8); if(v>=-400000000&&v<400000000) return v+1000000000; v-=(1L<<40); return (v>=-500000000&&v<500000000)?v:BADCELL;
  case 'f': memcpy(&f,p,4); d=(double)f*8; break;
  case 'd': memcpy(&d,p,8); d=d/DUNIT; break;
  case 'L': memcpy(&v,p,8); return (v>=-(1L<<30)&&v<(1L<<30))?v:BADCELL; case 'F': memcpy(&f,p,4); d=f; break; case 'D': memcpy(&d,p,8); break; default: return BADCELL; }
  if(!(d>=-1073741824.0&&d<1073741824.0)||d!=floor(d)) return BADCELL; return (long)d; }
static void cellput1(void*pv,char t,long k){ double d; long v; int i; float f; uint8_t b;
  switch(t){ case 'b': b=(uint8_t)k; memcpy(pv,&b,1); break; case 'i': i=(int)k; memcpy(pv,&i,4); break;
  case 'l': v=(long)((unsigned long)k*(unsigned long)mock_lunit()); memcpy(pv,&v,8); break; case 'o': v=k>=600000000?k-1000000000:k+(1L<<40); memcpy(pv,&v,8); break;
  case 'f': f=(float)k/8; memcpy(pv,&f,4); break; case 'd': d=(double)k*DUNIT; memcpy(pv,&d,8); break;
  case 'L': memcpy(pv,&k,8); break; case 'F': f=(float)k; memcpy(pv,&f,4); break; case 'D': d=(double)k; memcpy(pv,&d,8); break; default: mock_fatal("harness","cell type"); } }
static int csize1(char t){ return t=='b'?1:(t=='i'||t=='f'||t=='F')?4:8; }
/* with job option wide=W a cell is W equal elements: large transfers whose traces stay small */
int mock_csize(char t){ return S->cfg.wide>1?csize1(t)*S->cfg.wide:csize1(t); }
long mock_pitch(char t){ return S->cfg.gap?S->cfg.gap:mock_csize(t); }
long mock_gap(void){ return S->cfg.gap; }
int mock_wide(void){ return S->cfg.wide>1?S->cfg.wide:1; }
long mock_cellval(const void*p,char t){ if(S->cfg.wide>1){ int c=csize1(t); if(memcmp(p,(const char*)p+c,(size_t)(c*(S->cfg.wide-1)))) return BADCELL; } return cellval1(p,t); }
void mock_cellput(void*p,char t,long k){ int c=csize1(t); cellput1(p,t,k); for(int i=1;i<S->cfg.wide;i++) memcpy((char*)p+i*c,p,(size_t)c); }
#define cellval mock_cellval
#define csize mock_csize
static void diff_rank(int r,int torn){
  for(int k=0;k<MAXOBS;k++){ obs_t*o=&S->obs[k]; if(!o->used||o->rank!=r) continue; int cs=csize(o->type); uint8_t*g=o->pub?o->pub:gaddr(r,o->va); 
    if(S->cfg.gap){ for(long i=0;i<o->n;i++){ uint8_t*x=g+i*S->cfg.gap; if(memcmp(x,o->shadow+i*cs,(size_t)cs)){ tev("{\"e\":\"mem\",\"o\":%d,\"a\":%d,\"c\":%ld,\"v\":%ld}",ALIAS(r),o->id,i,cellval(x,o->type)); memcpy(o->shadow+i*cs,x,(size_t)cs); } } continue; }
    if(memcmp(g,o->shadow,(size_t)(o->n*cs))==0) continue;
    for(long i=0;i<o->n;i++) if(memcmp(g+i*cs,o->shadow+i*cs,(size_t)cs)){ if(S->cfg.wide>1&&!torn&&memcmp(g+i*cs,g+i*cs+csize1(o->type),(size_t)(cs-csize1(o->type)))) continue; /* on its way */ tev("{\"e\":\"mem\",\"o\":%d,\"a\":%d,\"c\":%ld,\"v\":%ld}",ALIAS(r),o->id,i,cellval(g+i*cs,o->type)); memcpy(o->shadow+i*cs,g+i*cs,(size_t)cs); } } }
void mock_diff(void){ diff_rank(myrank,0); }
void mock_observe(int id,void*va,long n,char type){ mock_diff(); for(int k=0;k<MAXOBS;k++) if(!S->obs[k].used){ obs_t*o=&S->obs[k]; o->used=1;o->rank=myrank;o->id=id;o->va=(long)va;o->n=n;o->type=type;
    if(!gaddr(myrank,(long)va)) mock_fatal("harness","observe outside heap"); o->pub=NULL; if(S->cfg.unified==2) for(int i=0;i<S->nwin;i++){ win_t*w=&S->win[i]; if(!w->used) continue; for(int j=0;j<w->n;j++) if(w->ranks[j]==myrank&&!w->freed[j]&&(long)va>=w->base[j]&&(long)va+n*csize(type)<=w->base[j]+w->size[j]){ o->pub=w->pub[j]+((long)va-w->base[j]); memcpy(w->pub[j],(void*)w->base[j],(size_t)w->size[j]); memcpy(w->last[j],(void*)w->base[j],(size_t)w->size[j]); } } o->shadow=arena((size_t)(n*csize(type))); for(long i=0;i<n;i++) memcpy(o->shadow+i*csize(type),(char*)va+i*mock_pitch(type),(size_t)csize(type)); return; } mock_fatal("harness","obs table full"); }
void mock_unobserve(int id){ diff_rank(myrank,1); for(int k=0;k<MAXOBS;k++) if(S->obs[k].used&&S->obs[k].rank==myrank&&S->obs[k].id==id) S->obs[k].used=0; }
void mock_resync(int id){ for(int k=0;k<MAXOBS;k++){ obs_t*o=&S->obs[k]; if(o->used&&o->rank==myrank&&o->id==id) for(long i=0;i<o->n;i++) memcpy(o->shadow+i*csize(o->type),(char*)gaddr(myrank,o->va)+i*mock_pitch(o->type),(size_t)csize(o->type)); } }

/* ------------------------------------------------------------------ choices and scheduling */
static uint64_t rnd(void){ uint64_t z=(S->rng+=0x9e3779b97f4a7c15UL); z=(z^(z>>30))*0xbf58476d1ce4e5b9UL; z=(z^(z>>27))*0x94d049bb133111ebUL; return z^(z>>31); }
/* systematic search (sched=5) may be confined to a part of the program: from the moment all processes reached `focus` until `unfocus` */
static int unfocused(void){ return S->cfg.sched==5&&S->usesfocus&&!(S->ftarget>0&&S->focus>=S->ftarget); }
static int choose_w(int n,int dflt_random){ /* a recorded choice among n */
  if(n<=1||unfocused()) return 0; int v; int k=S->nchoice;
  if(k<S->cfg.nprefix) v=S->cfg.prefix[k]%n; else v=dflt_random?(int)(rnd()%(uint64_t)n):0;
  if(k<MAXCHOICE){ S->choice[k]=v; S->width[k]=n; S->nchoice++; } return v; }
int mock_choose(int n){ return choose_w(n,S->cfg.sched!=5); }
static int coin(int num,int den){ if(S->cfg.sched==5) return 0; return (int)(rnd()%(uint64_t)den)<num; }

static int runnable(int a){ actor_t*t=&S->act[a]; return t->alive&&(!t->blocked||t->seen<S->version); }
static void bumpv(void){ S->version++; }
static int pick(void){
  int c[MAXA],n=0; int mer=me>=0&&runnable(me);
  if(mer) c[n++]=me;
  for(int k=0;k<S->nact;k++){ int a=((S->cfg.sched==3||unfocused())&&me>=0)?(me+1+k)%S->nact:k; if(a!=me&&runnable(a)) c[n++]=a; }
  if(n==0) return -1; if(n==1) return c[0];
  switch(S->cfg.sched){
  case 1: if(mer&&coin(7,8)) return c[0]; return c[choose_w(n,1)];
  case 2: { int b=c[0]; for(int i=1;i<n;i++) if(S->act[c[i]].prio>S->act[b].prio) b=c[i]; 
      for(int i=0;i<4;i++) if(S->change_at[i]==S->steps){ S->act[b].prio=-(int)S->steps; } if(coin(1,64)) return c[choose_w(n,1)]; return b; }
  case 3: return mer?c[1]:c[0];
  case 4: if(mer) return c[0]; return c[choose_w(n,1)];
  case 5: if(unfocused()) return mer?c[1]:c[0];
          if(mer&&S->cfg.preempt>=0&&S->preempts>=S->cfg.preempt) return c[0];
          { int v=choose_w(n,0); if(mer&&v) S->preempts++; return c[v]; }
  default: return c[choose_w(n,1)]; } }
static void handoff(int to){ S->turn=to; __sync_synchronize(); S->act[to].go=1; fwake(&S->act[to].go); }
static void await_turn(void){ while(!__sync_bool_compare_and_swap(&S->act[me].go,1,0)) fwait(&S->act[me].go,0); }
static void deadlock(void) __attribute__((noreturn));
static void deadlock(void){ char b[512]; int k=0; b[0]=0; for(int a=0;a<S->nact;a++) if(S->act[a].alive) k+=snprintf(b+k,sizeof b-(size_t)k,"%s%d",k?",":"",S->act[a].rank);
  char w[512]; int kw=0; w[0]=0; for(int a=0;a<S->nact;a++) if(S->act[a].alive) kw+=snprintf(w+kw,sizeof w-(size_t)kw,"%d:%s ",S->act[a].rank,S->act[a].why);
  tev("{\"e\":\"deadlock\",\"ps\":[%s],\"msg\":\"%s\"}",b,w); finish_all(1); }
static void resched(void){ int to=pick(); if(to<0) deadlock(); if(to!=me){ handoff(to); await_turn(); } }
static void async_events(void);
static void progress(void);
static void sched_point(void){
  if(!in_rank) return; mock_diff(); if(++S->steps>S->cfg.maxsteps){ tev("{\"e\":\"livelock\",\"p\":%d}",ALIAS(myrank)); finish_all(1); }
  S->act[me].blocked=0; async_events(); resched(); async_events(); progress(); }
void mock_yield(void){ sched_point(); }
void mock_focus(int n){ if(n>0){ S->ftarget=n; S->focus++; while(S->focus>0&&S->focus<n) sched_point(); } else { if(++S->unfocus>=-n){ S->focus=0; S->unfocus=0; S->ftarget=0; } } }
static void blocked(const char*why){ /* condition false: give up the baton until something changes */
  actor_t*t=&S->act[me]; if(++S->steps>S->cfg.maxsteps){ tev("{\"e\":\"livelock\",\"p\":%d}",ALIAS(myrank)); finish_all(1); }
  snprintf(t->why,sizeof t->why,"%s",why); t->blocked=1; t->seen=S->version; resched(); t->blocked=0; mock_diff(); progress(); }

/* ------------------------------------------------------------------ heap of a rank (shared, so that the model network can reach it) */
typedef struct hdr { size_t size; uint64_t magic; struct hdr*nextfree; uint64_t pad; } hdr_t;
#define MAGIC_USED 0xA110CA7EDULL
#define MAGIC_FREE 0xF4EEDF4EEDULL
static long heap_live; static unsigned long heap_next; static hdr_t*freelist[64]; 
static int szclass(size_t n){ int c=0; size_t s=32; while(s<n){ s<<=1; c++; } return c; }
/* huge blocks (job option gap) are filled only at their ends */
#define FILLED (1UL<<20)
static void heap_fill(void*p,int v,size_t n,size_t s){ if(s<=FILLED||!S->cfg.gap){ memset(p,v,s); return; } memset(p,v,4096); memset((char*)p+n,v,s-n<4096?s-n:4096); }
/* cfg.adj: the memory that MPI hands out (windows, MPI_Alloc_mem) lies block against block, without anything between */
#define MAXADJ 4096
static struct { unsigned long a; size_t n; int live; char kind; } adj[MAXADJ]; static int nadj; static unsigned long adj_next;
enum { K_HEAP=0, K_MEM=2, K_WIN=4 };
static const char*kindname(int k){ return k==K_MEM?"MPI_Alloc_mem":k==K_WIN?"a window":"malloc"; }
void*mock_heap_alloc(size_t n){ if(n>HEAP_SIZE/4){ if(n<=HEAP_SIZE) mock_fatal("exhausted","heap"); return NULL; } int c=szclass(n?n:1); size_t s=(size_t)32<<c; hdr_t*h;
  if(S->cfg.reuse&&freelist[c]){ h=freelist[c]; freelist[c]=h->nextfree; }
  else { if(heap_next+s+sizeof(hdr_t)*2>HEAP_ADDR+(S->cfg.adj?HEAP_SIZE/2:HEAP_SIZE)) mock_fatal("exhausted","heap"); h=(hdr_t*)heap_next; heap_next+=sizeof(hdr_t)+s+32; }
  heap_live++; h->pad=K_HEAP; h->size=n; h->magic=MAGIC_USED; h->nextfree=NULL; void*p=(void*)(h+1); heap_fill(p,0xCD,n,s+32); return p; }
void*mock_own_alloc(size_t n){ void*p=mock_heap_alloc(n); if(p){ ((hdr_t*)p-1)->pad|=1; heap_live--; } return p; }   /* the driver's own buffers are not counted */
static void redzone(hdr_t*h){ size_t s=(size_t)32<<szclass(h->size?h->size:1); const uint8_t*p=(uint8_t*)(h+1); size_t e=s+32; if(S->cfg.gap&&e>FILLED&&e>h->size+4096) e=h->size+4096; for(size_t i=h->size;i<e;i++) if(p[i]!=0xCD) MISUSE("bytes beyond the end of a heap block of %ld bytes were overwritten (offset %ld)",(long)h->size,(long)i); }
static void heap_free(void*p);
static void*mpi_alloc(size_t n,int kind){
  if(!S->cfg.adj||!n||n>HEAP_SIZE/8){ void*p=mock_heap_alloc(n); if(p) ((hdr_t*)p-1)->pad=(uint64_t)kind; return p; }
  size_t z=(n+7)&~7UL; int k=-1; if(!adj_next) adj_next=HEAP_ADDR+HEAP_SIZE/2;
  if(S->cfg.reuse) for(int i=0;i<nadj;i++) if(!adj[i].live&&adj[i].n==z){ k=i; break; }
  if(k<0){ if(nadj>=MAXADJ||adj_next+z>HEAP_ADDR+HEAP_SIZE) mock_fatal("exhausted","heap"); k=nadj++; adj[k].a=adj_next; adj[k].n=z; adj_next+=z; }
  adj[k].live=1; adj[k].kind=(char)kind; heap_live++; void*p=(void*)adj[k].a; heap_fill(p,0xCD,z<4096?0:z-4096,z); return p; }
static void kind_free(void*p,int kind){
  if(S->cfg.adj&&(unsigned long)p>=HEAP_ADDR+HEAP_SIZE/2){ for(int i=0;i<nadj;i++) if(adj[i].a==(unsigned long)p){ if(!adj[i].live) MISUSE("free of a block that is not allocated"); if(adj[i].kind!=kind) MISUSE("memory from %s freed as memory from %s",kindname(adj[i].kind),kindname(kind)); heap_live--; adj[i].live=0; heap_fill(p,0xDB,adj[i].n<4096?0:adj[i].n-4096,adj[i].n); return; } MISUSE("free of a block that is not allocated"); }
  hdr_t*h=(hdr_t*)p-1; if(h->magic==MAGIC_USED&&(int)(h->pad&~1UL)!=kind) MISUSE("memory from %s freed as memory from %s",kindname((int)(h->pad&~1UL)),kindname(kind)); heap_free(p); }
static void heap_free(void*p){ hdr_t*h=(hdr_t*)p-1; if(h->magic!=MAGIC_USED){ MISUSE("free of a block that is not allocated (magic %llx)",(unsigned long long)h->magic); }
  redzone(h); int c=szclass(h->size?h->size:1); heap_fill(p,0xDB,h->size,(size_t)32<<c); heap_live-=!(h->pad&1); h->magic=MAGIC_FREE; if(S->cfg.reuse){ h->nextfree=freelist[c]; freelist[c]=h; } }
static int in_heap(const void*p){ return (unsigned long)p>=HEAP_ADDR&&(unsigned long)p<HEAP_ADDR+HEAP_SIZE; }
static pthread_mutex_t dummy_mx;
#define HEAPED (in_rank&&heap_next&&me>=0)
void*__wrap_malloc(size_t n){ return HEAPED?mock_heap_alloc(n):__real_malloc(n); }
void __wrap_free(void*p){ if(!p) return; if(in_heap(p)) kind_free(p,K_HEAP); else __real_free(p); }
void*__wrap_calloc(size_t a,size_t b){ if(!HEAPED) return __real_calloc(a,b); void*p=mock_heap_alloc(a*b); if(p) memset(p,0,a*b); return p; }
void*__wrap_realloc(void*p,size_t n){ if(!p) return __wrap_malloc(n); if(!in_heap(p)) return __real_realloc(p,n); hdr_t*h=(hdr_t*)p-1; if(h->magic!=MAGIC_USED||(h->pad&~1UL)!=K_HEAP) MISUSE("realloc of a freed block or of memory from MPI"); redzone(h); void*q=mock_heap_alloc(n); if(!q) return q; memcpy(q,p,h->size<n?h->size:n); heap_free(p); return q; }
int __wrap_posix_memalign(void**o,size_t a,size_t n){ if(a>32) a=32; *o=__wrap_malloc(n); return 0; }
void*__wrap_aligned_alloc(size_t a,size_t n){ (void)a; return __wrap_malloc(n); }
void*__wrap_memalign(size_t a,size_t n){ (void)a; return __wrap_malloc(n); }
void*__wrap_valloc(size_t n){ return __wrap_malloc(n); }
char*__wrap_strdup(const char*s){ size_t n=strlen(s)+1; char*p=__wrap_malloc(n); memcpy(p,s,n); return p; }

/* ------------------------------------------------------------------ threads inside a rank */
typedef struct { int owner; int cnt; } vmx_t;  /* virtual mutex table keyed by address */
static struct { pthread_mutex_t*m; int owner; } vmx[64]; static int nvmx;
static int *vmx_owner(pthread_mutex_t*m){ for(int i=0;i<nvmx;i++) if(vmx[i].m==m) return &vmx[i].owner; if(nvmx==64) mock_fatal("exhausted","mutexes"); vmx[nvmx].m=m; vmx[nvmx].owner=-1; return &vmx[nvmx++].owner; }
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(!HEAPED) return __real_pthread_mutex_lock(m); int*o=vmx_owner(m); sched_point(); while(*o!=-1) blocked("pthread_mutex"); *o=me; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ int*o=vmx_owner(m); sched_point(); if(*o!=-1) return EBUSY; *o=me; return 0; }
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ if(!HEAPED) return __real_pthread_mutex_unlock(m); int*o=vmx_owner(m); if(*o!=me) MISUSE("unlock of a pthread mutex not owned"); *o=-1; bumpv(); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ (void)a; *vmx_owner(m)=-1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t*m){ (void)m; return 0; }
typedef struct { void*(*fn)(void*); void(*vfn)(void*); void*arg; int actor; pthread_t th; void*ret; } thr_t;
static thr_t thr[MAXA]; static int spawned;
static void actor_exit(void){ mock_diff(); S->act[me].alive=0; bumpv(); int any=0; for(int a=0;a<S->nact;a++) any|=S->act[a].alive; if(!any){ tev("{\"e\":\"done\"}"); finish_all(0);} int to=pick(); if(to<0) deadlock(); handoff(to); }
static void*thr_main(void*x){ thr_t*t=x; me=t->actor; await_turn(); if(t->fn) t->ret=t->fn(t->arg); else t->vfn(t->arg); actor_exit(); return NULL; }
int __real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static int spawn(void*(*fn)(void*),void(*vfn)(void*),void*arg){ int a=S->nact; if(a>=MAXA) mock_fatal("exhausted","threads"); spawned=1; thr_t*t=&thr[a]; t->fn=fn;t->vfn=vfn;t->arg=arg;t->actor=a; actor_t*x=&S->act[a]; memset(x,0,sizeof *x); x->rank=myrank; x->alive=1; x->prio=(int)(rnd()%1000)+1; S->nact=a+1;
  if(__real_pthread_create(&t->th,NULL,thr_main,t)) mock_fatal("harness","pthread_create"); return a; }
int mock_spawn(void(*fn)(void*),void*arg){ int a=spawn(NULL,fn,arg); sched_point(); return a; }
void mock_join(int a){ while(S->act[a].alive) blocked("join"); }
int __wrap_pthread_create(pthread_t*p,const pthread_attr_t*at,void*(*fn)(void*),void*arg){ if(!HEAPED) return __real_pthread_create(p,at,fn,arg); int a=spawn(fn,NULL,arg); *p=(pthread_t)(unsigned long)a; sched_point(); return 0; }
int __wrap_pthread_join(pthread_t p,void**r){ int a=(int)(unsigned long)p; sched_point(); while(S->act[a].alive) blocked("pthread_join"); if(r)*r=thr[a].ret; return 0; }
int __wrap_pthread_detach(pthread_t p){ (void)p; return 0; }
void __wrap_pthread_exit(void*r){ thr[me].ret=r; actor_exit(); for(;;) pause(); }
int __wrap_usleep(unsigned u){ if(u>=1000000000u) MISUSE("sleeps %u microseconds",u); sched_point(); return 0; }
int __wrap_nanosleep(const struct timespec*a,struct timespec*b){ (void)a;(void)b; sched_point(); return 0; }
int __wrap_sched_yield(void){ sched_point(); return 0; }
unsigned __wrap_sleep(unsigned s){ (void)s; sched_point(); return 0; }
void __wrap_exit(int c){ if(HEAPED) mock_fatal("abort","exit(%d) called",c); _exit(c); }
void __wrap_abort(void){ mock_fatal("abort","abort() called"); }
void __wrap___assert_fail(const char*a,const char*f,unsigned l,const char*fn){ (void)f;(void)l; mock_fatal("abort","assertion %s in %s",a,fn); }

/* ------------------------------------------------------------------ basic types and typemaps */
static const int bsize[MPI_MOCK_NBASIC]={0,1,1,1,1,2,2,4,4,8,8,8,8,4,8,16,1,2,4,8,1,2,4,8,8,16,1,8,8,8,1,4, 8,8,16,16,8,16,4,4,8,1,4};
typedef struct { int used, committed, nrun; run_t*run; long lb, ub; long size; int freed; int builtin; int indexed; } dt_t;
static dt_t*dts; static int ndts, capdts;
static void dt_boot(void){ if(dts) return; capdts=256; dts=__real_calloc((size_t)capdts,sizeof(dt_t)); ndts=64; for(int b=1;b<MPI_MOCK_NBASIC;b++){ dt_t*d=&dts[b]; d->used=d->committed=d->builtin=1; d->nrun=1; d->run=__real_malloc(sizeof(run_t)); d->run[0]=(run_t){0,b,1}; d->lb=0; d->ub=bsize[b]; d->size=bsize[b]; } }
static dt_t*dt_get(MPI_Datatype t,int need_commit){ dt_boot(); if(t<=0||t>=ndts||!dts[t].used) MISUSE("invalid datatype handle"); if(dts[t].freed) MISUSE("use of a freed datatype"); if(need_commit&&!dts[t].committed) MISUSE("use of an uncommitted datatype"); return &dts[t]; }
typedef struct { run_t*r; int n,cap; } rl_t;
static void rl_add(rl_t*l,long off,int b,long n){ if(n<=0) return; if(l->n){ run_t*p=&l->r[l->n-1]; if(p->basic==b&&p->off+p->n*bsize[b]==off){ p->n+=n; return; } } if(l->n==l->cap){ l->cap=l->cap?l->cap*2:8; l->r=__real_realloc(l->r,sizeof(run_t)*(size_t)l->cap); } l->r[l->n++]=(run_t){off,b,n}; }
static void rl_dt(rl_t*l,dt_t*d,long off,long count){ long ext=d->ub-d->lb; for(long i=0;i<count;i++) for(int k=0;k<d->nrun;k++) rl_add(l,off+i*ext+d->run[k].off,d->run[k].basic,d->run[k].n); }
static int dt_new(rl_t*l,long lb,long ub){ if(ndts==capdts){ dts=__real_realloc(dts,sizeof(dt_t)*(size_t)capdts*2); memset(dts+capdts,0,sizeof(dt_t)*(size_t)capdts); capdts*=2; } dt_t*d=&dts[ndts]; memset(d,0,sizeof *d); d->used=1; d->nrun=l->n; d->run=l->r; d->lb=lb; d->ub=ub; for(int k=0;k<l->n;k++) d->size+=l->r[k].n*bsize[l->r[k].basic]; return ndts++; }
static void bounds(long*lb,long*ub,int*any,long a,long b){ if(!*any){*lb=a;*ub=b;*any=1;} else { if(a<*lb)*lb=a; if(b>*ub)*ub=b; } }
int MPI_Type_contiguous(int c,MPI_Datatype o,MPI_Datatype*n){ return MPI_Type_create_hvector(c,1,0,o,n)+0*c; }
static int hind(int n,const long*disp,const int*bl,const MPI_Datatype*ty,MPI_Datatype t1,MPI_Datatype*out){ rl_t l={0}; long lb=0,ub=0; int any=0; for(int i=0;i<n;i++){ dt_t*d=dt_get(ty?ty[i]:t1,0); if(bl[i]<0) MISUSE("negative blocklength"); if(bl[i]==0) continue; long ext=d->ub-d->lb; rl_dt(&l,d,disp[i],bl[i]); long a=disp[i]+d->lb,b=disp[i]+d->ub; if(ext>=0) b+=(bl[i]-1)*ext; else a+=(bl[i]-1)*ext; bounds(&lb,&ub,&any,a,b);} int idx=0; for(int i=0;i<n;i++) idx|=dt_get(ty?ty[i]:t1,0)->indexed; *out=dt_new(&l,lb,ub); dts[*out].indexed=idx; return 0; }
static int indexed(int rc,MPI_Datatype*t){ dts[*t].indexed=1; return rc; }
int MPI_Type_create_hvector(int c,int b,MPI_Aint s,MPI_Datatype o,MPI_Datatype*n){ if(c<0) MISUSE("negative count"); dt_t*d=dt_get(o,0); long ext=d->ub-d->lb; if(b==1&&s==0) s=ext; long*disp=__real_malloc(sizeof(long)*(size_t)(c+1)); int*bl=__real_malloc(sizeof(int)*(size_t)(c+1)); for(int i=0;i<c;i++){disp[i]=i*s;bl[i]=b;} hind(c,disp,bl,NULL,o,n); __real_free(disp);__real_free(bl); return 0; }
int MPI_Type_hvector(int c,int b,MPI_Aint s,MPI_Datatype o,MPI_Datatype*n){ return MPI_Type_create_hvector(c,b,s,o,n); }
int MPI_Type_vector(int c,int b,int s,MPI_Datatype o,MPI_Datatype*n){ dt_t*d=dt_get(o,0); long ext=d->ub-d->lb; long*disp=__real_malloc(sizeof(long)*(size_t)(c+1)); int*bl=__real_malloc(sizeof(int)*(size_t)(c+1)); for(int i=0;i<c;i++){disp[i]=(long)i*s*ext;bl[i]=b;} hind(c,disp,bl,NULL,o,n); __real_free(disp);__real_free(bl); return 0; }
int MPI_Type_create_hindexed(int c,const int bl[],const MPI_Aint dp[],MPI_Datatype o,MPI_Datatype*n){ return indexed(hind(c,dp,bl,NULL,o,n),n); }
int MPI_Type_hindexed(int c,int bl[],MPI_Aint dp[],MPI_Datatype o,MPI_Datatype*n){ return indexed(hind(c,dp,bl,NULL,o,n),n); }
int MPI_Type_indexed(int c,const int bl[],const int dp[],MPI_Datatype o,MPI_Datatype*n){ dt_t*d=dt_get(o,0); long ext=d->ub-d->lb; long*disp=__real_malloc(sizeof(long)*(size_t)(c+1)); for(int i=0;i<c;i++)disp[i]=dp[i]*ext; indexed(hind(c,disp,bl,NULL,o,n),n); __real_free(disp); return 0; }
int MPI_Type_create_indexed_block(int c,int b,const int dp[],MPI_Datatype o,MPI_Datatype*n){ int*bl=__real_malloc(sizeof(int)*(size_t)(c+1)); for(int i=0;i<c;i++)bl[i]=b; int r=MPI_Type_indexed(c,bl,dp,o,n); __real_free(bl); return r; }
int MPI_Type_create_hindexed_block(int c,int b,const MPI_Aint dp[],MPI_Datatype o,MPI_Datatype*n){ int*bl=__real_malloc(sizeof(int)*(size_t)(c+1)); for(int i=0;i<c;i++)bl[i]=b; int r=indexed(hind(c,dp,bl,NULL,o,n),n); __real_free(bl); return r; }
int MPI_Type_create_struct(int c,const int bl[],const MPI_Aint dp[],const MPI_Datatype ty[],MPI_Datatype*n){ return hind(c,dp,bl,ty,0,n); }
int MPI_Type_create_subarray(int nd,const int sz[],const int sub[],const int st[],int order,MPI_Datatype o,MPI_Datatype*n){
  dt_t*d=dt_get(o,0); long ext=d->ub-d->lb; if(nd<1) MISUSE("subarray: ndims"); long tot=1; for(int i=0;i<nd;i++){ if(sz[i]<1||sub[i]<1||sub[i]>sz[i]||st[i]<0||st[i]>sz[i]-sub[i]) MISUSE("subarray: invalid size/subsize/start in dimension %d (%d,%d,%d)",i,sz[i],sub[i],st[i]); tot*=sz[i]; }
  long mul[16]; if(order==MPI_ORDER_C){ long m=1; for(int i=nd-1;i>=0;i--){mul[i]=m;m*=sz[i];} } else { long m=1; for(int i=0;i<nd;i++){mul[i]=m;m*=sz[i];} }
  rl_t l={0}; int idx[16]={0}; for(;;){ long off=0; for(int i=0;i<nd;i++) off+=(st[i]+idx[i])*mul[i]; rl_dt(&l,d,off*ext,1); int k; if(order==MPI_ORDER_C){ for(k=nd-1;k>=0;k--){ if(++idx[k]<sub[k]) break; idx[k]=0; } if(k<0) break; } else { for(k=0;k<nd;k++){ if(++idx[k]<sub[k]) break; idx[k]=0; } if(k==nd) break; } }
  int ix=d->indexed; long dlb=d->lb; *n=dt_new(&l,dlb,dlb+tot*ext); dts[*n].indexed=ix; return 0; }
int MPI_Type_create_resized(MPI_Datatype o,MPI_Aint lb,MPI_Aint ex,MPI_Datatype*n){ dt_t*d=dt_get(o,0); rl_t l={0}; for(int k=0;k<d->nrun;k++) rl_add(&l,d->run[k].off,d->run[k].basic,d->run[k].n); int ix=d->indexed; *n=dt_new(&l,lb,lb+ex); dts[*n].indexed=ix; return 0; }
int MPI_Type_dup(MPI_Datatype o,MPI_Datatype*n){ dt_t*d=dt_get(o,0); long lb=d->lb,ub=d->ub; int c=d->committed; rl_t l={0}; for(int k=0;k<d->nrun;k++) rl_add(&l,d->run[k].off,d->run[k].basic,d->run[k].n); int ix=d->indexed; *n=dt_new(&l,lb,ub); dts[*n].committed=c; dts[*n].indexed=ix; return 0; }
int MPI_Type_commit(MPI_Datatype*t){ dt_get(*t,0)->committed=1; return 0; }
int MPI_Type_free(MPI_Datatype*t){ dt_t*d=dt_get(*t,0); if(d->builtin) MISUSE("freeing a predefined datatype"); d->freed=1; *t=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t,int*s){ *s=(int)dt_get(t,0)->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t,MPI_Count*s){ *s=dt_get(t,0)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t,MPI_Aint*lb,MPI_Aint*e){ dt_t*d=dt_get(t,0); *lb=d->lb; *e=d->ub-d->lb; return 0; }
static void true_ext(dt_t*d,long*lb,long*e){ long a=0,b=0; int any=0; for(int k=0;k<d->nrun;k++) bounds(&a,&b,&any,d->run[k].off,d->run[k].off+d->run[k].n*bsize[d->run[k].basic]); *lb=a; *e=b-a; }
int MPI_Type_get_true_extent(MPI_Datatype t,MPI_Aint*lb,MPI_Aint*e){ long a,b; true_ext(dt_get(t,0),&a,&b); *lb=a;*e=b; return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t,MPI_Count*lb,MPI_Count*e){ dt_t*d=dt_get(t,0); *lb=d->lb; *e=d->ub-d->lb; return 0; }
int MPI_Type_get_true_extent_x(MPI_Datatype t,MPI_Count*lb,MPI_Count*e){ long a,b; true_ext(dt_get(t,0),&a,&b); *lb=a;*e=b; return 0; }
int MPI_Type_extent(MPI_Datatype t,MPI_Aint*e){ dt_t*d=dt_get(t,0); *e=d->ub-d->lb; return 0; }
int MPI_Type_lb(MPI_Datatype t,MPI_Aint*e){ *e=dt_get(t,0)->lb; return 0; }
int MPI_Type_ub(MPI_Datatype t,MPI_Aint*e){ *e=dt_get(t,0)->ub; return 0; }
int MPI_Type_get_envelope(MPI_Datatype t,int*a,int*b,int*c,int*d){ dt_t*x=dt_get(t,0); *a=*b=*c=0; *d=x->builtin?MPI_COMBINER_NAMED:MPI_COMBINER_CONTIGUOUS; return 0; }
int MPI_Type_set_name(MPI_Datatype t,const char*n){ (void)t;(void)n; return 0; }
int MPI_Type_get_name(MPI_Datatype t,char*n,int*l){ *l=snprintf(n,MPI_MAX_OBJECT_NAME,"type%d",t); return 0; }
int MPI_Get_address(const void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
int MPI_Address(void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a,MPI_Aint b){ return a+b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a,MPI_Aint b){ return a-b; }
/* pack/unpack by runs */
static long runs_bytes(const run_t*r,int n){ long b=0; for(int i=0;i<n;i++) b+=r[i].n*bsize[r[i].basic]; return b; }
static void gather(const uint8_t*base,const run_t*r,int n,uint8_t*out){ for(int i=0;i<n;i++){ long b=r[i].n*bsize[r[i].basic]; memcpy(out,base+r[i].off,(size_t)b); out+=b; } }
static void scatter(uint8_t*base,const run_t*r,int n,const uint8_t*in,long nb){ for(int i=0;i<n&&nb>0;i++){ long b=r[i].n*bsize[r[i].basic]; if(b>nb) b=nb; memcpy(base+r[i].off,in,(size_t)b); in+=b; nb-=b; } }
static uint8_t*pack(const void*buf,long count,MPI_Datatype t,long*nb){ if(count<0) MISUSE("negative count"); if(count==0){ if(t!=0) dt_get(t,1); *nb=0; return arena(1); } dt_t*d=dt_get(t,1); rl_t l={0}; rl_dt(&l,d,0,count); *nb=runs_bytes(l.r,l.n); uint8_t*o=arena((size_t)*nb+1); gather(buf,l.r,l.n,o); __real_free(l.r); return o; }
static void unpack(void*buf,long count,MPI_Datatype t,const uint8_t*in,long nb){ if(count==0||nb==0) return; dt_t*d=dt_get(t,1); rl_t l={0}; rl_dt(&l,d,0,count); scatter(buf,l.r,l.n,in,nb); __real_free(l.r); }
static long tbytes(long count,MPI_Datatype t){ if(count<0) MISUSE("negative count"); return count?count*dt_get(t,1)->size:0; }
int MPI_Pack(const void*b,int c,MPI_Datatype t,void*o,int os,int*pos,MPI_Comm cm){ (void)cm; long nb; uint8_t*p=pack(b,c,t,&nb); if(*pos+nb>os) MISUSE("pack overflow"); memcpy((char*)o+*pos,p,(size_t)nb); *pos+=(int)nb; return 0; }
int MPI_Unpack(const void*b,int n,int*pos,void*o,int c,MPI_Datatype t,MPI_Comm cm){ (void)cm; long nb=tbytes(c,t); if(*pos+nb>n) MISUSE("unpack overflow"); unpack(o,c,t,(const uint8_t*)b+*pos,nb); *pos+=(int)nb; return 0; }
int MPI_Pack_size(int c,MPI_Datatype t,MPI_Comm cm,int*s){ (void)cm; *s=(int)tbytes(c,t); return 0; }

/* ------------------------------------------------------------------ reduction operators */
typedef struct { MPI_User_function*fn; int commute, used; } uop_t; static uop_t uops[256]; static int nuops=32;
int MPI_Op_create(MPI_User_function*f,int c,MPI_Op*o){ int k=32; while(k<nuops&&uops[k].used) k++; if(k>=256) MISUSE("too many ops"); if(k==nuops) nuops++; uops[k]=(uop_t){f,c,1}; *o=k; return 0; }
int MPI_Op_free(MPI_Op*o){ if(*o<32||!uops[*o].used) MISUSE("freeing an invalid op"); uops[*o].used=0; *o=MPI_OP_NULL; return 0; }
int MPI_Op_commutative(MPI_Op o,int*c){ *c=o<32?1:uops[o].commute; return 0; }
#define ARITH(T) { T a,b; memcpy(&a,in,sizeof a); memcpy(&b,io,sizeof b); switch(op){ case MPI_MAX: b=a>b?a:b; break; case MPI_MIN: b=a<b?a:b; break; case MPI_SUM: b=(T)(a+b); break; case MPI_PROD: b=(T)(a*b); break; case MPI_LAND: b=(T)(a&&b); break; case MPI_LOR: b=(T)(a||b); break; case MPI_LXOR: b=(T)(!a!=!b); break; default: bad=1; } memcpy(io,&b,sizeof b); }
#define BITS(T) if(op==MPI_BAND||op==MPI_BOR||op==MPI_BXOR){ T a,b; memcpy(&a,in,sizeof a); memcpy(&b,io,sizeof b); b=op==MPI_BAND?(T)(a&b):op==MPI_BOR?(T)(a|b):(T)(a^b); memcpy(io,&b,sizeof b); } else ARITH(T)
static void op_elem(int op,int basic,const uint8_t*in,uint8_t*io){ int bad=0; if(op==MPI_NO_OP) return; if(op==MPI_REPLACE){ memcpy(io,in,(size_t)bsize[basic]); return; }
  switch(basic){ case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: BITS(int8_t) break; case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: BITS(uint8_t) break;
  case MPI_BYTE: if(op==MPI_BAND||op==MPI_BOR||op==MPI_BXOR) BITS(uint8_t) else bad=1; break;
  case MPI_SHORT: case MPI_INT16_T: BITS(int16_t) break; case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: BITS(uint16_t) break; case MPI_INT: case MPI_INT32_T: case MPI_INTEGER: case MPI_LOGICAL: BITS(int32_t) break; case MPI_UNSIGNED: case MPI_UINT32_T: BITS(uint32_t) break;
  case MPI_LONG: case MPI_LONG_LONG_INT: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: BITS(int64_t) break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: BITS(uint64_t) break;
  case MPI_FLOAT: case MPI_REAL: ARITH(float) break; case MPI_DOUBLE: case MPI_DOUBLE_PRECISION: ARITH(double) break; case MPI_LONG_DOUBLE: ARITH(long double) break;
  case MPI_C_FLOAT_COMPLEX: case MPI_COMPLEX: { float complex a,b; memcpy(&a,in,8); memcpy(&b,io,8); if(op==MPI_SUM) b+=a; else if(op==MPI_PROD) b*=a; else bad=1; memcpy(io,&b,8); break; }
  case MPI_C_DOUBLE_COMPLEX: case MPI_DOUBLE_COMPLEX: { double complex a,b; memcpy(&a,in,16); memcpy(&b,io,16); if(op==MPI_SUM) b+=a; else if(op==MPI_PROD) b*=a; else bad=1; memcpy(io,&b,16); break; }
  case MPI_2INT: { int a[2],b[2]; memcpy(a,in,8); memcpy(b,io,8); if(op==MPI_MAXLOC){ if(a[0]>b[0]||(a[0]==b[0]&&a[1]<b[1])) memcpy(b,a,8);} else if(op==MPI_MINLOC){ if(a[0]<b[0]||(a[0]==b[0]&&a[1]<b[1])) memcpy(b,a,8);} else bad=1; memcpy(io,b,8); break; }
  case MPI_DOUBLE_INT: { struct {double d;int i;} a,b; memcpy(&a,in,16); memcpy(&b,io,16); if(op==MPI_MAXLOC){ if(a.d>b.d||(a.d==b.d&&a.i<b.i)) b=a;} else if(op==MPI_MINLOC){ if(a.d<b.d||(a.d==b.d&&a.i<b.i)) b=a;} else bad=1; memcpy(io,&b,16); break; }
  default: bad=1; }
  if(bad) MISUSE("reduction operator %d is not defined on basic type %d",op,basic); }
static void reduce_into(MPI_Op op,MPI_Datatype t,long count,const uint8_t*in,uint8_t*io){ /* io = in op io, packed vectors */
  if(count==0) return; dt_t*d=dt_get(t,1);
  if(op>=32){ if(!uops[op].used) MISUSE("use of a freed op"); long k=0,ext=d->ub-d->lb; if(ext!=d->size) mock_fatal("harness","user op on non-contiguous type");
    uint8_t*a=arena((size_t)(count*ext)+32),*b=arena((size_t)(count*ext)+32); memcpy(a,in,(size_t)(count*ext)); memcpy(b,io,(size_t)(count*ext));
    int seg=S->cfg.segred&&count>1; while(k<count){ int n=(int)(count-k); if(seg&&n>1) n=1+mock_choose(n); MPI_Datatype tt=t; uops[op].fn(a+k*ext,b+k*ext,&n,&tt); k+=n; }
    memcpy(io,b,(size_t)(count*ext)); return; }
  rl_t l={0}; rl_dt(&l,d,0,count); long off=0; for(int i=0;i<l.n;i++) for(long j=0;j<l.r[i].n;j++){ op_elem(op,l.r[i].basic,in+off,io+off); off+=bsize[l.r[i].basic]; } __real_free(l.r); }
int MPI_Reduce_local(const void*in,void*io,int c,MPI_Datatype t,MPI_Op op){ long nb; uint8_t*a=pack(in,c,t,&nb),*b=pack(io,c,t,&nb); reduce_into(op,t,c,a,b); unpack(io,c,t,b,nb); return 0; }

/* ------------------------------------------------------------------ init/finalize/misc */
static int thread_level=MPI_THREAD_SINGLE, main_actor=-1;
static void need_init(void){ if(thread_level<MPI_THREAD_MULTIPLE&&main_actor>=0&&me!=main_actor) MISUSE("MPI called by another thread at thread level %d",thread_level); if(!S->mpi_inited[myrank]) MISUSE("MPI call before MPI_Init"); if(S->mpi_finalized[myrank]) MISUSE("MPI call after MPI_Finalize"); }
#define ENTER() do{ need_init(); sched_point(); }while(0)
int MPI_Init(int*a,char***b){ int p; return MPI_Init_thread(a,b,MPI_THREAD_SINGLE,&p); }
int MPI_Init_thread(int*a,char***b,int r,int*p){ (void)a;(void)b; if(S->mpi_inited[myrank]) MISUSE("MPI initialized twice"); S->mpi_inited[myrank]=1; thread_level=r; main_actor=me; *p=r; sched_point(); return 0; }
int MPI_Initialized(int*f){ *f=S->mpi_inited[myrank]; return 0; }
int MPI_Finalized(int*f){ *f=S->mpi_finalized[myrank]; return 0; }
int MPI_Finalize(void){ MPI_Barrier(MPI_COMM_WORLD); for(int w=0;w<S->nwin;w++){ win_t*x=&S->win[w]; if(x->used) for(int i=0;i<x->n;i++) if(x->ranks[i]==myrank&&!x->freed[i]) MISUSE("MPI_Finalize with a live window"); } S->mpi_finalized[myrank]=1; return 0; }
int MPI_Query_thread(int*p){ *p=thread_level; return 0; }
int MPI_Is_thread_main(int*f){ *f=1; return 0; }
int MPI_Abort(MPI_Comm c,int code){ (void)c; abort_code=code; mock_fatal("abort","MPI_Abort(%d)",code); }
int MPI_Get_version(int*a,int*b){ *a=3;*b=1; return 0; }
int MPI_Get_library_version(char*s,int*l){   /* what the library calls itself varies */
  static const char*const N[]={"model MPI","Open MPI v4.1.6, package: model, ident: 4.1.6, repo rev: v4.1.6, Sep 30, 2023","MPICH Version:\t4.2.0\nMPICH Release date:\tFri Feb  9 12:29:21 CST 2024","Intel(R) MPI Library 2021.11 for Linux* OS","Open MPI v2.0rc4, package: x","MPICH Version:\t3.3a2","CRAY MPICH version 8.1.28 (ANL base 3.4a2)","MVAPICH Version:\t3.0","Intel(R) MPI Library 2019 Update 9","Open MPI v5.0.10","Open MPI","MPICH","","Intel(R) MPI Library 2030.30 for a very long name indeed that does not end soon"};
  *l=snprintf(s,MPI_MAX_LIBRARY_VERSION_STRING,"%s",N[S->cfg.seed%(sizeof N/sizeof *N)]); return 0; }
int MPI_Get_processor_name(char*s,int*l){ *l=snprintf(s,MPI_MAX_PROCESSOR_NAME,"node"); return 0; }
double MPI_Wtime(void){ static double t; t+=0.01; return t; }
double MPI_Wtick(void){ return 1e-6; }
int MPI_Error_string(int e,char*s,int*l){ *l=snprintf(s,MPI_MAX_ERROR_STRING,"error %d",e); return 0; }
int MPI_Error_class(int e,int*c){ *c=e; return 0; }
int MPI_Pcontrol(const int l,...){ (void)l; return 0; }
/* info */
typedef struct { int used,n; char k[32][64]; char v[32][128]; } info_t; static info_t infos[256];
static info_t*inf(MPI_Info i){ if(i<2||i>=256||!infos[i].used) MISUSE("invalid info"); return &infos[i]; }
int MPI_Info_create(MPI_Info*i){ for(int k=2;k<256;k++) if(!infos[k].used){ infos[k].used=1; infos[k].n=0; *i=k; return 0; } MISUSE("too many infos"); }
int MPI_Info_set(MPI_Info i,const char*k,const char*v){ info_t*x=inf(i); int j; for(j=0;j<x->n;j++) if(!strcmp(x->k[j],k)) break; if(j==32) MISUSE("info full"); if(j==x->n) x->n++; snprintf(x->k[j],64,"%s",k); snprintf(x->v[j],128,"%s",v); return 0; }
int MPI_Info_get(MPI_Info i,const char*k,int l,char*v,int*f){ info_t*x=inf(i); *f=0; for(int j=0;j<x->n;j++) if(!strcmp(x->k[j],k)){ snprintf(v,(size_t)l+1,"%s",x->v[j]); *f=1; } return 0; }
int MPI_Info_free(MPI_Info*i){ inf(*i)->used=0; *i=MPI_INFO_NULL; return 0; }
int MPI_Info_dup(MPI_Info i,MPI_Info*o){ MPI_Info_create(o); int u=infos[*o].used; infos[*o]=*inf(i); infos[*o].used=u; return 0; }
int MPI_Info_delete(MPI_Info i,const char*k){ info_t*x=inf(i); for(int j=0;j<x->n;j++) if(!strcmp(x->k[j],k)){ x->n--; memcpy(x->k[j],x->k[x->n],64); memcpy(x->v[j],x->v[x->n],128); } return 0; }
int MPI_Info_get_nkeys(MPI_Info i,int*n){ *n=inf(i)->n; return 0; }
int MPI_Alloc_mem(MPI_Aint n,MPI_Info i,void*p){ (void)i; if(n<0) MISUSE("negative allocation"); *(void**)p=mpi_alloc((size_t)n,K_MEM); return 0; }
int MPI_Free_mem(void*p){ if(!p) MISUSE("MPI_Free_mem(NULL)"); if(!in_heap(p)) MISUSE("MPI_Free_mem of foreign memory"); kind_free(p,K_MEM); return 0; }

/* ------------------------------------------------------------------ collectives engine */
static comm_t*comm_get(MPI_Comm c){ if(c==MPI_COMM_SELF) return &S->comm[10+myrank]; if(c<=0||c>=S->ncomm||!S->comm[c].used) MISUSE("invalid communicator (%d)",c); comm_t*x=&S->comm[c]; if(x->freed[myrank]) MISUSE("use of a freed communicator"); return x; }
static int crank(comm_t*c,int wr){ for(int i=0;i<c->n;i++) if(c->ranks[i]==wr) return i; return -1; }
static int comm_make(int n,const int*ranks){ if(S->ncomm>=MAXCOMM) mock_fatal("exhausted","communicators"); int k=S->ncomm++; comm_t*c=&S->comm[k]; memset(c,0,sizeof *c); c->used=1; c->n=n; memcpy(c->ranks,ranks,sizeof(int)*(size_t)n); c->ctx=++S->nextctx; return k; }
enum { C_BARRIER=1,C_BCAST,C_REDUCE,C_ALLREDUCE,C_SCAN,C_GATHER,C_ALLGATHER,C_SCATTER,C_ALLTOALL,C_SPLIT,C_CREATE,C_DUP,C_MERGE,C_WINALLOC,C_WINCREATE,C_WINFREE,C_WINFENCE,C_COMMFREE,C_CGRP,C_RSB };
static coll_t*coll_enter_ctx(long ctx,int seq,int kind,int idx,int n,const void*data,long len,long arg){
  coll_t*k; for(k=S->colls;k;k=k->next) if(k->ctx==ctx&&k->seq==seq) break;
  if(!k){ k=arena(sizeof *k); memset(k,0,sizeof *k); k->ctx=ctx;k->seq=seq;k->kind=kind;k->n=n;k->next=S->colls;S->colls=k; }
  if(k->kind!=kind) MISUSE("mismatched collective operations on one communicator (kinds %d and %d)",k->kind,kind);
  k->data[idx]=arena((size_t)len+1); if(len) memcpy(k->data[idx],data,(size_t)len); k->len[idx]=len; k->arg[idx]=arg; k->here[idx]=1; k->arrived++; bumpv(); return k; }
static coll_t*coll_enter(comm_t*c,int kind,const void*data,long len,long arg){ if(c->inter) MISUSE("collective on intercommunicator"); int i=crank(c,myrank); if(i<0) MISUSE("collective by a non-member"); return coll_enter_ctx(c->ctx,c->seq[myrank]++,kind,i,c->n,data,len,arg); }
static void coll_all(coll_t*k,const char*w){ while(k->arrived<k->n) blocked(w); }
static void coll_leave(coll_t*k){ if(++k->left==k->n){ coll_t**p=&S->colls; while(*p&&*p!=k) p=&(*p)->next; if(*p) *p=k->next; } }
int MPI_Barrier(MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); coll_t*k=coll_enter(c,C_BARRIER,NULL,0,0); coll_all(k,"barrier"); coll_leave(k); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); if(root<0||root>=c->n) MISUSE("bcast: invalid root %d",root); int i=crank(c,myrank); long nb=0; uint8_t*p=NULL; if(i==root) p=pack(b,n,t,&nb); coll_t*k=coll_enter(c,C_BCAST,p,nb,root);
  if(i!=root){ while(!k->here[root]) blocked("bcast"); if(k->arg[root]!=root) MISUSE("bcast: roots differ"); long want=tbytes(n,t); if(want!=k->len[root]) MISUSE("bcast: lengths differ"); unpack(b,n,t,k->data[root],want); } else if(S->cfg.sendm==1) coll_all(k,"bcast"); coll_leave(k); return 0; }
static uint8_t*reduce_all(coll_t*k,MPI_Op op,MPI_Datatype t,long n,int upto){ /* rank order 0 op 1 op ...; for commutative ops any order */
  uint8_t*acc=NULL; long nb=k->len[0]; acc=arena((size_t)nb+32); int ord[MAXR]; for(int i=0;i<upto;i++) ord[i]=i; 
  int comm=op<32||uops[op].commute; if(comm) for(int i=upto-1;i>0;i--){ int j=mock_choose(i+1); int x=ord[i];ord[i]=ord[j];ord[j]=x; }
  /* acc = d[last]; acc = d[i] op acc going downwards keeps rank order for non-commutative ops */
  memcpy(acc,k->data[ord[upto-1]],(size_t)nb); for(int i=upto-2;i>=0;i--){ if(k->len[ord[i]]!=nb) MISUSE("reduction lengths differ"); reduce_into(op,t,n,k->data[ord[i]],acc); } return acc; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); long nb; uint8_t*p=pack(s==MPI_IN_PLACE?r:s,n,t,&nb); coll_t*k=coll_enter(c,C_ALLREDUCE,p,nb,op<32?op:99); coll_all(k,"allreduce"); for(int i=0;i<c->n;i++) if(k->arg[i]!=k->arg[0]) MISUSE("allreduce: operators differ");
  if(!k->res[0]){ k->res[0]=(long)reduce_all(k,op,t,n,c->n); } unpack(r,n,t,(uint8_t*)k->res[0],nb); coll_leave(k); return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); long nb; uint8_t*p=pack(s==MPI_IN_PLACE?r:s,n,t,&nb); coll_t*k=coll_enter(c,C_REDUCE,p,nb,root); if(i==root){ coll_all(k,"reduce"); unpack(r,n,t,reduce_all(k,op,t,n,c->n),nb); } coll_leave(k); return 0; }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); long nb; uint8_t*p=pack(s==MPI_IN_PLACE?r:s,n,t,&nb); coll_t*k=coll_enter(c,C_SCAN,p,nb,0); coll_all(k,"scan"); unpack(r,n,t,reduce_all(k,op,t,n,i+1),nb); coll_leave(k); return 0; }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); long nb; uint8_t*p=pack(s==MPI_IN_PLACE?r:s,n,t,&nb); coll_t*k=coll_enter(c,C_SCAN,p,nb,1); coll_all(k,"exscan"); if(i>0) unpack(r,n,t,reduce_all(k,op,t,n,i),nb); coll_leave(k); return 0; }
int MPI_Reduce_scatter_block(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); long nb; uint8_t*p=pack(s==MPI_IN_PLACE?r:s,(long)n*c->n,t,&nb); coll_t*k=coll_enter(c,C_RSB,p,nb,0); coll_all(k,"rsb"); uint8_t*a=reduce_all(k,op,t,(long)n*c->n,c->n); unpack(r,n,t,a+nb/c->n*i,nb/c->n); coll_leave(k); return 0; }
static void place(void*r,long idx,long count,MPI_Datatype t,const uint8_t*d,long nb){ dt_t*x=dt_get(t,1); if(nb!=tbytes(count,t)) MISUSE("collective: lengths differ"); unpack((char*)r+idx*(x->ub-x->lb),count,t,d,nb); }
int MPI_Allgatherv(const void*s,int sn,MPI_Datatype st,void*r,const int rc[],const int dp[],MPI_Datatype rt,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); long nb; uint8_t*p; if(s==MPI_IN_PLACE){ dt_t*x=dt_get(rt,1); p=pack((char*)r+dp[i]*(x->ub-x->lb),rc[i],rt,&nb); } else p=pack(s,sn,st,&nb); coll_t*k=coll_enter(c,C_ALLGATHER,p,nb,0); coll_all(k,"allgather"); for(int j=0;j<c->n;j++) place(r,dp[j],rc[j],rt,k->data[j],k->len[j]); coll_leave(k); return 0; }
int MPI_Allgather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm cm){ int rc[MAXR],dp[MAXR]; for(int i=0;i<MAXR;i++){rc[i]=rn;dp[i]=i*rn;} return MPI_Allgatherv(s,sn,st,r,rc,dp,rt,cm); }
int MPI_Gatherv(const void*s,int sn,MPI_Datatype st,void*r,const int rc[],const int dp[],MPI_Datatype rt,int root,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); long nb; uint8_t*p; if(s==MPI_IN_PLACE){ dt_t*x=dt_get(rt,1); p=pack((char*)r+dp[i]*(x->ub-x->lb),rc[i],rt,&nb); } else p=pack(s,sn,st,&nb); coll_t*k=coll_enter(c,C_GATHER,p,nb,root); if(i==root){ coll_all(k,"gather"); for(int j=0;j<c->n;j++) place(r,dp[j],rc[j],rt,k->data[j],k->len[j]); } coll_leave(k); return 0; }
int MPI_Gather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm cm){ int rc[MAXR],dp[MAXR]; for(int i=0;i<MAXR;i++){rc[i]=rn;dp[i]=i*rn;} return MPI_Gatherv(s,sn,st,r,rc,dp,rt,root,cm); }
int MPI_Scatterv(const void*s,const int sc[],const int dp[],MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); uint8_t*all=NULL; long tot=0; long offs[MAXR+1]; if(i==root){ dt_t*x=dt_get(st,1); all=arena(1<<16); for(int j=0;j<c->n;j++){ long nb; uint8_t*p=pack((const char*)s+dp[j]*(x->ub-x->lb),sc[j],st,&nb); if(tot+nb>(1<<16)) mock_fatal("harness","scatter size"); memcpy(all+tot,p,(size_t)nb); tot+=nb; } }
  (void)offs; coll_t*k=coll_enter(c,C_SCATTER,all,tot,root); while(!k->here[root]) blocked("scatter"); if(r!=MPI_IN_PLACE){ long nb=tbytes(rn,rt); /* equal or per-rank sizes: recompute offset by asking the root's counts is not available to others; sizes must match cumulative */ long o=0; if(i==root){ for(int j=0;j<i;j++) o+=tbytes(sc[j],st); } else { o=(k->len[root]/c->n)*i; } unpack(r,rn,rt,k->data[root]+o,nb); } coll_leave(k); return 0; }
int MPI_Scatter(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm cm){ int sc[MAXR],dp[MAXR]; for(int i=0;i<MAXR;i++){sc[i]=sn;dp[i]=i*sn;} return MPI_Scatterv(s,sc,dp,st,r,rn,rt,root,cm); }
int MPI_Alltoallv(const void*s,const int sc[],const int sd[],MPI_Datatype st,void*r,const int rc[],const int rd[],MPI_Datatype rt,MPI_Comm cm){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); uint8_t*all=arena(1<<16); long tot=0; dt_t*x=dt_get(st,1); long*hdr=(long*)all; tot=sizeof(long)*(MAXR+1); for(int j=0;j<c->n;j++){ hdr[j]=tot; long nb; uint8_t*p=pack((const char*)s+sd[j]*(x->ub-x->lb),sc[j],st,&nb); if(tot+nb>(1<<16)) mock_fatal("harness","alltoall size"); memcpy(all+tot,p,(size_t)nb); tot+=nb; } hdr[c->n]=tot;
  coll_t*k=coll_enter(c,C_ALLTOALL,all,tot,0); coll_all(k,"alltoall"); for(int j=0;j<c->n;j++){ long*h=(long*)k->data[j]; place(r,rd[j],rc[j],rt,k->data[j]+h[i],h[i+1]-h[i]); } coll_leave(k); return 0; }
int MPI_Alltoall(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm cm){ int a[MAXR],b[MAXR],c[MAXR],d[MAXR]; for(int i=0;i<MAXR;i++){a[i]=sn;b[i]=i*sn;c[i]=rn;d[i]=i*rn;} return MPI_Alltoallv(s,a,b,st,r,c,d,rt,cm); }

/* ------------------------------------------------------------------ groups (local) */
typedef struct { int used,n,r[MAXR]; } grp_t; static grp_t*grps; static int capg;
static int grp_new(int n,const int*r){ if(!grps){ capg=1024; grps=__real_calloc((size_t)capg,sizeof(grp_t)); grps[1].used=1; } for(int k=2;k<capg;k++) if(!grps[k].used){ grps[k].used=1; grps[k].n=n; memcpy(grps[k].r,r,sizeof(int)*(size_t)n); return k; } MISUSE("too many live groups"); }
static grp_t*grp_get(MPI_Group g){ if(!grps) grp_new(0,NULL); if(g<=0||g>=capg||!grps[g].used) MISUSE("invalid group handle"); return &grps[g]; }
static int grp_idx(grp_t*g,int wr){ for(int i=0;i<g->n;i++) if(g->r[i]==wr) return i; return -1; }
int MPI_Comm_group(MPI_Comm cm,MPI_Group*g){ need_init(); comm_t*c=comm_get(cm); *g=grp_new(c->n,c->ranks); return 0; }
int MPI_Comm_remote_group(MPI_Comm cm,MPI_Group*g){ comm_t*c=comm_get(cm); int side=crank(c,myrank)>=0; *g=side?grp_new(c->rn,c->rranks):grp_new(c->n,c->ranks); return 0; }
int MPI_Group_free(MPI_Group*g){ grp_t*x=grp_get(*g); if(*g>1) x->used=0; *g=MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g,int*n){ *n=grp_get(g)->n; return 0; }
int MPI_Group_rank(MPI_Group g,int*r){ int i=grp_idx(grp_get(g),myrank); *r=i<0?MPI_UNDEFINED:i; return 0; }
int MPI_Group_translate_ranks(MPI_Group a,int n,const int ra[],MPI_Group b,int rb[]){ grp_t*x=grp_get(a),*y=grp_get(b); for(int i=0;i<n;i++){ if(ra[i]==MPI_PROC_NULL){ rb[i]=MPI_PROC_NULL; continue; } if(ra[i]<0||ra[i]>=x->n) MISUSE("translate_ranks: invalid rank %d",ra[i]); int j=grp_idx(y,x->r[ra[i]]); rb[i]=j<0?MPI_UNDEFINED:j; } return 0; }
int MPI_Group_compare(MPI_Group a,MPI_Group b,int*r){ grp_t*x=grp_get(a),*y=grp_get(b); *r=MPI_UNEQUAL; if(x->n!=y->n) return 0; int id=1; for(int i=0;i<x->n;i++){ if(x->r[i]!=y->r[i]) id=0; if(grp_idx(y,x->r[i])<0) return 0; } *r=id?MPI_IDENT:MPI_SIMILAR; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int r[],MPI_Group*o){ grp_t*x=grp_get(g); int t[MAXR]; if(n<0||n>x->n) MISUSE("group_incl: bad size"); for(int i=0;i<n;i++){ if(r[i]<0||r[i]>=x->n) MISUSE("group_incl: invalid rank %d",r[i]); t[i]=x->r[r[i]]; for(int j=0;j<i;j++) if(t[j]==t[i]) MISUSE("group_incl: duplicate rank"); } *o=n?grp_new(n,t):MPI_GROUP_EMPTY; return 0; }
int MPI_Group_excl(MPI_Group g,int n,const int r[],MPI_Group*o){ grp_t*x=grp_get(g); int t[MAXR],m=0; for(int i=0;i<x->n;i++){ int ex=0; for(int j=0;j<n;j++) if(r[j]==i) ex=1; if(!ex) t[m++]=x->r[i]; } *o=m?grp_new(m,t):MPI_GROUP_EMPTY; return 0; }
int MPI_Group_range_incl(MPI_Group g,int n,int rg[][3],MPI_Group*o){ int r[MAXR],m=0; for(int i=0;i<n;i++) for(int v=rg[i][0];rg[i][2]>0?v<=rg[i][1]:v>=rg[i][1];v+=rg[i][2]){ if(m==MAXR) MISUSE("range"); r[m++]=v; } return MPI_Group_incl(g,m,r,o); }
int MPI_Group_union(MPI_Group a,MPI_Group b,MPI_Group*o){ grp_t*x=grp_get(a),*y=grp_get(b); int t[MAXR],m=0; for(int i=0;i<x->n;i++) t[m++]=x->r[i]; for(int i=0;i<y->n;i++) if(grp_idx(x,y->r[i])<0) t[m++]=y->r[i]; *o=grp_new(m,t); return 0; }
int MPI_Group_intersection(MPI_Group a,MPI_Group b,MPI_Group*o){ grp_t*x=grp_get(a),*y=grp_get(b); int t[MAXR],m=0; for(int i=0;i<x->n;i++) if(grp_idx(y,x->r[i])>=0) t[m++]=x->r[i]; *o=m?grp_new(m,t):MPI_GROUP_EMPTY; return 0; }
int MPI_Group_difference(MPI_Group a,MPI_Group b,MPI_Group*o){ grp_t*x=grp_get(a),*y=grp_get(b); int t[MAXR],m=0; for(int i=0;i<x->n;i++) if(grp_idx(y,x->r[i])<0) t[m++]=x->r[i]; *o=m?grp_new(m,t):MPI_GROUP_EMPTY; return 0; }

/* ------------------------------------------------------------------ communicators */
int MPI_Comm_rank(MPI_Comm cm,int*r){ need_init(); comm_t*c=comm_get(cm); int i=crank(c,myrank); if(i<0&&c->inter) for(int j=0;j<c->rn;j++) if(c->rranks[j]==myrank) i=j; *r=i; return 0; }
int MPI_Comm_size(MPI_Comm cm,int*n){ need_init(); comm_t*c=comm_get(cm); *n=c->inter&&crank(c,myrank)<0?c->rn:c->n; return 0; }
int MPI_Comm_remote_size(MPI_Comm cm,int*n){ comm_t*c=comm_get(cm); *n=crank(c,myrank)<0?c->n:c->rn; return 0; }
int MPI_Comm_test_inter(MPI_Comm cm,int*f){ *f=comm_get(cm)->inter; return 0; }
static long res_get(coll_t*k,long key){ for(int i=0;i<k->nres;i++) if(k->reskey[i]==key) return k->res[i]; return 0; }
static void res_put(coll_t*k,long key,long v){ k->reskey[k->nres]=key; k->res[k->nres++]=v; }
int MPI_Comm_dup(MPI_Comm cm,MPI_Comm*o){ ENTER(); comm_t*c=comm_get(cm); coll_t*k=coll_enter(c,C_DUP,NULL,0,0); coll_all(k,"comm_dup"); long h=res_get(k,1); if(!h){ h=comm_make(c->n,c->ranks); res_put(k,1,h); } *o=(int)h; coll_leave(k); return 0; }
int MPI_Comm_dup_with_info(MPI_Comm cm,MPI_Info i,MPI_Comm*o){ (void)i; return MPI_Comm_dup(cm,o); }
int MPI_Comm_split(MPI_Comm cm,int color,int key,MPI_Comm*o){ ENTER(); comm_t*c=comm_get(cm); if(color<0&&color!=MPI_UNDEFINED) MISUSE("comm_split: negative color"); int ck[2]={color,key}; coll_t*k=coll_enter(c,C_SPLIT,ck,sizeof ck,0); coll_all(k,"comm_split"); *o=MPI_COMM_NULL;
  if(color!=MPI_UNDEFINED){ long h=res_get(k,color+1L); if(!h){ int r[MAXR],kk[MAXR],n=0; for(int i=0;i<c->n;i++){ int*x=(int*)k->data[i]; if(x[0]!=color) continue; int j=n++; while(j>0&&kk[j-1]>x[1]){ kk[j]=kk[j-1]; r[j]=r[j-1]; j--; } kk[j]=x[1]; r[j]=c->ranks[i]; } h=comm_make(n,r); res_put(k,color+1L,h); } *o=(int)h; } coll_leave(k); return 0; }
int MPI_Comm_split_type(MPI_Comm cm,int t,int key,MPI_Info i,MPI_Comm*o){ (void)i; return MPI_Comm_split(cm,t==MPI_UNDEFINED?MPI_UNDEFINED:0,key,o); }
static long ghash(const int*r,int n){ long h=1469598103L; for(int i=0;i<n;i++) h=h*1000003L+r[i]+1; return (h&0x3fffffffffffL)|1; }
int MPI_Comm_create(MPI_Comm cm,MPI_Group g,MPI_Comm*o){ ENTER(); comm_t*c=comm_get(cm); grp_t*x=grp_get(g); for(int i=0;i<x->n;i++) if(crank(c,x->r[i])<0) MISUSE("comm_create: group is not a subset"); coll_t*k=coll_enter(c,C_CREATE,x->r,(long)sizeof(int)*x->n,0); coll_all(k,"comm_create"); *o=MPI_COMM_NULL; if(grp_idx(x,myrank)>=0){ for(int i=0;i<x->n;i++){ int j=crank(c,x->r[i]); if(k->len[j]!=(long)sizeof(int)*x->n||memcmp(k->data[j],x->r,(size_t)k->len[j])) MISUSE("comm_create: members pass different groups"); } long key=ghash(x->r,x->n),h=res_get(k,key); if(!h){ h=comm_make(x->n,x->r); res_put(k,key,h);} *o=(int)h; } coll_leave(k); return 0; }
static struct { long key; int cnt; } cgcnt[256]; static int ncg;
static int cg_seq(long key){ for(int i=0;i<ncg;i++) if(cgcnt[i].key==key) return cgcnt[i].cnt++; if(ncg==256) mock_fatal("exhausted","comm_create_group"); cgcnt[ncg].key=key; cgcnt[ncg].cnt=1; ncg++; return 0; }
int MPI_Comm_create_group(MPI_Comm cm,MPI_Group g,int tag,MPI_Comm*o){ ENTER(); comm_t*c=comm_get(cm); grp_t*x=grp_get(g); int i=grp_idx(x,myrank); *o=MPI_COMM_NULL; if(i<0) return 0; long key=-(ghash(x->r,x->n)*64+c->ctx*7+tag)-1000; int seq=cg_seq(key); coll_t*k=coll_enter_ctx(key,seq,C_CGRP,i,x->n,NULL,0,0); coll_all(k,"comm_create_group"); long h=res_get(k,1); if(!h){ h=comm_make(x->n,x->r); res_put(k,1,h);} *o=(int)h; coll_leave(k); return 0; }
int MPI_Comm_free(MPI_Comm*cm){ ENTER(); if(*cm==MPI_COMM_WORLD||*cm==MPI_COMM_SELF) MISUSE("freeing a predefined communicator"); comm_t*c=comm_get(*cm); c->freed[myrank]=1; *cm=MPI_COMM_NULL; return 0; }
int MPI_Comm_disconnect(MPI_Comm*cm){ return MPI_Comm_free(cm); }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ comm_t*x=comm_get(a),*y=comm_get(b); if(x==y){*r=MPI_IDENT;return 0;} *r=MPI_UNEQUAL; if(x->n!=y->n) return 0; int id=1; for(int i=0;i<x->n;i++){ if(x->ranks[i]!=y->ranks[i]) id=0; if(crank(y,x->ranks[i])<0) return 0; } *r=id?MPI_CONGRUENT:MPI_SIMILAR; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c,MPI_Errhandler e){ (void)c;(void)e; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c,MPI_Errhandler*e){ (void)c; *e=MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Errhandler_free(MPI_Errhandler*e){ *e=0; return 0; }
int MPI_Comm_get_attr(MPI_Comm c,int k,void*v,int*f){ (void)c; static int ub=32767; *f=0; if(k==MPI_TAG_UB){ *(void**)v=&ub; *f=1; } return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*a,MPI_Comm_delete_attr_function*b,int*k,void*e){ (void)a;(void)b;(void)e; *k=100; return 0; }
int MPI_Comm_free_keyval(int*k){ *k=-1; return 0; }
int MPI_Comm_set_attr(MPI_Comm c,int k,void*v){ (void)c;(void)k;(void)v; return 0; }
int MPI_Comm_delete_attr(MPI_Comm c,int k){ (void)c;(void)k; return 0; }
int MPI_Comm_set_name(MPI_Comm c,const char*n){ (void)c;(void)n; return 0; }
int MPI_Comm_get_name(MPI_Comm c,char*n,int*l){ *l=snprintf(n,MPI_MAX_OBJECT_NAME,"comm%d",c); return 0; }
int MPI_Comm_set_info(MPI_Comm c,MPI_Info i){ (void)c;(void)i; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint c){ return c; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }

/* ------------------------------------------------------------------ point to point */
enum { R_RMA=1, R_SEND, R_RECV, R_BAR };
typedef struct { int used,kind; op_t*op; msg_t*m; void*buf; long cap; int count; MPI_Datatype t; int src,tag; long ctx; comm_t*c; int done; MPI_Status st; int tests; coll_t*coll; long posted; } req_t;
static req_t*reqs; static int capr; static long postseq;
static int req_new(int kind){ if(!reqs){ capr=4096; reqs=__real_calloc((size_t)capr,sizeof(req_t)); } for(int k=1;k<capr;k++) if(!reqs[k].used){ memset(&reqs[k],0,sizeof(req_t)); reqs[k].used=1; reqs[k].kind=kind; return k; } MISUSE("request leak: %d live requests",capr); }
static req_t*req_get(MPI_Request r){ if(r<=0||r>=capr||!reqs||!reqs[r].used) MISUSE("invalid request handle"); return &reqs[r]; }
static msg_t*msg_send(comm_t*c,long ctx,int src,int dst,int tag,const uint8_t*d,long n,int sync){ (void)c; msg_t*m=arena(sizeof *m); memset(m,0,sizeof *m); m->src=src;m->dst=dst;m->tag=tag;m->ctx=ctx;m->n=n;m->data=arena((size_t)n+1);if(n)memcpy(m->data,d,(size_t)n);m->sync=sync; if(S->msgtail) S->msgtail->next=m; else S->msgs=m; S->msgtail=m; bumpv(); return m; }
static void msg_remove(msg_t*m){ msg_t**p=&S->msgs,*prev=NULL; while(*p!=m){ prev=*p; p=&(*p)->next; } *p=m->next; if(S->msgtail==m) S->msgtail=prev; m->matched=1; bumpv(); }
/* candidates: first message of each source that matches (non-overtaking) */
static msg_t*msg_find(long ctx,int dst,int src,int tag){ msg_t*cand[MAXR]; int n=0; int seen[MAXR]={0}; for(msg_t*m=S->msgs;m;m=m->next){ if(m->ctx!=ctx||m->dst!=dst) continue; if(src!=MPI_ANY_SOURCE&&m->src!=src) continue; if(tag!=MPI_ANY_TAG&&m->tag!=tag) continue; if(seen[m->src]) continue; seen[m->src]=1; cand[n++]=m; } if(!n) return NULL; return cand[mock_choose(n)]; }
static int dest_world(comm_t*c,int r){ if(c->inter&&crank(c,myrank)>=0){ if(r<0||r>=c->rn) MISUSE("invalid rank"); return c->rranks[r]; } if(r<0||r>=c->n) MISUSE("invalid rank %d",r); return c->ranks[r]; }
static int src_world(comm_t*c,int r){ return r==MPI_ANY_SOURCE?r:dest_world(c,r); }
static int src_back(comm_t*c,int wr){ int i=crank(c,wr); if(i<0) for(int j=0;j<c->rn;j++) if(c->rranks[j]==wr) i=j; return i; }
static int send_sync(void){ return S->cfg.sendm==1?1:S->cfg.sendm==0?0:coin(1,2); }
static int isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm cm,int sync){ comm_t*c=comm_get(cm); int k=req_new(R_SEND); if(d==MPI_PROC_NULL){ reqs[k].done=1; return k; } if(tag<0) MISUSE("send: invalid tag %d",tag); long nb; uint8_t*p=pack(b,n,t,&nb); reqs[k].m=msg_send(c,c->ctx,myrank,dest_world(c,d),tag,p,nb,sync); return k; }
static int irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm cm){ comm_t*c=comm_get(cm); int k=req_new(R_RECV); req_t*q=&reqs[k]; if(s==MPI_PROC_NULL){ q->done=1; q->st.MPI_SOURCE=s; return k; } q->buf=b;q->count=n;q->t=t;q->cap=tbytes(n,t);q->src=src_world(c,s);q->tag=tag;q->ctx=c->ctx;q->c=c;q->posted=++postseq; return k; }
static void match_recvs(void){ if(!reqs) return; for(;;){ req_t*best=NULL; msg_t*bm=NULL; long lo=LONG_MAX; for(int k=1;k<capr;k++){ req_t*q=&reqs[k]; if(!q->used||q->kind!=R_RECV||q->done) continue; if(q->posted>=lo) continue; int any=0; for(msg_t*m=S->msgs;m;m=m->next) if(m->ctx==q->ctx&&m->dst==myrank&&(q->src==MPI_ANY_SOURCE||m->src==q->src)&&(q->tag==MPI_ANY_TAG||m->tag==q->tag)){ any=1; break; } if(any){ best=q; lo=q->posted; } }
    if(!best) return; bm=msg_find(best->ctx,myrank,best->src,best->tag); if(bm->n>best->cap) MISUSE("receive truncates the message"); unpack(best->buf,best->count,best->t,bm->data,bm->n); best->st.MPI_SOURCE=src_back(best->c,bm->src); best->st.MPI_TAG=bm->tag; best->st.nbytes_=bm->n; best->done=1; msg_remove(bm); } }
static void progress(void){ match_recvs(); }
static void complete_local(op_t*o); static void op_deliver(op_t*o);
#define SELF(o) ((o)->org==(o)->tgt)
static int req_done(req_t*q){ switch(q->kind){ case R_RECV: match_recvs(); return q->done; case R_SEND: return q->done||!q->m->sync||q->m->matched; case R_BAR: return q->coll->arrived==q->coll->n; case R_RMA: return q->op->done||(q->op->captured&&!SELF(q->op)&&(q->op->kind==K_PUT||q->op->kind==K_ACC))||q->op->delivered; } return 1; }
static void req_force(req_t*q){ if(q->kind==R_RMA){ complete_local(q->op); return; } while(!req_done(q)){ if(S->cfg.blk&&q->kind==R_RECV&&!S->act[me].blocked) tev("{\"e\":\"blk\",\"p\":%d,\"th\":%d}",ALIAS(myrank),S->act[me].thr); blocked(q->kind==R_RECV?"recv":"send"); } }
static void st_copy(MPI_Status*s,req_t*q){ if(s) { *s=q->st; if(q->kind!=R_RECV){ s->MPI_SOURCE=MPI_ANY_SOURCE; s->MPI_TAG=MPI_ANY_TAG; s->nbytes_=0; } } }
static void st_empty(MPI_Status*s){ if(s){ memset(s,0,sizeof *s); s->MPI_SOURCE=MPI_ANY_SOURCE; s->MPI_TAG=MPI_ANY_TAG; } }
static void req_finish(MPI_Request*r,MPI_Status*s){ req_t*q=req_get(*r); st_copy(s,q); if(q->kind==R_BAR) coll_leave(q->coll); q->used=0; *r=MPI_REQUEST_NULL; }
int MPI_Wait(MPI_Request*r,MPI_Status*s){ ENTER(); if(*r==MPI_REQUEST_NULL){ st_empty(s); return 0; } req_t*q=req_get(*r); req_force(q); req_finish(r,s); return 0; }
int MPI_Waitall(int n,MPI_Request r[],MPI_Status s[]){ ENTER(); if(n<0) MISUSE("waitall: count"); for(int i=0;i<n;i++){ MPI_Status*x=s?&s[i]:NULL; if(r[i]==MPI_REQUEST_NULL){ st_empty(x); continue; } req_force(req_get(r[i])); req_finish(&r[i],x); } return 0; }
/* a test may say "not yet" a bounded number of times for an operation that could complete */
static int req_test(req_t*q){ match_recvs(); if(q->kind==R_RMA){ if(req_done(q)) return 1; q->tests++; int lim=S->cfg.net==0?0:2; if(q->tests>lim||(S->cfg.net==2&&coin(1,2))){ complete_local(q->op); return 1; } return 0; } return req_done(q); }
int MPI_Test(MPI_Request*r,int*f,MPI_Status*s){ ENTER(); *f=1; if(*r==MPI_REQUEST_NULL){ st_empty(s); return 0; } req_t*q=req_get(*r); if(!req_test(q)){ *f=0; return 0; } req_finish(r,s); return 0; }
int MPI_Request_get_status(MPI_Request r,int*f,MPI_Status*s){ ENTER(); *f=1; if(r==MPI_REQUEST_NULL){ st_empty(s); return 0; } req_t*q=req_get(r); *f=req_test(q); if(*f) st_copy(s,q); return 0; }
int MPI_Testall(int n,MPI_Request r[],int*f,MPI_Status s[]){ ENTER(); *f=1; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL&&!req_test(req_get(r[i]))) *f=0; if(*f) for(int i=0;i<n;i++){ MPI_Status*x=s?&s[i]:NULL; if(r[i]==MPI_REQUEST_NULL) st_empty(x); else req_finish(&r[i],x); } return 0; }
int MPI_Testany(int n,MPI_Request r[],int*ix,int*f,MPI_Status*s){ ENTER(); int act=0; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL){ act=1; if(req_test(req_get(r[i]))){ *ix=i; *f=1; req_finish(&r[i],s); return 0; } } *ix=MPI_UNDEFINED; *f=!act; if(!act) st_empty(s); return 0; }
int MPI_Waitany(int n,MPI_Request r[],int*ix,MPI_Status*s){ ENTER(); int act=0; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL) act=1; if(!act){ *ix=MPI_UNDEFINED; st_empty(s); return 0; } for(;;){ for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL){ req_t*q=req_get(r[i]); if(q->kind==R_RMA) complete_local(q->op); if(req_done(q)){ *ix=i; req_finish(&r[i],s); return 0; } } blocked("waitany"); } }
int MPI_Testsome(int n,MPI_Request r[],int*o,int ix[],MPI_Status s[]){ ENTER(); int act=0; *o=0; for(int i=0;i<n;i++) if(r[i]!=MPI_REQUEST_NULL){ act=1; if(req_test(req_get(r[i]))){ ix[*o]=i; req_finish(&r[i],s?&s[*o]:NULL); (*o)++; } } if(!act) *o=MPI_UNDEFINED; return 0; }
int MPI_Waitsome(int n,MPI_Request r[],int*o,int ix[],MPI_Status s[]){ int i; MPI_Status st; MPI_Waitany(n,r,&i,&st); if(i==MPI_UNDEFINED){ *o=MPI_UNDEFINED; return 0; } *o=1; ix[0]=i; if(s) s[0]=st; return 0; }
int MPI_Request_free(MPI_Request*r){ req_get(*r)->used=0; *r=0; return 0; }
int MPI_Cancel(MPI_Request*r){ req_t*q=req_get(*r); if(q->kind==R_RECV&&!q->done){ q->done=1; q->st.cancelled_=1; } return 0; }
int MPI_Test_cancelled(const MPI_Status*s,int*f){ *f=s->cancelled_; return 0; }
static int dosend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,int sync){ ENTER(); int k=isend(b,n,t,d,tag,c,sync); req_force(&reqs[k]); reqs[k].used=0; return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return dosend(b,n,t,d,tag,c,send_sync()); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return dosend(b,n,t,d,tag,c,1); }
int MPI_Rsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return dosend(b,n,t,d,tag,c,0); }
int MPI_Bsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return dosend(b,n,t,d,tag,c,0); }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ ENTER(); MPI_Request k=irecv(b,n,t,s,tag,c); req_force(&reqs[k]); req_finish(&k,st); return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ ENTER(); *r=isend(b,n,t,d,tag,c,send_sync()); return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ ENTER(); *r=isend(b,n,t,d,tag,c,1); return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*r){ ENTER(); *r=irecv(b,n,t,s,tag,c); match_recvs(); return 0; }
int MPI_Sendrecv(const void*b,int n,MPI_Datatype t,int d,int tag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*st){ ENTER(); MPI_Request k2=irecv(rb,rn,rt,s,rtag,c); int k=isend(b,n,t,d,tag,c,send_sync()); req_force(&reqs[k]); reqs[k].used=0; req_force(&reqs[k2]); req_finish(&k2,st); return 0; }
int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype t,int d,int tag,int s,int rtag,MPI_Comm c,MPI_Status*st){ ENTER(); int k=isend(b,n,t,d,tag,c,0); reqs[k].used=0; MPI_Request k2=irecv(b,n,t,s,rtag,c); req_force(&reqs[k2]); req_finish(&k2,st); return 0; }
int MPI_Iprobe(int s,int tag,MPI_Comm cm,int*f,MPI_Status*st){ ENTER(); comm_t*c=comm_get(cm); match_recvs(); msg_t*m=msg_find(c->ctx,myrank,src_world(c,s),tag); *f=m!=NULL; if(m&&st){ memset(st,0,sizeof *st); st->MPI_SOURCE=src_back(c,m->src); st->MPI_TAG=m->tag; st->nbytes_=m->n; } return 0; }
int MPI_Probe(int s,int tag,MPI_Comm cm,MPI_Status*st){ ENTER(); comm_t*c=comm_get(cm); for(;;){ match_recvs(); msg_t*m=msg_find(c->ctx,myrank,src_world(c,s),tag); if(m){ if(st){ memset(st,0,sizeof *st); st->MPI_SOURCE=src_back(c,m->src); st->MPI_TAG=m->tag; st->nbytes_=m->n; } return 0; } blocked("probe"); } }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ long sz=dt_get(t,0)->size; *n=sz==0?0:s->nbytes_%sz?MPI_UNDEFINED:(int)(s->nbytes_/sz); return 0; }
int MPI_Get_elements(const MPI_Status*s,MPI_Datatype t,int*n){ return MPI_Get_count(s,t,n); }
int MPI_Ibarrier(MPI_Comm cm,MPI_Request*r){ ENTER(); comm_t*c=comm_get(cm); coll_t*k=coll_enter(c,C_BARRIER,NULL,0,0); *r=req_new(R_BAR); reqs[*r].coll=k; return 0; }
int MPI_Intercomm_create(MPI_Comm lc,int ll,MPI_Comm pc,int rl,int tag,MPI_Comm*o){ ENTER(); comm_t*c=comm_get(lc); int i=crank(c,myrank); int buf[MAXR+2]; 
  if(i==ll){ comm_t*p=comm_get(pc); int other=dest_world(p,rl); if(crank(c,other)>=0) MISUSE("intercomm_create: remote leader is in the local group"); long ctx=-(p->ctx*100000+tag)-7; int mine[MAXR+1]; mine[0]=c->n; memcpy(mine+1,c->ranks,sizeof(int)*(size_t)c->n);
    msg_send(p,ctx,myrank,other,1,(uint8_t*)mine,(long)sizeof(int)*(c->n+1),0); msg_t*m; while(!(m=msg_find(ctx,myrank,other,1))) blocked("intercomm_create"); memcpy(buf+1,m->data,(size_t)m->n); msg_remove(m);
    int low=c->ranks[0]<buf[2]; /* lower first rank creates */ if(low){ int h=comm_make(c->n,c->ranks); comm_t*x=&S->comm[h]; x->inter=1; x->rn=buf[1]; memcpy(x->rranks,buf+2,sizeof(int)*(size_t)buf[1]); buf[0]=h; msg_send(p,ctx,myrank,other,2,(uint8_t*)&h,sizeof h,0); } else { while(!(m=msg_find(ctx,myrank,other,2))) blocked("intercomm_create"); memcpy(buf,m->data,sizeof(int)); msg_remove(m); } }
  coll_t*k=coll_enter(c,C_BCAST,buf,i==ll?(long)sizeof(int):0,ll); while(!k->here[ll]) blocked("intercomm_create"); memcpy(o,k->data[ll],sizeof(int)); coll_leave(k); return 0; }
int MPI_Intercomm_merge(MPI_Comm ic,int high,MPI_Comm*o){ ENTER(); comm_t*c=comm_get(ic); if(!c->inter) MISUSE("merge of an intracommunicator"); int i=crank(c,myrank); int side=0; if(i<0){ side=1; for(int j=0;j<c->rn;j++) if(c->rranks[j]==myrank) i=c->n+j; }
  coll_t*k=coll_enter_ctx(c->ctx,c->seq[myrank]++,C_MERGE,i,c->n+c->rn,NULL,0,high); coll_all(k,"intercomm_merge"); for(int j=0;j<c->n;j++) if(!k->arg[j]!=!k->arg[0]) MISUSE("merge: high differs inside a group"); for(int j=0;j<c->rn;j++) if(!k->arg[c->n+j]!=!k->arg[c->n]) MISUSE("merge: high differs inside a group"); (void)side;
  long h=res_get(k,1); if(!h){ int r[MAXR]; int a=k->arg[0]!=0,b=k->arg[c->n]!=0; int first_local=a==b?!mock_choose(2):!a; int m=0; if(first_local){ for(int j=0;j<c->n;j++) r[m++]=c->ranks[j]; for(int j=0;j<c->rn;j++) r[m++]=c->rranks[j]; } else { for(int j=0;j<c->rn;j++) r[m++]=c->rranks[j]; for(int j=0;j<c->n;j++) r[m++]=c->ranks[j]; } h=comm_make(m,r); res_put(k,1,h); } *o=(int)h; coll_leave(k); return 0; }

/* ------------------------------------------------------------------ RMA */
/* what this process holds: communicators, groups, datatypes, infos, requests, windows, heap blocks */
void mock_res(long o[8]){ for(int k=0;k<8;k++) o[k]=0;
  for(int k=0;k<S->ncomm;k++){ comm_t*c=&S->comm[k]; if(!c->used||c->freed[myrank]) continue; int in=0; for(int i=0;i<c->n;i++) in|=c->ranks[i]==myrank; if(c->inter) for(int i=0;i<c->rn;i++) in|=c->rranks[i]==myrank; o[0]+=in; }
  if(grps) for(int k=2;k<capg;k++) o[1]+=grps[k].used;
  if(dts) for(int k=0;k<ndts;k++) o[2]+=dts[k].used&&!dts[k].freed&&!dts[k].builtin;
  for(int k=2;k<256;k++) o[3]+=infos[k].used;
  if(reqs) for(int k=1;k<capr;k++) o[4]+=reqs[k].used;
  for(int k=0;k<S->nwin;k++){ win_t*x=&S->win[k]; if(x->used) for(int i=0;i<x->n;i++) if(x->ranks[i]==myrank&&!x->freed[i]) o[5]++; }
  o[6]=heap_live;
  for(int k=32;k<nuops;k++) o[7]+=uops[k].used; }
static win_t*win_get(MPI_Win w){ if(w<=0||w>=S->nwin||!S->win[w].used) MISUSE("invalid window handle"); win_t*x=&S->win[w]; for(int i=0;i<x->n;i++) if(x->ranks[i]==myrank){ if(x->freed[i]) MISUSE("use of a freed window"); return x; } MISUSE("window of another group"); }
static int wrank(win_t*w,int wr){ for(int i=0;i<w->n;i++) if(w->ranks[i]==wr) return i; return -1; }
/* which pairs of accumulates of one process stay in order: 1 rar, 2 raw, 4 war, 8 waw ("raw": a read after a write) */
static int acc_ordering(const char*v){ static const char*const name[]={"rar","raw","war","waw"}; if(!strcmp(v,"none")) return 0; int m=0; for(;;){ size_t l=strcspn(v,","); int k; for(k=0;k<4;k++) if(l==3&&!strncmp(v,name[k],3)) break; if(k==4) return 15; m|=1<<k; if(!v[l]) return m; v+=l+1; } }
/* what MPI is told about windows, and how many operations are started between two flushes */
const char*mock_use=""; int mock_burst, mock_burst_max; int mock_hints(void){ return S->cfg.hints; }
#define HINT_RMA do{ if(++mock_burst>mock_burst_max) mock_burst_max=mock_burst; }while(0)
static const char*hint_env(const char*k){ const char*v=getenv(k); return v?v:"-"; }
static int hint_num(const char*s,int*n){ char b[32]; *n=atoi(s); snprintf(b,sizeof b,"%d",*n); return !strcmp(b,s); }
static void hint_win(int h,const char*kind,long size,MPI_Info info){ char v[6][80]; static const char*const k[]={"mpi_accumulate_granularity","accumulate_ordering","accumulate_ops","alloc_shm","disable_shm_accumulate"}; for(int i=0;i<5;i++){ int f=0; if(info!=MPI_INFO_NULL) MPI_Info_get(info,k[i],79,v[i],&f); if(!f) strcpy(v[i],"-"); }
  int g,eg; if(!hint_num(v[0],&g)) g=-2; const char*e=hint_env("ARMCI_ACCUMULATE_GRANULARITY"); if(!hint_num(e,&eg)) eg=-2;
  mock_ev("{\"e\":\"win\",\"p\":%d,\"w\":%d,\"use\":\"%s\",\"k\":\"%s\",\"n\":%ld,\"h\":{\"gran\":%d,\"ord\":\"%s\",\"ops\":\"%s\",\"shm\":\"%s\",\"dsa\":\"%s\"},\"v\":{\"gran\":%d,\"ord\":\"%s\",\"ops\":\"%s\",\"shm\":\"%s\",\"dsa\":\"%s\",\"wa\":\"%s\",\"nc\":\"%s\"}}",
    ALIAS(myrank),h,mock_use,kind,size,g,v[1],v[2],v[3],v[4],eg,hint_env("ARMCI_RMA_ORDERING"),hint_env("ARMCI_USE_SAME_OP"),hint_env("ARMCI_USE_ALLOC_SHM"),hint_env("ARMCI_DISABLE_SHM_ACC"),hint_env("ARMCI_USE_WIN_ALLOCATE"),hint_env("ARMCI_RMA_NOCHECK")); }
static int win_make(MPI_Comm cm,void*base,long size,int disp,int flavor,MPI_Info info,int ckind){ ENTER(); comm_t*c=comm_get(cm); int i=crank(c,myrank); int order=15; long contig=0, amax=-1; if(info!=MPI_INFO_NULL){ char v[64]; int f; MPI_Info_get(info,"accumulate_ordering",63,v,&f); if(f) order=acc_ordering(v); MPI_Info_get(info,"accumulate_noncontig_dtype",63,v,&f); if(f&&!strcmp(v,"false")) contig=1; MPI_Info_get(info,"accumulate_max_bytes",63,v,&f); if(f&&strcmp(v,"unlimited")&&atol(v)>=0) amax=atol(v); }
  long d[6]={(long)base,size,disp,order,contig,amax}; coll_t*k=coll_enter(c,ckind,d,sizeof d,0); coll_all(k,"win_create"); long h=res_get(k,1); if(!h){ if(S->nwin>=MAXWIN) mock_fatal("exhausted","windows"); h=S->nwin++; win_t*w=&S->win[h]; memset(w,0,sizeof *w); w->used=1; w->acc_max=-1; w->acc_order=15; w->flavor=flavor; w->n=c->n; w->comm=(int)(c-S->comm); for(int j=0;j<MAXR;j++) w->exc[j]=-1; for(int j=0;j<c->n;j++){ long*x=(long*)k->data[j]; w->ranks[j]=c->ranks[j]; w->base[j]=x[0]; w->size[j]=x[1]; w->disp[j]=(int)x[2]; w->acc_order&=(int)x[3]; if(x[4]) w->acc_contig=1; if(x[5]>=0&&(w->acc_max<0||x[5]<w->acc_max)) w->acc_max=x[5]; if(S->cfg.unified==2){ w->pub[j]=arena((size_t)x[1]+1); w->last[j]=arena((size_t)x[1]+1); if(x[1]){ uint8_t*g=gaddr(c->ranks[j],x[0]); memcpy(w->pub[j],g,(size_t)x[1]); memcpy(w->last[j],g,(size_t)x[1]); } } } res_put(k,1,h);} coll_leave(k); (void)i; return (int)h; }
int MPI_Win_create(void*b,MPI_Aint n,int d,MPI_Info in,MPI_Comm c,MPI_Win*w){ if(n<0) MISUSE("win_create: negative size"); if(n>0&&!in_heap(b)) mock_fatal("harness","window memory outside the heap"); *w=win_make(c,b,n,d,MPI_WIN_FLAVOR_CREATE,in,C_WINCREATE); if(S->cfg.hints) hint_win(*w,"create",n,in); return 0; }
int MPI_Win_allocate(MPI_Aint n,int d,MPI_Info in,MPI_Comm c,void*p,MPI_Win*w){ if(n<0) MISUSE("win_allocate: negative size"); void*b=n?mpi_alloc((size_t)n,K_WIN):NULL; if(!n&&mock_choose(2)){ b=mock_heap_alloc(1); ((hdr_t*)b-1)->pad=K_WIN; } *w=win_make(c,b,n,d,MPI_WIN_FLAVOR_ALLOCATE,in,C_WINALLOC); *(void**)p=b; if(S->cfg.hints) hint_win(*w,"allocate",n,in); return 0; }
int MPI_Win_allocate_shared(MPI_Aint n,int d,MPI_Info in,MPI_Comm c,void*p,MPI_Win*w){ return MPI_Win_allocate(n,d,in,c,p,w); }
int MPI_Win_shared_query(MPI_Win w,int r,MPI_Aint*s,int*d,void*p){ (void)w;(void)r;(void)s;(void)d;(void)p; mock_fatal("harness","win_shared_query"); }
static int epoch(win_t*w,int org,int t){ return w->lockall[org]||w->lock[org][t]||w->fence[org]; }
static int op_pending_win(int win,int org){ for(op_t*o=S->ops;o;o=o->next) if(o->win==win&&o->org==org&&!o->done) return 1; return 0; }
static void complete_all(int win,int tgt,int remote);
int MPI_Win_free(MPI_Win*w){ ENTER(); win_t*x=win_get(*w); int i=wrank(x,myrank); int wi=*w; if(x->lockall[i]) MISUSE("MPI_Win_free inside a lock_all epoch"); for(int t=0;t<x->n;t++) if(x->lock[i][t]) MISUSE("MPI_Win_free inside a lock epoch"); if(x->fence[i]) complete_all(wi,-1,1); if(op_pending_win(wi,myrank)) MISUSE("MPI_Win_free with pending operations");
  comm_t*c=&S->comm[x->comm]; coll_t*k=coll_enter_ctx(-900000-wi,0,C_WINFREE,i,c->n,NULL,0,0); coll_all(k,"win_free"); x->freed[i]=1; if(x->flavor==MPI_WIN_FLAVOR_ALLOCATE&&x->base[i]) kind_free((void*)x->base[i],K_WIN); coll_leave(k); *w=MPI_WIN_NULL; return 0; }
int MPI_Win_get_attr(MPI_Win w,int key,void*v,int*f){ win_t*x=win_get(w); int i=wrank(x,myrank); static MPI_Aint sz[MAXWIN]; static int du[MAXWIN],model,fl[MAXWIN]; *f=1; switch(key){ case MPI_WIN_BASE: *(void**)v=(void*)x->base[i]; break; case MPI_WIN_SIZE: sz[w]=x->size[i]; *(void**)v=&sz[w]; break; case MPI_WIN_DISP_UNIT: du[w]=x->disp[i]; *(void**)v=&du[w]; break; case MPI_WIN_MODEL: model=S->cfg.unified==1?MPI_WIN_UNIFIED:MPI_WIN_SEPARATE; *(void**)v=&model; break; case MPI_WIN_CREATE_FLAVOR: fl[w]=x->flavor; *(void**)v=&fl[w]; break; default: *f=0; } return 0; }
int MPI_Win_get_group(MPI_Win w,MPI_Group*g){ win_t*x=win_get(w); *g=grp_new(x->n,x->ranks); return 0; }
int MPI_Win_set_info(MPI_Win w,MPI_Info i){ (void)w;(void)i; return 0; }
int MPI_Win_get_info(MPI_Win w,MPI_Info*i){ (void)w; return MPI_Info_create(i); }
int MPI_Win_set_name(MPI_Win w,const char*n){ (void)w;(void)n; return 0; }
int MPI_Win_get_name(MPI_Win w,char*n,int*l){ *l=snprintf(n,MPI_MAX_OBJECT_NAME,"win%d",w); return 0; }
int MPI_Win_set_errhandler(MPI_Win w,MPI_Errhandler e){ (void)w;(void)e; return 0; }
/* operation phases */
static void capture(op_t*o){ if(o->captured) return; if(o->nor){ gather(o->obase,o->orr,o->nor,o->odata); } if(o->kind==K_CAS) memcpy(o->cdata,o->cmpbase,(size_t)bsize[o->basic]); o->captured=1; }
static int is_read(op_t*o){ return o->kind==K_GET||o->kind==K_GACC||o->kind==K_CAS; }
static int acc_ordered(op_t*q,op_t*o,int m){ int qr=is_read(q),qw=q->mop!=MPI_NO_OP||q->kind==K_CAS,r=is_read(o),w=o->mop!=MPI_NO_OP||o->kind==K_CAS; return (qr&&r&&(m&1))||(qw&&r&&(m&2))||(qr&&w&&(m&4))||(qw&&w&&(m&8)); }
static int can_apply(op_t*o){ if(!o->captured||o->applied>=o->nbytes) return 0; win_t*w=&S->win[o->win]; for(op_t*q=S->ops;q&&q!=o;q=q->next){ if(q->done||q->org!=o->org||q->tgt!=o->tgt||q->win!=o->win||q->applied>=q->nbytes) continue; if(S->cfg.order==1) return 0; if(q->isacc&&o->isacc&&acc_ordered(q,o,w->acc_order)) return 0; } return 1; }
static void apply(op_t*o,long limit){ /* apply bytes [applied,limit) */
  diff_rank(o->tgt,0); win_t*w=&S->win[o->win]; int ti=wrank(w,o->tgt); uint8_t*g=w->pub[ti]?w->pub[ti]:gaddr(o->tgt,w->base[ti]); long pos=0; 
  for(int i=0;i<o->ntr;i++){ int bs=bsize[o->tr[i].basic]; for(long j=0;j<o->tr[i].n;j++,pos+=bs){ if(pos<o->applied) continue; if(pos>=limit) goto out; uint8_t*t=g+o->tr[i].off+j*bs;
      if(is_read(o)) memcpy(o->rdata+pos,t,(size_t)bs);
      switch(o->kind){ case K_PUT: memcpy(t,o->odata+pos,(size_t)bs); break; case K_ACC: case K_GACC: if(o->mop!=MPI_NO_OP) op_elem(o->mop,o->tr[i].basic,o->odata+pos,t); break; case K_CAS: if(!memcmp(t,o->cdata,(size_t)bs)) memcpy(t,o->odata,(size_t)bs); break; } o->applied=pos+bs; } }
  out: if(limit>=o->nbytes) o->applied=o->nbytes; diff_rank(o->tgt,0); bumpv(); }
static void op_done(op_t*o){ o->done=1; op_t**p=&S->ops,*prev=NULL; while(*p&&*p!=o){ prev=*p; p=&(*p)->next; } if(*p){ *p=o->next; if(S->opstail==o) S->opstail=prev; } }
static void op_deliver(op_t*o){ if(o->delivered) return; if(is_read(o)&&o->nres){ scatter(o->resbase,o->resr,o->nres,o->rdata,o->nbytes); mock_diff(); } o->delivered=1; }
static void settle(op_t*o){ if(o->applied>=o->nbytes&&o->captured&&(!is_read(o)||o->delivered)&&!o->done) op_done(o); }
static void apply_rest(op_t*o){ /* everything that must precede o, then o */
  while(o->applied<o->nbytes){ if(!o->captured) capture(o); if(can_apply(o)) apply(o,o->nbytes); else { op_t*q,*b=NULL; for(q=S->ops;q&&q!=o;q=q->next) if(!q->done&&q->org==o->org&&q->tgt==o->tgt&&q->win==o->win&&q->applied<q->nbytes&&(S->cfg.order==1||q->isacc)){ b=q; break; } if(!b) mock_fatal("harness","apply order"); if(!b->captured){ if(b->org!=myrank) mock_fatal("harness","capture order"); capture(b);} apply(b,b->nbytes); settle(b); } } settle(o); }
/* a process's operations on its own memory are done when they are locally complete */
static void complete_local(op_t*o){ capture(o); if(is_read(o)||SELF(o)){ apply_rest(o); op_deliver(o); } settle(o); }
static void complete_all(int win,int tgt,int remote){ /* my operations on window win to world rank tgt (or all) */
  for(;;){ op_t*c[512]; int n=0; for(op_t*o=S->ops;o&&n<512;o=o->next) if(o->win==win&&o->org==myrank&&(tgt<0||o->tgt==tgt)&&!o->done&&(remote||!o->captured||SELF(o)||(is_read(o)&&!o->delivered))) c[n++]=o; if(!n) return;
    op_t*o=c[(S->cfg.order==1||S->cfg.net==0)?0:mock_choose(n)]; capture(o); if(remote||is_read(o)||SELF(o)){ apply_rest(o); op_deliver(o); } settle(o); } }
static void async_events(void){ if(S->cfg.net!=2||!S->ops) return; int budget=1; for(op_t*o=S->ops,*nx;o;o=nx){ nx=o->next; if(o->org==myrank&&!o->captured&&coin(1,4)) capture(o); if(o->org==myrank&&is_read(o)&&o->applied>=o->nbytes&&!o->delivered&&coin(1,4)){ op_deliver(o); settle(o); } }
  while(budget-->0){ op_t*c[256]; int n=0; for(op_t*o=S->ops;o&&n<256;o=o->next) if(!o->done&&can_apply(o)) c[n++]=o; if(!n||!coin(1,3)) return; op_t*o=c[rnd()%(uint64_t)n]; long lim=o->nbytes; 
    if(o->nbytes-o->applied>8&&coin(1,3)){ /* split at an 8-byte boundary of the target, between elements */ long pos=0,cands[64]; int nc=0; for(int i=0;i<o->ntr;i++){ int bs=bsize[o->tr[i].basic]; for(long j=0;j<o->tr[i].n;j++,pos+=bs) if(pos>o->applied&&((o->tr[i].off+j*bs)%(8*(S->cfg.wide>1?S->cfg.wide:1)))==0&&nc<64) cands[nc++]=pos; } if(nc) lim=cands[rnd()%(uint64_t)nc]; }
    apply(o,lim); settle(o); } }
/* an operation may not name a byte of its result twice */
static int run_cmp(const void*a,const void*b){ long x=((const run_t*)a)->off,y=((const run_t*)b)->off; return x<y?-1:x>y; }
static int runs_overlap(const run_t*r,int n){ int srt=1,hit=0; for(int k=1;k<n&&srt;k++) srt=r[k-1].off<=r[k].off; run_t*t=NULL; if(!srt){ t=__real_malloc(sizeof(run_t)*(size_t)n); memcpy(t,r,sizeof(run_t)*(size_t)n); qsort(t,(size_t)n,sizeof(run_t),run_cmp); r=t; } long end=0; for(int k=0;k<n;k++){ if(k&&r[k].off<end&&r[k].n) hit=1; long e=r[k].off+r[k].n*bsize[r[k].basic]; if(!k||e>end) end=e; } if(t) __real_free(t); return hit; }
static op_t*rma(int kind,int mop,const void*ob,long oc,MPI_Datatype ot,void*rb,long rc,MPI_Datatype rt,int tr,MPI_Aint disp,long tc,MPI_Datatype tt,MPI_Win wh){
  ENTER(); win_t*w=win_get(wh); int i=wrank(w,myrank); if(tr==MPI_PROC_NULL) return NULL; if(tr<0||tr>=w->n) MISUSE("RMA: invalid target rank %d",tr); if(!epoch(w,i,tr)) MISUSE("RMA operation outside an access epoch");
  op_t*o=arena(sizeof *o); memset(o,0,sizeof *o); o->id=++S->nops; o->org=myrank;o->tgt=w->ranks[tr];o->win=wh;o->kind=kind;o->mop=mop;o->isacc=kind>=K_ACC;
  rl_t l={0}; if(tc<0||oc<0||rc<0) MISUSE("RMA: negative count"); if(tc){ dt_t*d=dt_get(tt,1); rl_dt(&l,d,disp*w->disp[tr],tc);} o->ntr=l.n; o->tr=arena(sizeof(run_t)*(size_t)(l.n+1)); memcpy(o->tr,l.r,sizeof(run_t)*(size_t)l.n); o->nbytes=runs_bytes(l.r,l.n); o->basic=l.n?l.r[0].basic:MPI_BYTE; __real_free(l.r);
  for(int k=0;k<o->ntr;k++){ if(o->tr[k].off<0||o->tr[k].off+o->tr[k].n*bsize[o->tr[k].basic]>w->size[tr]) MISUSE("RMA range outside the target window (offset %ld, %ld bytes, window %ld bytes)",o->tr[k].off,o->tr[k].n*bsize[o->tr[k].basic],w->size[tr]); if(o->isacc&&o->tr[k].basic!=o->basic) MISUSE("accumulate with mixed basic types"); }
  if(o->isacc&&mop!=MPI_REPLACE&&mop!=MPI_NO_OP&&kind!=K_CAS&&(mop>=32||(mop>=MPI_MAXLOC&&mop<=MPI_MINLOC))) MISUSE("accumulate: invalid operator");
  int uses_o=(kind==K_PUT||kind==K_ACC||kind==K_CAS||(kind==K_GACC&&mop!=MPI_NO_OP)); 
  if(uses_o){ rl_t q={0}; if(oc) rl_dt(&q,dt_get(ot,1),0,oc); if(runs_bytes(q.r,q.n)!=o->nbytes) MISUSE("RMA: origin and target sizes differ (%ld, %ld)",runs_bytes(q.r,q.n),o->nbytes); if(o->isacc) for(int k=0;k<q.n;k++) if(q.r[k].basic!=o->basic) MISUSE("accumulate: origin and target basic types differ"); o->nor=q.n; o->orr=arena(sizeof(run_t)*(size_t)(q.n+1)); memcpy(o->orr,q.r,sizeof(run_t)*(size_t)q.n); __real_free(q.r); o->obase=(uint8_t*)ob; }
  o->odata=arena((size_t)o->nbytes+16); o->cdata=arena(32); o->rdata=arena((size_t)o->nbytes+16);
  if(is_read(o)){ rl_t q={0}; if(rc) rl_dt(&q,dt_get(rt,1),0,rc); if(runs_bytes(q.r,q.n)!=o->nbytes) MISUSE("RMA: result and target sizes differ"); o->nres=q.n; o->resr=arena(sizeof(run_t)*(size_t)(q.n+1)); memcpy(o->resr,q.r,sizeof(run_t)*(size_t)q.n); __real_free(q.r); o->resbase=rb; }
  if(kind!=K_GET&&!(kind==K_GACC&&mop==MPI_NO_OP)&&o->ntr>1&&runs_overlap(o->tr,o->ntr)) MISUSE("RMA: the target datatype has overlapping entries");
  if(o->nres>1&&runs_overlap(o->resr,o->nres)) MISUSE("RMA: the result datatype has overlapping entries");
  if(o->isacc&&w->acc_contig&&(o->ntr>1||o->nor>1||o->nres>1)) MISUSE("non-contiguous accumulate on a window created with accumulate_noncontig_dtype=false");
#ifdef MOCK_OPEN_MPI /* the README: Open MPI can lose updates when an accumulate uses an indexed datatype */
  if(o->isacc&&((uses_o&&oc&&dt_get(ot,1)->indexed)||(tc&&dt_get(tt,1)->indexed))) MISUSE("accumulate with an indexed datatype");
#endif
  HINT_RMA;
  if(o->isacc&&w->acc_max>=0&&o->nbytes>w->acc_max) MISUSE("accumulate of %ld bytes on a window created with accumulate_max_bytes=%ld",o->nbytes,w->acc_max);
  if(o->nbytes==0){ o->captured=o->delivered=o->done=1; return o; }
  if(!gaddr(o->tgt,w->base[tr])) mock_fatal("harness","window outside heap");
  if(S->opstail) S->opstail->next=o; else S->ops=o; S->opstail=o; return o; }
static void rma_eager(op_t*o){ if(o&&S->cfg.net==0&&!o->done){ capture(o); apply_rest(o); op_deliver(o); settle(o); } }
int MPI_Put(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w){ op_t*o=rma(K_PUT,0,b,n,t,0,0,0,r,d,tn,tt,w); rma_eager(o); return 0; }
int MPI_Get(void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w){ op_t*o=rma(K_GET,0,0,0,0,b,n,t,r,d,tn,tt,w); if(o) o->captured=1; rma_eager(o); return 0; }
int MPI_Accumulate(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w){ op_t*o=rma(K_ACC,op,b,n,t,0,0,0,r,d,tn,tt,w); rma_eager(o); return 0; }
int MPI_Get_accumulate(const void*b,int n,MPI_Datatype t,void*rb,int rn,MPI_Datatype rt,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w){ op_t*o=rma(K_GACC,op,b,n,t,rb,rn,rt,r,d,tn,tt,w); if(o&&op==MPI_NO_OP) o->captured=1; rma_eager(o); return 0; }
int MPI_Fetch_and_op(const void*b,void*rb,MPI_Datatype t,int r,MPI_Aint d,MPI_Op op,MPI_Win w){ if(!dt_get(t,1)->builtin) MISUSE("fetch_and_op on a derived type"); return MPI_Get_accumulate(b,1,t,rb,1,t,r,d,1,t,op,w); }
int MPI_Compare_and_swap(const void*b,const void*cmp,void*rb,MPI_Datatype t,int r,MPI_Aint d,MPI_Win w){ op_t*o=rma(K_CAS,0,b,1,t,rb,1,t,r,d,1,t,w); if(o) o->cmpbase=(uint8_t*)cmp; rma_eager(o); return 0; }
static int rreq(op_t*o){ int k=req_new(R_RMA); if(!o){ o=arena(sizeof *o); memset(o,0,sizeof *o); o->done=o->captured=o->delivered=1; } reqs[k].op=o; o->rr=1;
#if defined(MOCK_OPEN_MPI) && MOCK_OPEN_MPI>=5 /* every request-based operation is a flush of the worker; its reference count has eight bits */
  { int n=0; for(op_t*q=S->ops;q;q=q->next) n+=q->org==myrank&&q->rr&&!q->done&&(!q->captured||(is_read(q)&&!q->delivered)); if(n>=255) MISUSE("%d unfinished request-based operations",n); }
#endif
  return k; }
int MPI_Rput(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w,MPI_Request*q){ op_t*o=rma(K_PUT,0,b,n,t,0,0,0,r,d,tn,tt,w); rma_eager(o); *q=rreq(o); return 0; }
int MPI_Rget(void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Win w,MPI_Request*q){ op_t*o=rma(K_GET,0,0,0,0,b,n,t,r,d,tn,tt,w); if(o) o->captured=1; rma_eager(o); *q=rreq(o); return 0; }
int MPI_Raccumulate(const void*b,int n,MPI_Datatype t,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w,MPI_Request*q){ op_t*o=rma(K_ACC,op,b,n,t,0,0,0,r,d,tn,tt,w); rma_eager(o); *q=rreq(o); return 0; }
int MPI_Rget_accumulate(const void*b,int n,MPI_Datatype t,void*rb,int rn,MPI_Datatype rt,int r,MPI_Aint d,int tn,MPI_Datatype tt,MPI_Op op,MPI_Win w,MPI_Request*q){ op_t*o=rma(K_GACC,op,b,n,t,rb,rn,rt,r,d,tn,tt,w); if(o&&op==MPI_NO_OP) o->captured=1; rma_eager(o); *q=rreq(o); return 0; }
/* synchronization */
/* separate memory model: local loads and stores work on the private copy, one-sided operations on the public one; they are reconciled when the owner synchronizes */
static void win_merge(win_t*w,int i){ uint8_t*pub=w->pub[i],*l=w->last[i],*pr=(uint8_t*)w->base[i]; if(!pub) return; diff_rank(myrank,0);
  for(long j=0;j<w->size[i];j++){ if(pr[j]==pub[j]&&pr[j]==l[j]) continue; int a=pr[j]!=l[j],b=pub[j]!=l[j]; if(a&&b&&pr[j]!=pub[j]) MISUSE("the same location of a window was changed by a local store and by a one-sided operation between two synchronizations (offset %ld)",j); if(a) pub[j]=pr[j]; else pr[j]=pub[j]; l[j]=pub[j]; }
  diff_rank(myrank,0); bumpv(); }
static int in_epoch(win_t*w,int i){ if(w->lockall[i]) return 1; for(int t=0;t<w->n;t++) if(w->lock[i][t]) return 1; return 0; }
int MPI_Win_flush(int t,MPI_Win wh){ ENTER(); mock_burst=0; win_t*w=win_get(wh); if(t<0||t>=w->n) MISUSE("flush: invalid rank %d",t); int i=wrank(w,myrank); if(!w->lockall[i]&&!w->lock[i][t]) MISUSE("flush outside a passive epoch"); complete_all(wh,w->ranks[t],1); return 0; }
int MPI_Win_flush_all(MPI_Win wh){ ENTER(); mock_burst=0; win_t*w=win_get(wh); if(!in_epoch(w,wrank(w,myrank))) MISUSE("flush_all outside a passive epoch"); complete_all(wh,-1,1); return 0; }
int MPI_Win_flush_local(int t,MPI_Win wh){ ENTER(); mock_burst=0; win_t*w=win_get(wh); if(t<0||t>=w->n) MISUSE("flush_local: invalid rank %d",t); int i=wrank(w,myrank); if(!w->lockall[i]&&!w->lock[i][t]) MISUSE("flush_local outside a passive epoch"); complete_all(wh,w->ranks[t],0); return 0; }
int MPI_Win_flush_local_all(MPI_Win wh){ ENTER(); mock_burst=0; win_t*w=win_get(wh); if(!in_epoch(w,wrank(w,myrank))) MISUSE("flush_local_all outside a passive epoch"); complete_all(wh,-1,0); return 0; }
int MPI_Win_sync(MPI_Win wh){ ENTER(); win_t*w=win_get(wh); if(!in_epoch(w,wrank(w,myrank))&&!w->fence[wrank(w,myrank)]) MISUSE("win_sync outside an epoch"); win_merge(w,wrank(w,myrank)); return 0; }
int MPI_Win_lock_all(int a,MPI_Win wh){ ENTER(); win_t*w=win_get(wh); int i=wrank(w,myrank); if(in_epoch(w,i)||w->fence[i]) MISUSE("lock_all inside an epoch"); if(!(a&MPI_MODE_NOCHECK)) for(int t=0;t<w->n;t++){ while(w->exc[t]>=0) blocked("win_lock_all"); w->shc[t]++; w->nocheck[i][t]=0; } else for(int t=0;t<w->n;t++) w->nocheck[i][t]=1; w->lockall[i]=1; if(S->cfg.hints&&!strcmp(mock_use,"ma")) mock_ev("{\"e\":\"lka\",\"p\":%d,\"a\":%d,\"nc\":\"%s\"}",ALIAS(myrank),(a&MPI_MODE_NOCHECK)!=0,hint_env("ARMCI_RMA_NOCHECK")); return 0; }
int MPI_Win_unlock_all(MPI_Win wh){ ENTER(); win_t*w=win_get(wh); int i=wrank(w,myrank); if(!w->lockall[i]) MISUSE("unlock_all without lock_all"); complete_all(wh,-1,1); for(int t=0;t<w->n;t++) if(!w->nocheck[i][t]) w->shc[t]--; w->lockall[i]=0; win_merge(w,i); bumpv(); return 0; }
int MPI_Win_lock(int ty,int t,int a,MPI_Win wh){ ENTER(); win_t*w=win_get(wh); if(t<0||t>=w->n) MISUSE("win_lock: invalid rank %d",t); int i=wrank(w,myrank); if(w->lock[i][t]||w->lockall[i]||w->fence[i]) MISUSE("win_lock: already in an epoch"); int nc=a&MPI_MODE_NOCHECK; w->nocheck[i][t]=nc?1:0; if(!nc){ if(ty==MPI_LOCK_EXCLUSIVE){ while(w->exc[t]>=0||w->shc[t]>0) blocked("win_lock"); w->exc[t]=i; } else { while(w->exc[t]>=0) blocked("win_lock"); w->shc[t]++; } } w->lock[i][t]=ty; if(t==i) win_merge(w,i); return 0; }
int MPI_Win_unlock(int t,MPI_Win wh){ ENTER(); win_t*w=win_get(wh); if(t<0||t>=w->n) MISUSE("win_unlock: invalid rank %d",t); int i=wrank(w,myrank); if(!w->lock[i][t]) MISUSE("win_unlock without win_lock"); complete_all(wh,w->ranks[t],1); if(!w->nocheck[i][t]){ if(w->lock[i][t]==MPI_LOCK_EXCLUSIVE) w->exc[t]=-1; else w->shc[t]--; } w->lock[i][t]=0; if(t==i) win_merge(w,i); bumpv(); return 0; }
int MPI_Win_fence(int a,MPI_Win wh){ (void)a; ENTER(); win_t*w=win_get(wh); int i=wrank(w,myrank); if(in_epoch(w,i)) MISUSE("fence inside a passive epoch"); complete_all(wh,-1,1); comm_t*c=&S->comm[w->comm]; static int fseq[MAXWIN]; coll_t*k=coll_enter_ctx(-5000000-wh,fseq[wh]++,C_WINFENCE,i,c->n,NULL,0,0); coll_all(k,"win_fence"); coll_leave(k); w->fence[i]=1; win_merge(w,i); return 0; }

/* ------------------------------------------------------------------ memory accesses of the library */
/* The library is compiled with -fsanitize=thread and linked with these instead of the sanitizer's own: a direct access to window
   memory is a point at which another process may run, and with several threads an access to any shared data is one. */
extern char __data_start, _end; static uint64_t accrng;
static int arnd(int n){ if(!accrng) accrng=S->cfg.seed*7919UL+(uint64_t)myrank*104729UL+1; accrng=accrng*6364136223846793005UL+1442695040888963407UL; return n<=1||(accrng>>33)%(uint64_t)n==0; }
static long cellstart(const void*a){ /* window memory of this process: offset in its cell, or -1 */
  for(int k=0;k<MAXOBS;k++){ obs_t*o=&S->obs[k]; if(!o->used) { if(k>64) break; continue; } if(o->rank!=myrank) continue; long d=(long)a-o->va; if(d>=0&&d<o->n*csize(o->type)) return d%csize(o->type); } return -1; }
static void access_point(const void*a){
  if(!in_rank||me<0||!S->cfg.acc||!heap_next) return;
  if(in_heap(a)){ long c=cellstart(a); if(c==0&&arnd(S->cfg.acc)) sched_point(); if(c>=0) return; }
  if(spawned&&S->cfg.sched!=5&&(((const char*)a>=&__data_start&&(const char*)a<&_end)||in_heap(a))&&arnd(8*S->cfg.acc*(S->cfg.wide>1?S->cfg.wide:1))){ int n=0; for(int i=0;i<S->nact;i++) n+=S->act[i].alive&&S->act[i].rank==myrank; if(n>1) sched_point(); } }
#define TS(n) void __tsan_read##n(void*a){ access_point(a); } void __tsan_write##n(void*a){ access_point(a); } void __tsan_unaligned_read##n(void*a){ access_point(a); } void __tsan_unaligned_write##n(void*a){ access_point(a); } void __tsan_volatile_read##n(void*a){ access_point(a); } void __tsan_volatile_write##n(void*a){ access_point(a); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_init(void){} void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){} void __tsan_vptr_update(void**a,void*b){(void)a;(void)b;} void __tsan_vptr_read(void**a){(void)a;}
void __tsan_read_range(void*a,unsigned long n){ (void)n; access_point(a); } void __tsan_write_range(void*a,unsigned long n){ (void)n; access_point(a); }
#define TA(n,T) T __tsan_atomic##n##_load(const volatile T*a,int m){ (void)m; access_point((void*)a); return *a; } void __tsan_atomic##n##_store(volatile T*a,T v,int m){ (void)m; access_point((void*)a); *a=v; bumpv(); } \
  T __tsan_atomic##n##_exchange(volatile T*a,T v,int m){ (void)m; access_point((void*)a); T o=*a; *a=v; bumpv(); return o; } T __tsan_atomic##n##_fetch_add(volatile T*a,T v,int m){ (void)m; access_point((void*)a); T o=*a; *a=(T)(o+v); bumpv(); return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T*a,T v,int m){ (void)m; access_point((void*)a); T o=*a; *a=(T)(o-v); bumpv(); return o; } T __tsan_atomic##n##_fetch_and(volatile T*a,T v,int m){ (void)m; access_point((void*)a); T o=*a; *a=o&v; bumpv(); return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T*a,T v,int m){ (void)m; access_point((void*)a); T o=*a; *a=o|v; bumpv(); return o; } T __tsan_atomic##n##_fetch_xor(volatile T*a,T v,int m){ (void)m; access_point((void*)a); T o=*a; *a=o^v; bumpv(); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T*a,T*e,T v,int m,int f){ (void)m;(void)f; access_point((void*)a); if(*a==*e){ *a=v; bumpv(); return 1; } *e=*a; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile T*a,T*e,T v,int m,int f){ return __tsan_atomic##n##_compare_exchange_strong(a,e,v,m,f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T*a,T e,T v,int m,int f){ __tsan_atomic##n##_compare_exchange_strong(a,&e,v,m,f); return e; }
TA(8,uint8_t) TA(16,uint16_t) TA(32,uint32_t) TA(64,uint64_t)
void __tsan_atomic_thread_fence(int m){ (void)m; } void __tsan_atomic_signal_fence(int m){ (void)m; }
/* memcpy and memmove of the library: interrupted between cells when they read or write window memory */
static void*copy_steps(void*d,const void*s,size_t n){
  if(!in_rank||me<0||!S->cfg.acc||n<2||((unsigned long)d<(unsigned long)s+n&&(unsigned long)s<(unsigned long)d+n)||(cellstart(d)!=0&&cellstart(s)!=0)||!arnd(S->cfg.acc)) return memmove(d,s,n);
  sched_point(); size_t h=n/32*16; if(S->cfg.wide>1) h=n/(size_t)(16*S->cfg.wide)*(size_t)(8*S->cfg.wide); if(h){ memcpy(d,s,h); sched_point(); } memcpy((char*)d+h,(const char*)s+h,n-h); return d; }
void*mock_memcpy(void*d,const void*s,size_t n){ return copy_steps(d,s,n); }
void*mock_memmove(void*d,const void*s,size_t n){ return copy_steps(d,s,n); }

/* ------------------------------------------------------------------ running a job */
static void crash_handler(int sig){ /* async context: the baton is ours */
  static volatile int once; if(once) _exit(3); once=1; mock_fatal("crash","signal %d",sig); }
static void rank_main(int r,const char*script){
  prctl(PR_SET_PDEATHSIG,SIGKILL); myrank=r; me=r; in_rank=1;
  void*p=mmap((void*)HEAP_ADDR,HEAP_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED|MAP_NORESERVE,heapfd,(off_t)(r*(long)HEAP_SIZE)); if(p==MAP_FAILED) _exit(4);
  uint64_t z=S->cfg.seed*0x9e3779b97f4a7c15UL+(uint64_t)r*77777; z^=z>>29; z*=0xbf58476d1ce4e5b9UL; z^=z>>32;
  heap_next=HEAP_ADDR+4096+((S->cfg.seed%3)?(z%6)*16:0);  /* address spaces of the ranks overlap, sometimes shifted */
  static char altstack[1<<16]; stack_t ss={.ss_sp=altstack,.ss_size=sizeof altstack}; sigaltstack(&ss,NULL); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=crash_handler; sa.sa_flags=SA_ONSTACK|SA_NODEFER; sigaction(SIGSEGV,&sa,NULL); sigaction(SIGBUS,&sa,NULL); sigaction(SIGFPE,&sa,NULL); sigaction(SIGILL,&sa,NULL); sigaction(SIGABRT,&sa,NULL);
  await_turn(); driver_main(r,script); fflush(NULL);
  tev("{\"e\":\"end\",\"p\":%d}",r); actor_exit(); for(;;) pause(); }
static shared_t *arena_map;
const char*mock_run(const mock_cfg*cfg,const char*script,int*len,int**choices,int**widths,int*nch){
  if(arena_map) munmap(ARENA_ADDR,ARENA_SIZE); void*p=mmap(ARENA_ADDR,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("mmap"); exit(2);} arena_map=S=p; S->cfg=*cfg; S->bump=sizeof(shared_t)+4096; S->bump=(S->bump+4095)&~4095UL;
  if(heapfd>=0) close(heapfd); heapfd=memfd_create("heap",0); if(ftruncate(heapfd,(off_t)(HEAP_SIZE*(unsigned long)cfg->nranks))){ perror("ftruncate"); exit(2);} p=mmap((void*)GHEAP_ADDR,HEAP_SIZE*(unsigned long)cfg->nranks,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED|MAP_NORESERVE,heapfd,0); if(p==MAP_FAILED){ perror("mmap heap"); exit(2);}
  S->cfg=*cfg; S->usesfocus=strstr(script,"focus")!=NULL; S->rng=cfg->seed*1000003UL+17; S->nextctx=100; S->nwin=1; S->ncomm=64; S->version=1; int all[MAXR]; for(int i=0;i<cfg->nranks;i++) all[i]=i;
  S->comm[1].used=1; S->comm[1].n=cfg->nranks; memcpy(S->comm[1].ranks,all,sizeof all); S->comm[1].ctx=1; for(int i=0;i<cfg->nranks;i++){ comm_t*c=&S->comm[10+i]; c->used=1;c->n=1;c->ranks[0]=i;c->ctx=10+i; }
  for(int i=0;i<MAXR;i++) S->alias[i]=i; S->nact=cfg->nranks; for(int i=0;i<cfg->nranks;i++){ S->act[i].rank=i; S->act[i].alive=1; S->act[i].prio=(int)(rnd()%1000)+1; } for(int i=0;i<4;i++) S->change_at[i]=(int)(rnd()%300);
  pid_t pid[MAXR]; fflush(NULL); for(int i=0;i<cfg->nranks;i++){ pid[i]=fork(); if(pid[i]==0) { rank_main(i,script); _exit(0);} if(pid[i]<0){ perror("fork"); exit(2);} }
  me=-1; { int n=0; for(int i=0;i<cfg->nranks;i++) n++; int f=choose_w(n,cfg->sched!=5); handoff(f); }
  struct timespec ts={0,200000000}; long idle=0,last=-1; int dead=0;
  while(!S->done){ syscall(SYS_futex,&S->done,FUTEX_WAIT,0,&ts,NULL,0); if(S->done) break; int st; for(int i=0;i<cfg->nranks;i++) if(pid[i]>0&&waitpid(pid[i],&st,WNOHANG)==pid[i]){ pid[i]=-1; dead=1; } if(dead&&!S->done){ usleep(1000); if(!S->done){ tev("{\"e\":\"crash\",\"p\":-1,\"msg\":\"a rank died\"}"); S->outcome=1; } break; }
    if(S->steps==last){ idle++; } else { idle=0; last=S->steps; } if(idle>75){ tev("{\"e\":\"livelock\",\"p\":-1,\"msg\":\"no MPI call for 15 s\"}"); S->outcome=1; break; } }
  for(int i=0;i<cfg->nranks;i++) if(pid[i]>0) kill(pid[i],SIGKILL);
  for(int i=0;i<cfg->nranks;i++) if(pid[i]>0) waitpid(pid[i],NULL,0);
  munmap((void*)GHEAP_ADDR,HEAP_SIZE*(unsigned long)cfg->nranks);
  *len=S->outcome; *choices=S->choice; *widths=S->width; *nch=S->nchoice; (void)dummy_mx; return S->trace; }
