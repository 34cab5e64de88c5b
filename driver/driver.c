/* Driver: interprets a per-rank script of public ARMCI calls and logs every call, its arguments, its return and the data involved.
   All memory is seen in units of cells (mock_cellval); the specification decides whether the logged behaviour is allowed. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
#include <armci.h>
#include <armcix.h>
#include "mock.h"
#define malloc mock_own_alloc

#define MAXAL 600
#define MAXG 32
#define MAXOPS 4096
#define MAXH 64
#define MAXHM 8
#define MAXLIST 512
typedef struct { int live, n, nm, mem[MAXR], grp; char ty; char *base[MAXR]; char *mine, *was; int nmine; } alloc_t;
typedef struct { int id, h, t, nb, done, kind, la, thr; char *buf; long n; char ty; char alloc_kind; int freeit; } xop_t;
typedef struct { char *buf; long n; char ty; int reg; } dead_t;
static alloc_t AL[MAXAL]; static ARMCI_Group G[MAXG]; static armci_hdl_t H[MAXH]; static armcix_mutex_hdl_t HM[MAXHM];
static xop_t OPS[MAXOPS]; static int nops; static dead_t DEAD[MAXOPS]; static int ndead; static int nextid; static int R;
static int hinit[MAXH]; static int renamed;

/* ---------------------------------------------------------------- key=value commands */
typedef struct { char cmd[24]; int n; char *k[40]; char *v[40]; char *raw; } cmd_t;
static const char *gets_(cmd_t *c, const char *k){ for (int i=0;i<c->n;i++) if(!strcmp(c->k[i],k)) return c->v[i]; return NULL; }
static long geti(cmd_t *c, const char *k, long d){ const char *s=gets_(c,k); return s?atol(s):d; }
static const char *getstr(cmd_t *c, const char *k, const char *d){ const char *s=gets_(c,k); return s?s:d; }
static int getl(cmd_t *c, const char *k, int *out){ const char *s=gets_(c,k); int n=0; if(!s||!*s) return 0; for(;;){ char*e; if(n>=MAXLIST) mock_fatal("harness","list too long"); out[n++]=(int)strtol(s,&e,10); if(*e!=',') break; s=e+1; } return n; }
static void parse(const char *line, long len, cmd_t *c){ c->raw=strndup(line,(size_t)len); c->n=0; c->cmd[0]=0; char*sp=NULL; int first=1; for(char*t=strtok_r(c->raw," \t\r",&sp);t;t=strtok_r(NULL," \t\r",&sp)){ if(first){ snprintf(c->cmd,sizeof c->cmd,"%s",t); first=0; continue; } char*e=strchr(t,'='); if(c->n>=40) mock_fatal("harness","too many arguments"); if(e){ *e=0; c->k[c->n]=t; c->v[c->n]=e+1; } else { c->k[c->n]=t; c->v[c->n]="1"; } c->n++; } }

/* ---------------------------------------------------------------- string building */
typedef struct { char *s; size_t n, cap; } sb;
static void sbp(sb *b, const char *f, ...){ va_list ap; for(;;){ va_start(ap,f); size_t room=b->cap-b->n; int k=vsnprintf(b->s?b->s+b->n:NULL,b->s?room:0,f,ap); va_end(ap); if(b->s&&(size_t)k<room){ b->n+=(size_t)k; return; } b->cap=b->cap*2+(size_t)k+256; b->s=realloc(b->s,b->cap); } }
static void sblist(sb *b, const char *k, const int *l, int n){ sbp(b,",\"%s\":[",k); for(int i=0;i<n;i++) sbp(b,"%s%d",i?",":"",l[i]); sbp(b,"]"); }
static void sbcells(sb *b, const char *k, const char *p, long n, char ty){ long cs=mock_pitch(ty); sbp(b,",\"%s\":[",k); for(long i=0;i<n;i++) sbp(b,"%s%ld",i?",":"",mock_cellval(p+i*cs,ty)); sbp(b,"]"); }
static void emit(sb *b){ if(b->n>60000) mock_fatal("harness","event too long"); mock_ev("%s",b->s); free(b->s); b->s=NULL; b->n=b->cap=0; }

/* ---------------------------------------------------------------- private buffers after completion are watched and scribbled */
#define SCRIB 0xA5
static void check_dead(void){ for(int i=0;i<ndead;i++) if(DEAD[i].buf){ const unsigned char*p=(unsigned char*)DEAD[i].buf; long n=DEAD[i].n; int bad=0; for(long k=0;k<n;k++) if(p[k]!=SCRIB){ bad=1; break; } if(bad){ mock_ev("{\"e\":\"clob\",\"p\":%d,\"id\":%d}",R,DEAD[i].reg); memset(DEAD[i].buf,SCRIB,(size_t)n); } } }
static void retire(xop_t *o){ if(!o->buf) return; long bytes=o->n*mock_csize(o->ty); if(o->freeit||mock_gap()){ if(o->alloc_kind=='m') ARMCI_Free_local(o->buf); else free(o->buf); o->buf=NULL; return; }
  memset(o->buf,SCRIB,(size_t)bytes); if(ndead<MAXOPS){ DEAD[ndead].buf=o->buf; DEAD[ndead].n=bytes; DEAD[ndead].reg=o->id; ndead++; } }

/* what memory holds when the library hands it out (tuning programs): all zero, or not */
static void zeroed(const char*p,long n){ if(!mock_hints()||mock_voff(p)<0) return; const char*v=getenv("ARMCI_DEBUG_ALLOC"); int z=1; for(long i=0;i<n;i++) if(p[i]) z=0; mock_ev("{\"e\":\"zer\",\"p\":%d,\"n\":%ld,\"z\":%d,\"v\":\"%s\"}",R,n,z,v?v:"-"); }
static char *aaddr(int a, int t, long cell){ alloc_t *A=&AL[a]; for(int i=0;i<A->nm;i++) if(A->mem[i]==t) return A->base[i]+cell*mock_pitch(A->ty); mock_fatal("harness","rank %d has no slice of %d",t,a); }

static int acc_type(char c){ switch(c){ case 'i': return ARMCI_ACC_INT; case 'l': return ARMCI_ACC_LNG; case 'f': return ARMCI_ACC_FLT; case 'd': return ARMCI_ACC_DBL; case 'c': return ARMCI_ACC_CPL; case 'z': return ARMCI_ACC_DCP; } mock_fatal("harness","acc type"); }

/* ---------------------------------------------------------------- one-sided transfers */
static void completion_list(sb *b, int (*sel)(xop_t*,int), int arg){ int first=1; sbp(b,",\"c\":["); for(int i=0;i<nops;i++){ xop_t*o=&OPS[i]; if(o->done||!o->nb||!sel(o,arg)) continue; sbp(b,"%s{\"id\":%d",first?"":",",o->id); first=0; if(o->buf) sbcells(b,"L",o->buf,o->n,o->ty); else sbp(b,",\"L\":[]"); sbp(b,"}"); o->done=2; } sbp(b,"]"); }
static void completion_retire(void){ for(int i=0;i<nops;i++) if(OPS[i].done==2){ OPS[i].done=1; retire(&OPS[i]); } }
static int sel_handle(xop_t*o,int h){ return o->h==h; }
static int sel_proc(xop_t*o,int t){ return o->t==t; }
static int sel_all(xop_t*o,int t){ (void)o; (void)t; return 1; }

#define PRIV 100000
static void do_x(cmd_t *c, int thr){
  const char *op=getstr(c,"op","put"), *form=getstr(c,"f","c"); char ty=getstr(c,"ty","i")[0]; char acct=getstr(c,"at",getstr(c,"ty","i"))[0];
  int nb=(int)geti(c,"nb",0), h=(int)geti(c,"h",-1), t=(int)geti(c,"t",0), a=(int)geti(c,"A",0); int la=(int)geti(c,"la",-1); int cs=mock_csize(ty); long pc=mock_pitch(ty);
  int rs[16],ls[16],cnt[16]; int levels=0,ncnt=getl(c,"cnt",cnt); long ro=geti(c,"ro",0), lo=geti(c,"lo",0); levels=ncnt-1; getl(c,"rs",rs); getl(c,"ls",ls);
  long v0=geti(c,"v",1), vs=geti(c,"vs",1); long ext=geti(c,"ext",0); int sc[4]={1,1,0,1}; getl(c,"sc",sc); int scaled=gets_(c,"sc")!=NULL; const char *lk=getstr(c,"lk","p");
  int isget=!strcmp(op,"get"), isacc=!strcmp(op,"acc"); int id=R*1000+(++nextid);
  if(nops>=MAXOPS) mock_fatal("harness","too many operations");
  int sx=isacc&&la<0&&ty!='i'?(int)geti(c,"sx",0):0; char bty=!sx?ty:ty=='l'?'L':ty=='f'?'F':'D'; double unit=sx?mock_unit(ty):1; /* a plain buffer, the unit of the cells in the scale */
  /* local side */
  char *lb, *pb=NULL; long ln=ext; /* pb: the private part; with la>=0 the vector segments from PRIV on lie there */
  if(la>=0){ lb=AL[la].mine; ln=AL[la].nmine; }
  if(la<0||ext>0){ pb=(*lk=='m')?ARMCI_Malloc_local(ext*pc+cs):malloc((size_t)(ext*pc+cs)); 
    for(long i=0;i<ext;i++) mock_cellput(pb+i*pc,bty,isget?(ty=='b'?251:-5-i):(ty=='b'?((v0+i*vs)%250+250)%250+1:v0+i*vs)); }
  if(la<0) lb=pb;
  /* vector segments: len@a.r.l,a.r.l;len@... */
  int niov=0; static int segA[MAXLIST],segR[MAXLIST],segL[MAXLIST],segN[MAXLIST]; int iovlen[64],iovcnt[64]; int nseg=0;
  if(*form=='v'){ const char*s=getstr(c,"iov",""); while(*s){ char*e; long len=strtol(s,&e,10); int k=0; s=e+1; while(*s&&*s!=';'){ if(nseg>=MAXLIST) mock_fatal("harness","segments"); segA[nseg]=(int)strtol(s,&e,10); segR[nseg]=(int)strtol(e+1,&e,10); segL[nseg]=(int)strtol(e+1,&e,10); segN[nseg]=(int)len; nseg++; k++; s=e; if(*s==',') s++; } iovlen[niov]=(int)len; iovcnt[niov]=k; niov++; if(*s==';') s++; } }
  int fa=(int)geti(c,"fa",0), fc=(int)geti(c,"fc",0), fv=(int)geti(c,"fv",0);
  sb b={0}; sbp(&b,"{\"e\":\"x\",\"p\":%d,\"th\":%d,\"id\":%d,\"op\":\"%s\",\"f\":\"%s\",\"nb\":%d,\"h\":%d,\"t\":%d,\"ty\":\"%c\",\"at\":\"%c\",\"la\":%d,\"A\":%d",R,thr,id,op,form,nb,h,t,ty,acct,la,a); sblist(&b,"sc",sc,4);
  if(*form=='v'){ sbp(&b,",\"segs\":["); for(int i=0;i<nseg;i++) sbp(&b,"%s[%d,%d,%d,%d]",i?",":"",segA[i],segR[i],segL[i],segN[i]); sbp(&b,"]"); }
  else { sbp(&b,",\"ro\":%ld,\"lo\":%ld",ro,lo); sblist(&b,"rs",rs,levels); sblist(&b,"ls",ls,levels); sblist(&b,"cnt",cnt,ncnt); }
  if(!strcmp(form,"pf")||!strcmp(form,"psf")) sbp(&b,",\"fa\":%d,\"fc\":%d,\"fv\":%d",fa,fc,fv);
  if(la>=0&&isget) sbp(&b,",\"L\":[]"); else sbcells(&b,"L",lb,ln,bty);
  if(la>=0&&pb) sbcells(&b,"q",pb,ext,bty);
  sbp(&b,"}"); emit(&b); mock_burst=mock_burst_max=0;
  xop_t *o=&OPS[nops++]; memset(o,0,sizeof *o); o->id=id; o->h=h; o->t=t; o->nb=nb; o->la=la; o->buf=pb; o->n=ext; o->ty=bty; o->thr=thr; o->alloc_kind=*lk; o->freeit=(int)geti(c,"free",0); o->done=nb?0:3;
  armci_hdl_t *hp=h>=0?&H[h]:NULL; 
  /* scale */
  int si; long sl; float sf[2]; double sd[2]; void *sp=NULL; if(isacc){ double re=unit*sc[0]/sc[1], im=unit*sc[2]/sc[3]; switch(acct){ case 'i': si=(int)re; sp=&si; break; case 'l': sl=sx?(long)((unsigned long)mock_lunit()*(unsigned long)(sc[0]/sc[1])):(long)re; sp=&sl; break; case 'f': sf[0]=(float)re; sp=sf; break; case 'd': sd[0]=re; sp=sd; break; case 'c': sf[0]=(float)re; sf[1]=(float)im; sp=sf; break; case 'z': sd[0]=re; sd[1]=im; sp=sd; break; } if(!scaled&&!sx&&geti(c,"nullscale",0)) sp=NULL; }
  int rc=0; int pt=(int)geti(c,"pt",t); char *ra=*form=='v'?NULL:aaddr(a,pt,ro); char *lp=*form=='v'?NULL:lb+lo*pc;
  int bcnt[16],brs[16],bls[16]; for(int i=0;i<ncnt;i++) bcnt[i]=cnt[i]; if(ncnt>0) bcnt[0]=cnt[0]*cs; for(int i=0;i<levels;i++){ brs[i]=(int)(rs[i]*pc); bls[i]=(int)(ls[i]*pc); if(brs[i]!=rs[i]*pc||bls[i]!=ls[i]*pc) mock_fatal("harness","stride"); }
  long outv=0; int hasout=0;
  if(*form=='c'){ int bytes=cnt[0]*cs; int at=isacc?acc_type(acct):0;
    if(isacc) rc=nb?ARMCI_NbAcc(at,sp,lp,ra,bytes,t,hp):ARMCI_Acc(at,sp,lp,ra,bytes,t);
    else if(isget) rc=nb?ARMCI_NbGet(ra,lp,bytes,t,hp):ARMCI_Get(ra,lp,bytes,t);
    else rc=nb?ARMCI_NbPut(lp,ra,bytes,t,hp):ARMCI_Put(lp,ra,bytes,t); }
  else if(*form=='s'){ int at=isacc?acc_type(acct):0;
    if(isacc) rc=nb?ARMCI_NbAccS(at,sp,lp,bls,ra,brs,bcnt,levels,t,hp):ARMCI_AccS(at,sp,lp,bls,ra,brs,bcnt,levels,t);
    else if(isget) rc=nb?ARMCI_NbGetS(ra,brs,lp,bls,bcnt,levels,t,hp):ARMCI_GetS(ra,brs,lp,bls,bcnt,levels,t);
    else rc=nb?ARMCI_NbPutS(lp,bls,ra,brs,bcnt,levels,t,hp):ARMCI_PutS(lp,bls,ra,brs,bcnt,levels,t); 
    for(int i=0;i<ncnt;i++) bcnt[i]=77777; for(int i=0;i<levels;i++) brs[i]=bls[i]=77777; /* descriptors belong to the caller again */ }
  else if(*form=='v'){ int at=isacc?acc_type(acct):0; armci_giov_t *iov=malloc(sizeof(armci_giov_t)*(size_t)(niov+1)); int k=0; for(int i=0;i<niov;i++){ void**s=malloc(sizeof(void*)*(size_t)(iovcnt[i]+1)),**d=malloc(sizeof(void*)*(size_t)(iovcnt[i]+1)); for(int j=0;j<iovcnt[i];j++,k++){ void*r=aaddr(segA[k],pt,segR[k]),*l=la>=0&&segL[k]>=PRIV?pb+(long)(segL[k]-PRIV)*pc:lb+(long)segL[k]*pc; s[j]=isget?r:l; d[j]=isget?l:r; } iov[i].src_ptr_array=s; iov[i].dst_ptr_array=d; iov[i].bytes=iovlen[i]*cs; iov[i].ptr_array_len=iovcnt[i]; }
    if(isacc) rc=nb?ARMCI_NbAccV(at,sp,iov,niov,t,hp):ARMCI_AccV(at,sp,iov,niov,t);
    else if(isget) rc=nb?ARMCI_NbGetV(iov,niov,t,hp):ARMCI_GetV(iov,niov,t);
    else rc=nb?ARMCI_NbPutV(iov,niov,t,hp):ARMCI_PutV(iov,niov,t);
    for(int i=0;i<niov;i++){ free(iov[i].src_ptr_array); free(iov[i].dst_ptr_array); } free(iov); }
  else if(!strcmp(form,"pf")) rc=ARMCI_Put_flag(lp,ra,cnt[0]*cs,(int*)aaddr(fa,t,fc),fv,t);
  else if(!strcmp(form,"psf")) rc=ARMCI_PutS_flag(lp,bls,ra,brs,bcnt,levels,(int*)aaddr(fa,t,fc),fv,t);
  else if(*form=='u'){ /* value operations; local side is one cell */
    if(isget){ char tmp[8]; switch(ty){ case 'i': { int v=ARMCI_GetValueInt(ra,t); memcpy(tmp,&v,4); break; } case 'l': case 'o': { long v=ARMCI_GetValueLong(ra,t); memcpy(tmp,&v,8); break; } case 'f': { float v=ARMCI_GetValueFloat(ra,t); memcpy(tmp,&v,4); break; } default: { double v=ARMCI_GetValueDouble(ra,t); memcpy(tmp,&v,8); } } memcpy(lp,tmp,(size_t)cs); }
    else { int vi; long vl; float vf; double vd; switch(ty){ case 'i': memcpy(&vi,lp,4); rc=nb?ARMCI_NbPutValueInt(vi,ra,t,hp):ARMCI_PutValueInt(vi,ra,t); break; case 'l': case 'o': memcpy(&vl,lp,8); rc=nb?ARMCI_NbPutValueLong(vl,ra,t,hp):ARMCI_PutValueLong(vl,ra,t); break; case 'f': memcpy(&vf,lp,4); rc=nb?ARMCI_NbPutValueFloat(vf,ra,t,hp):ARMCI_PutValueFloat(vf,ra,t); break; default: memcpy(&vd,lp,8); rc=nb?ARMCI_NbPutValueDouble(vd,ra,t,hp):ARMCI_PutValueDouble(vd,ra,t); } } }
  else mock_fatal("harness","form %s",form);
  (void)outv; (void)hasout;
  if(isacc&&sp){ si=0; sl=0; sf[0]=sf[1]=77; sd[0]=sd[1]=77; } /* the scale belongs to the caller again */
  sbp(&b,"{\"e\":\"%s\",\"p\":%d,\"id\":%d,\"rc\":%d",nb?"xi":"xr",R,id,rc);
  if(mock_hints()&&*form=='v'&&!nb){ const char*e1=getenv("ARMCI_IOV_BATCHED_LIMIT"),*e2=getenv("ARMCI_IOV_METHOD"); sbp(&b,",\"burst\":%d,\"lim\":%d,\"meth\":\"%s\"",mock_burst_max,e1?atoi(e1):0,e2?e2:""); }
  if(!nb){ if(pb) sbcells(&b,"L",pb,ext,bty); else sbp(&b,",\"L\":[]"); }
  sbp(&b,"}"); emit(&b);
  if(!nb){ o->done=1; retire(o); } }

/* ---------------------------------------------------------------- groups */
static void group_info(sb *b, int g){ int rk=-99,sz=-99; int rc=ARMCI_Group_rank(&G[g],&rk); ARMCI_Group_size(&G[g],&sz); sbp(b,",\"rrc\":%d,\"rank\":%d,\"size\":%d,\"abs\":[",rc,rk,sz); if(rk>=0) for(int i=0;i<sz;i++) sbp(b,"%s%d",i?",":"",ARMCI_Absolute_id(&G[g],i)); sbp(b,"]"); }

static const char *opname(int k){ static const char*n[]={"+","*","max","min","absmax","absmin","or","land","lor","band","bor","&&","||","&","|"}; return n[k]; }
static int opindex(const char *s){ for(int i=0;i<15;i++) if(!strcmp(opname(i),s)) return i; return 0; }
#define SELUNIT 8589934591L     /* 2^33-1: the low words of the keys are ordered the other way round */
static int msgtype(char t){ switch(t){ case 'i': return ARMCI_INT; case 'l': case 'o': return ARMCI_LONG; case 'q': return ARMCI_LONG_LONG; case 'f': return ARMCI_FLOAT; default: return ARMCI_DOUBLE; } }
static int scopeof(const char*s){ return *s=='n'?SCOPE_NODE:*s=='m'?SCOPE_MASTERS:SCOPE_ALL; }

/* ---------------------------------------------------------------- calls the library has to refuse: none of them may return */
static void misuse(cmd_t *c){
  const char *v=getstr(c,"k","error"), *w=getstr(c,"s",""); int a=(int)geti(c,"a",0), b=(int)geti(c,"b",0), h=(int)geti(c,"H",-1), g=(int)geti(c,"g",0), f=(int)geti(c,"f",0), A=(int)geti(c,"A",0);
  static double priv[8]; double sc[2]={1,0}; char word[16]; snprintf(word,sizeof word,"%s",w); armci_hdl_t hd; void *bases[MAXR+1];
  mock_ev("{\"e\":\"mis\",\"p\":%d,\"k\":\"%s\",\"a\":%d,\"b\":%d,\"s\":\"%s\",\"H\":%d,\"g\":%d,\"sc\":%d}",R,v,a,b,w,h,g,f>=4||*w=='i');
  if(!strcmp(v,"lock")){ if(h<0) ARMCI_Lock(a,b); else ARMCIX_Lock_hdl(HM[h],a,b); }
  else if(!strcmp(v,"unlock")){ if(h<0) ARMCI_Unlock(a,b); else ARMCIX_Unlock_hdl(HM[h],a,b); }
  else if(!strcmp(v,"trylock")) ARMCIX_Trylock_hdl(HM[h],a,b);
  else if(!strcmp(v,"mdestroy")) ARMCI_Destroy_mutexes();
  else if(!strcmp(v,"mcreate")) ARMCI_Create_mutexes(a);
  else if(!strcmp(v,"init")){ int ac=0; char**av=NULL; if(f==1) ARMCI_Init(); else if(f==2) ARMCI_Init_args(&ac,&av); else if(f==3) ARMCI_Init_mpi_comm(MPI_COMM_WORLD); else if(f==4) ARMCI_Init_thread_comm(a,MPI_COMM_WORLD); else ARMCI_Init_thread(a); }
  else if(!strcmp(v,"malloc")){ if(f) ARMCI_Malloc_group(bases,8,&G[0]); else ARMCI_Malloc(bases,8); }
  else if(!strcmp(v,"free")||!strcmp(v,"abegin")||!strcmp(v,"aend")){ void*q=a<0?(void*)priv:(void*)(AL[a].mine?AL[a].mine:AL[a].was); if(*v=='f'){ if(f==1) ARMCI_Free_group(q,&G[g]); else if(f==2) ARMCI_Free_memdev(q); else ARMCI_Free(q); } else if(v[1]=='b') ARMCI_Access_begin(q); else ARMCI_Access_end(q); }
  else if(!strcmp(v,"acc")){ int t=strchr("ilfdcz",*w)?acc_type(*w):a; char*r=aaddr(A,(int)geti(c,"t",0),0); int n1=1; int st[1]={b}, cn[2]={b,1}; armci_giov_t io; void*sp=priv,*dp=r; (void)n1; io.src_ptr_array=&sp; io.dst_ptr_array=&dp; io.ptr_array_len=1; io.bytes=b; int pr=(int)geti(c,"t",0); ARMCI_INIT_HANDLE(&hd);
    static long sl=2; int si=2; float sf[2]={2,0}; double sd[2]={2,0}; void*s=sc; if(f>=4||*w=='i') { s=*w=='i'?(void*)&si:*w=='l'?(void*)&sl:(*w=='f'||*w=='c')?(void*)sf:(void*)sd; } /* a real scale */
    switch(f&3){ case 0: ARMCI_Acc(t,s,priv,r,b,pr); break; case 1: ARMCI_NbAcc(t,s,priv,r,b,pr,&hd); break; case 2: ARMCI_AccV(t,s,&io,1,pr); break; default: ARMCI_AccS(t,s,priv,st,r,st,cn,0,pr); } }
  else if(!strcmp(v,"rmw")) ARMCI_Rmw(a,(int*)priv,aaddr(A,b,0),1,b);
  else if(!strcmp(v,"gop")||!strcmp(v,"gtype")){ const char*o=*w&&v[1]=='o'?word:"+"; char oo[16]; snprintf(oo,sizeof oo,"%s",o); int ty=v[1]=='t'?a:ARMCI_INT; if(f==1) armci_msg_group_gop_scope(SCOPE_ALL,priv,1,oo,ty,&G[g]); else if(f==2&&v[1]=='o') armci_msg_igop((int*)priv,1,oo); else if(f==3&&v[1]=='o') armci_msg_group_igop((int*)priv,1,oo,&G[g]); else armci_msg_gop_scope(SCOPE_ALL,priv,1,oo,ty); }
  else if(!strcmp(v,"sel")){ if(f) armci_msg_sel(priv,8,word,ARMCI_INT,1); else armci_msg_sel_scope(SCOPE_ALL,priv,8,word,ARMCI_INT,1); }
  else if(!strcmp(v,"bcast")) armci_msg_group_bcast_scope(SCOPE_ALL,priv,4,b,&G[g]);
  else if(!strcmp(v,"absid")) ARMCI_Absolute_id(&G[g],b);
  else if(!strcmp(v,"target")){ char*r=aaddr(A,R,0); ARMCI_INIT_HANDLE(&hd); switch(f){ case 0: ARMCI_Put(priv,r,4,b); break; case 1: ARMCI_Get(r,priv,4,b); break; case 2: { int one=1; ARMCI_Acc(ARMCI_ACC_INT,&one,priv,r,4,b); break; } case 3: ARMCI_NbPut(priv,r,4,b,&hd); break; case 4: ARMCI_Rmw(ARMCI_FETCH_AND_ADD,(int*)priv,r,1,b); break; case 5: ARMCI_PutValueInt(1,r,b); break; default: ARMCI_NbGet(r,priv,4,b,&hd); } }
  else if(!strcmp(v,"handle")){ switch(f){ case 0: ARMCI_Wait(NULL); break; case 1: ARMCI_Test(NULL); break; case 2: ARMCI_SET_AGGREGATE_HANDLE(NULL); break; default: ARMCI_UNSET_AGGREGATE_HANDLE(NULL); } }
  else if(!strcmp(v,"address")){ char*r=aaddr(A,b,0); int one=1; ARMCI_INIT_HANDLE(&hd); switch(f){ case 0: ARMCI_Put(NULL,r,4,b); break; case 1: ARMCI_Get(r,NULL,4,b); break; case 2: ARMCI_Acc(ARMCI_ACC_INT,&one,NULL,r,4,b); break; case 3: ARMCI_NbPut(NULL,r,4,b,&hd); break; default: ARMCI_NbGet(r,NULL,4,b,&hd); } }
  else if(!strcmp(v,"reduce")){ char o[2]="+"; if(f) armci_msg_reduce_scope(SCOPE_ALL,priv,1,o,ARMCI_INT); else armci_msg_reduce(priv,1,o,ARMCI_INT); }
  else if(!strcmp(v,"error")) ARMCI_Error("script",a);
  else if(!strcmp(v,"abort")) armci_msg_abort(a);
  else mock_fatal("harness","misuse %s",v);
  mock_ev("{\"e\":\"misr\",\"p\":%d}",R); }

void ctree_ops(const char *ops);
static void run_script(const char *script, int rank, int thr);
typedef struct { const char *script; int thr; } targ_t; static targ_t TARG[8]; static int TACT[8];
static void thread_main(void *a){ targ_t*t=a; mock_setthr(t->thr); run_script(t->script,R,t->thr); }
static const char *SCRIPT;

static void exec(cmd_t *c, int thr){
  const char *k=c->cmd; sb b={0}; int L[MAXLIST];
  check_dead();
  if(!strcmp(k,"mpiinit")){ int lv=(int)geti(c,"lv",-1), p; if(lv<0) MPI_Init(NULL,NULL); else MPI_Init_thread(NULL,NULL,lv,&p); }
  else if(!strcmp(k,"mpifin")) MPI_Finalize();
  else if(!strcmp(k,"skip")){ /* not a part of the library's world */ MPI_Comm cc; if(renamed) return; renamed=1; MPI_Comm_split(MPI_COMM_WORLD,MPI_UNDEFINED,0,&cc); R+=100; }
  else if(!strcmp(k,"init")){ const char*v=getstr(c,"k","plain"); if(!strcmp(v,"perm")||!strcmp(v,"sub")){ if(renamed) return; renamed=1; } int th=(int)geti(c,"th",0); int rc=0; int argc=0; char**argv=NULL; mock_ev("{\"e\":\"init\",\"p\":%d,\"k\":\"%s\"}",R,v);
    if(!strcmp(v,"plain")) rc=ARMCI_Init(); else if(!strcmp(v,"args")) rc=ARMCI_Init_args(&argc,&argv); else if(!strcmp(v,"thread")) rc=ARMCI_Init_thread(th); else if(!strcmp(v,"threadcomm")) rc=ARMCI_Init_thread_comm(th,MPI_COMM_WORLD); 
    else if(!strcmp(v,"perm")){ /* a communicator with permuted ranks */ MPI_Comm cc; MPI_Comm_split(MPI_COMM_WORLD,0,(int)geti(c,"key",0),&cc); rc=ARMCI_Init_mpi_comm(cc); MPI_Comm_free(&cc); }
    else if(!strcmp(v,"sub")){ MPI_Comm cc; MPI_Comm_split(MPI_COMM_WORLD,(int)geti(c,"color",0),R,&cc); rc=ARMCI_Init_mpi_comm(cc); MPI_Comm_free(&cc); }
    else rc=ARMCI_Init_mpi_comm(MPI_COMM_WORLD); 
    if(ARMCI_Initialized()) ARMCI_Group_get_world(&G[0]);
    if(!strcmp(v,"perm")||!strcmp(v,"sub")){ int want=(int)geti(c,"me",-1); int m=armci_msg_me(); if(want>=0&&m!=want) mock_ev("{\"e\":\"badrank\",\"p\":%d,\"want\":%d}",m,want); R=m; mock_setalias(m); }
    mock_ev("{\"e\":\"initr\",\"p\":%d,\"rc\":%d,\"i\":%d,\"me\":%d,\"np\":%d}",R,rc,ARMCI_Initialized()!=0,armci_msg_me(),armci_msg_nproc()); }
  else if(!strcmp(k,"finalize")){ for(int a=0;a<MAXAL;a++) if(AL[a].live&&geti(c,"last",1)){ if(AL[a].mine) mock_unobserve(a); } mock_ev("{\"e\":\"fin\",\"p\":%d}",R); int rc=ARMCI_Finalize(); mock_ev("{\"e\":\"finr\",\"p\":%d,\"rc\":%d,\"i\":%d}",R,rc,ARMCI_Initialized()!=0); }
  else if(!strcmp(k,"cleanup")) ARMCI_Cleanup();
  else if(!strcmp(k,"inited")) mock_ev("{\"e\":\"ini\",\"p\":%d,\"i\":%d}",R,ARMCI_Initialized()!=0);
  /* memory */
  else if(!strcmp(k,"malloc")){ int a=(int)geti(c,"A",0), g=(int)geti(c,"g",-1); char ty=getstr(c,"ty","i")[0]; long n=geti(c,"n",0); const char*api=getstr(c,"api",""); alloc_t*A=&AL[a]; memset(A,0,sizeof *A); A->nm=getl(c,"mem",A->mem); A->ty=ty; A->grp=g; A->n=(int)n; long cs=mock_pitch(ty); long sl=n>0?geti(c,"slack",0):0; /* bytes after the last whole cell */ void*p[MAXR]; for(int i=0;i<MAXR;i++) p[i]=(void*)0x77; 
    mock_ev("{\"e\":\"ma\",\"p\":%d,\"A\":%d,\"g\":%d,\"n\":%ld,\"cs\":%d,\"ty\":\"%c\"}",R,a,g<0?0:g,n,(int)(mock_gap()?((n*cs+sl)>>20)/(n>0?n:1):cs),ty); int rc;
    mock_use="ma"; if(!strcmp(api,"memdev")) rc=g<0?ARMCI_Malloc_memdev(p,n*cs+sl,"loc"):ARMCI_Malloc_group_memdev(p,n*cs+sl,&G[g],"loc"); else rc=g<0?ARMCI_Malloc(p,n*cs+sl):ARMCI_Malloc_group(p,n*cs+sl,&G[g]); mock_use="";
    sbp(&b,"{\"e\":\"mar\",\"p\":%d,\"A\":%d,\"rc\":%d,\"base\":[",R,a,rc); for(int i=0;i<A->nm;i++){ A->base[i]=p[i]; sbp(&b,"%s%ld",i?",":"",mock_voff(p[i])); if(A->mem[i]==R) A->mine=p[i]; } sbp(&b,"],\"tail\":%d}",p[A->nm<MAXR?A->nm:MAXR-1]==(void*)0x77); 
    if(A->mine&&n>0) zeroed(A->mine,n*cs+sl);
    if(A->mine&&n>0&&mock_voff(A->mine)>=0){ if(geti(c,"zero",1)) for(long i=0;i<n;i++) mock_cellput(A->mine+i*cs,ty,0); if(geti(c,"obs",1)) mock_observe(a,A->mine,n,ty); A->nmine=(int)n; } A->live=1; emit(&b); }
  else if(!strcmp(k,"free")){ int a=(int)geti(c,"A",0), g=(int)geti(c,"g",-1); alloc_t*A=&AL[a]; mock_ev("{\"e\":\"fr\",\"p\":%d,\"A\":%d}",R,a); if(A->mine) mock_unobserve(a); const char*api=getstr(c,"api",""); int rc; long off=geti(c,"off",0); void*q=A->mine?A->mine+off*mock_pitch(A->ty):NULL; if(!strcmp(api,"memdev")) rc=ARMCI_Free_memdev(q); else rc=g<0?ARMCI_Free(q):ARMCI_Free_group(q,&G[g]); A->live=0; A->was=A->mine; A->mine=NULL; mock_ev("{\"e\":\"frr\",\"p\":%d,\"A\":%d,\"rc\":%d}",R,a,rc); }
  else if(!strcmp(k,"mlocal")){ long n=geti(c,"n",1); int a=(int)geti(c,"B",0); char*p=ARMCI_Malloc_local(n); if(p) zeroed(p,n); if(p) memset(p,a,(size_t)n); AL[MAXAL-1-a].mine=p; mock_ev("{\"e\":\"ml\",\"p\":%d,\"B\":%d,\"n\":%ld,\"b\":%ld}",R,a,n,mock_voff(p)); }
  else if(!strcmp(k,"flocal")){ int a=(int)geti(c,"B",0); ARMCI_Free_local(AL[MAXAL-1-a].mine); mock_ev("{\"e\":\"fl\",\"p\":%d,\"B\":%d}",R,a); }
  else if(!strcmp(k,"x")) do_x(c,thr);
  else if(!strcmp(k,"rmw")){ const char*op=getstr(c,"op","fadd"); int a=(int)geti(c,"A",0),t=(int)geti(c,"t",0),v=(int)geti(c,"v",1); long cell=geti(c,"c",0); char ty=AL[a].ty; int isl=mock_csize(ty)==8; int sw=!strcmp(op,"swap"); int la=(int)geti(c,"la",-1); long lc=geti(c,"lc",0); long buf[3]={0x1111111111111111L,0,0x1111111111111111L}; void*pl=la>=0?(void*)(AL[la].mine+lc*mock_pitch(AL[la].ty)):(void*)&buf[1]; if(la<0) mock_cellput(pl,ty,sw?v:-3); else if(sw) v=(int)mock_cellval(pl,AL[la].ty); int id=R*1000+(++nextid);
    mock_ev("{\"e\":\"rmw\",\"p\":%d,\"id\":%d,\"op\":\"%s\",\"t\":%d,\"A\":%d,\"c\":%ld,\"v\":%d,\"la\":%d,\"lc\":%ld}",R,id,op,t,a,cell,v,la,lc);
    int rc=ARMCI_Rmw(sw?(isl?ARMCI_SWAP_LONG:ARMCI_SWAP):(isl?ARMCI_FETCH_AND_ADD_LONG:ARMCI_FETCH_AND_ADD),pl,aaddr(a,(int)geti(c,"pt",t),cell),sw?(int)0x5a5a:v,t);
    int clean=la>=0||(buf[0]==0x1111111111111111L&&buf[2]==0x1111111111111111L&&(isl||((int*)&buf[1])[1]==0));
    mock_ev("{\"e\":\"rmwr\",\"p\":%d,\"id\":%d,\"rc\":%d,\"r\":%ld,\"ok\":%d}",R,id,rc,mock_cellval(pl,ty),clean); }
  /* handles */
  else if(!strcmp(k,"hinit")){ int h=(int)geti(c,"h",0); memset(&H[h],0x5c,sizeof H[h]); ARMCI_INIT_HANDLE(&H[h]); mock_ev("{\"e\":\"hi\",\"p\":%d,\"h\":%d}",R,h); }
  else if(!strcmp(k,"hagg")){ int h=(int)geti(c,"h",0); ARMCI_SET_AGGREGATE_HANDLE(&H[h]); }
  else if(!strcmp(k,"hunagg")){ int h=(int)geti(c,"h",0); ARMCI_UNSET_AGGREGATE_HANDLE(&H[h]); }
  else if(!strcmp(k,"wait")){ int h=(int)geti(c,"h",0); mock_ev("{\"e\":\"w\",\"p\":%d,\"h\":%d}",R,h); int rc=ARMCI_Wait(&H[h]); sbp(&b,"{\"e\":\"wr\",\"p\":%d,\"h\":%d,\"k\":\"h\",\"t\":-1,\"rc\":%d",R,h,rc); completion_list(&b,sel_handle,h); sbp(&b,"}"); emit(&b); completion_retire(); }
  else if(!strcmp(k,"test")){ int h=(int)geti(c,"h",0); long max=geti(c,"max",1); /* up to max polls */ for(long i=0;i<max;i++){ mock_ev("{\"e\":\"w\",\"p\":%d,\"h\":%d}",R,h); int rc=ARMCI_Test(&H[h]); if(rc==0){ sbp(&b,"{\"e\":\"wr\",\"p\":%d,\"h\":%d,\"k\":\"h\",\"t\":-1,\"rc\":%d",R,h,rc); completion_list(&b,sel_handle,h); sbp(&b,"}"); emit(&b); completion_retire(); break; } mock_ev("{\"e\":\"tr\",\"p\":%d,\"h\":%d,\"rc\":%d,\"n\":%ld}",R,h,rc,i+1); mock_yield(); } }
  else if(!strcmp(k,"waitproc")||!strcmp(k,"waitall")){ int t=(int)geti(c,"t",-1); int all=k[4]=='a'; mock_ev("{\"e\":\"w\",\"p\":%d,\"h\":-1}",R); int rc=all?ARMCI_WaitAll():ARMCI_WaitProc(t); sbp(&b,"{\"e\":\"wr\",\"p\":%d,\"h\":-1,\"k\":\"%s\",\"t\":%d,\"rc\":%d",R,all?"a":"p",t,rc); completion_list(&b,all?sel_all:sel_proc,t); sbp(&b,"}"); emit(&b); completion_retire(); }
  /* ordering */
  else if(!strcmp(k,"fence")){ int t=(int)geti(c,"t",-1); mock_ev("{\"e\":\"fe\",\"p\":%d,\"th\":%d,\"t\":%d}",R,thr,t); if(t<0) ARMCI_AllFence(); else ARMCI_Fence(t); mock_ev("{\"e\":\"fer\",\"p\":%d,\"th\":%d,\"t\":%d}",R,thr,t); }
  else if(!strcmp(k,"bar")){ const char*v=getstr(c,"k","A"); int g=(int)geti(c,"g",0); mock_ev("{\"e\":\"ba\",\"p\":%d,\"k\":\"%s\",\"g\":%d}",R,v,g); if(*v=='A') ARMCI_Barrier(); else if(*v=='M') armci_msg_barrier(); else armci_msg_group_barrier(&G[g]); mock_ev("{\"e\":\"bar\",\"p\":%d,\"k\":\"%s\",\"g\":%d}",R,v,g); }
  /* direct local access */
  else if(!strcmp(k,"opn")||!strcmp(k,"cls")){ alloc_t*A=&AL[(int)geti(c,"A",0)]; char*p=A->mine+geti(c,"c",0)*mock_pitch(A->ty); if(*k=='o') ARMCI_Access_begin(p); else { ARMCI_Access_end(p); mock_ev("{\"e\":\"str\",\"p\":%d,\"A\":%d}",R,(int)geti(c,"A",0)); } mock_ev("{\"e\":\"ae\",\"p\":%d}",R); }   /* an access epoch around other commands */
  else if(!strcmp(k,"st")||!strcmp(k,"ld")){ int a=(int)geti(c,"A",0); long cell=geti(c,"c",0); int n=(int)geti(c,"n",1); long v=geti(c,"v",0); alloc_t*A=&AL[a]; long cs=mock_pitch(A->ty); int dla=(int)geti(c,"dla",1); char*p=A->mine+cell*cs; if(dla) ARMCI_Access_begin(p); if(*k=='s'){ int vv[MAXLIST]; for(int i=0;i<n;i++) vv[i]=(int)(v+i); sbp(&b,"{\"e\":\"st\",\"p\":%d,\"A\":%d,\"c\":%ld",R,a,cell); sblist(&b,"v",vv,n); sbp(&b,"}"); emit(&b); for(int i=0;i<n;i++) mock_cellput(p+i*cs,A->ty,vv[i]); if(dla){ ARMCI_Access_end(p); dla=0; mock_ev("{\"e\":\"str\",\"p\":%d,\"A\":%d}",R,a); } mock_ev("{\"e\":\"ae\",\"p\":%d}",R); } else { sbp(&b,"{\"e\":\"ld\",\"p\":%d,\"A\":%d,\"c\":%ld",R,a,cell); sbcells(&b,"v",p,n,A->ty); sbp(&b,"}"); emit(&b); } if(dla) ARMCI_Access_end(p); if(dla) mock_ev("{\"e\":\"ae\",\"p\":%d}",R); }
  else if(!strcmp(k,"poll")){ int a=(int)geti(c,"A",0); long cell=geti(c,"c",0); long v=geti(c,"v",0); alloc_t*A=&AL[a]; long cs=mock_pitch(A->ty); char*p=A->mine+cell*cs; while(mock_cellval(p,A->ty)!=v){ ARMCIX_Progress(); mock_yield(); } sbp(&b,"{\"e\":\"ld\",\"p\":%d,\"A\":%d,\"c\":%ld",R,a,cell); sbcells(&b,"v",p,1,A->ty); sbp(&b,"}"); emit(&b); }
  else if(!strcmp(k,"progress")) ARMCIX_Progress();
  /* mutexes */
  else if(!strcmp(k,"mcreate")){ int n=(int)geti(c,"n",1); mock_ev("{\"e\":\"mc\",\"p\":%d,\"H\":-1,\"g\":0,\"n\":%d}",R,n); mock_use="mc"; int rc=ARMCI_Create_mutexes(n); mock_use=""; mock_ev("{\"e\":\"mcr\",\"p\":%d,\"H\":-1,\"rc\":%d}",R,rc); }
  else if(!strcmp(k,"mdestroy")){ mock_ev("{\"e\":\"md\",\"p\":%d,\"H\":-1}",R); int rc=ARMCI_Destroy_mutexes(); mock_ev("{\"e\":\"mdr\",\"p\":%d,\"H\":-1,\"rc\":%d}",R,rc); }
  else if(!strcmp(k,"hmcreate")){ int h=(int)geti(c,"H",0),g=(int)geti(c,"g",0),n=(int)geti(c,"n",1); mock_ev("{\"e\":\"mc\",\"p\":%d,\"H\":%d,\"g\":%d,\"n\":%d}",R,h,g,n); mock_use="mc"; HM[h]=ARMCIX_Create_mutexes_hdl(n,&G[g]); mock_use=""; mock_ev("{\"e\":\"mcr\",\"p\":%d,\"H\":%d,\"rc\":%d}",R,h,HM[h]==NULL); }
  else if(!strcmp(k,"hmdestroy")){ int h=(int)geti(c,"H",0); mock_ev("{\"e\":\"md\",\"p\":%d,\"H\":%d}",R,h); int rc=ARMCIX_Destroy_mutexes_hdl(HM[h]); mock_ev("{\"e\":\"mdr\",\"p\":%d,\"H\":%d,\"rc\":%d}",R,h,rc); }
  else if(!strcmp(k,"lock")||!strcmp(k,"unlock")||!strcmp(k,"trylock")){ int h=(int)geti(c,"H",-1),m=(int)geti(c,"m",0),t=(int)geti(c,"t",0); int w=(int)geti(c,"w",t); /* t: rank in the handle's group, w: its world rank */
    const char*ev=*k=='l'?"lk":*k=='u'?"ul":"tl"; mock_ev("{\"e\":\"%s\",\"p\":%d,\"th\":%d,\"H\":%d,\"m\":%d,\"t\":%d}",ev,R,thr,h,m,w); int rc=0; if(*k=='l'){ if(h<0) ARMCI_Lock(m,t); else ARMCIX_Lock_hdl(HM[h],m,t); } else if(*k=='u'){ if(h<0) ARMCI_Unlock(m,t); else ARMCIX_Unlock_hdl(HM[h],m,t); } else rc=ARMCIX_Trylock_hdl(HM[h],m,t); mock_ev("{\"e\":\"%sr\",\"p\":%d,\"th\":%d,\"H\":%d,\"m\":%d,\"t\":%d,\"rc\":%d}",ev,R,thr,h,m,w,rc);
    if(*k=='t'&&geti(c,"auto",0)&&rc==0){ for(int i=0;i<(int)geti(c,"auto",0);i++) mock_yield(); mock_ev("{\"e\":\"ul\",\"p\":%d,\"th\":%d,\"H\":%d,\"m\":%d,\"t\":%d}",R,thr,h,m,w); ARMCIX_Unlock_hdl(HM[h],m,t); mock_ev("{\"e\":\"ulr\",\"p\":%d,\"th\":%d,\"H\":%d,\"m\":%d,\"t\":%d,\"rc\":0}",R,thr,h,m,w); } }
  /* groups */
  else if(!strcmp(k,"gcreate")||!strcmp(k,"gchild")){ int g=(int)geti(c,"G",1),pg=(int)geti(c,"P",-1); int n=getl(c,"mem",L); int *pl=malloc(sizeof(int)*(size_t)(n+1)); memcpy(pl,L,sizeof(int)*(size_t)n); memset(&G[g],geti(c,"junk",1)?0x5c:0,sizeof G[g]); sbp(&b,"{\"e\":\"gc\",\"p\":%d,\"G\":%d,\"P\":%d",R,g,pg); sblist(&b,"mem",L,n); sbp(&b,"}"); emit(&b); if(k[1]=='c'&&k[2]=='r') ARMCI_Group_create(n,pl,&G[g]); else ARMCI_Group_create_child(n,pl,&G[g],&G[pg]); free(pl); sbp(&b,"{\"e\":\"gr\",\"p\":%d,\"G\":%d",R,g); group_info(&b,g); sbp(&b,"}"); emit(&b); }
  else if(!strcmp(k,"gsplit")){ int g=(int)geti(c,"G",1),pg=(int)geti(c,"P",0),co=(int)geti(c,"color",0),ke=(int)geti(c,"key",0); memset(&G[g],0x5c,sizeof G[g]); mock_ev("{\"e\":\"gs\",\"p\":%d,\"G\":%d,\"P\":%d,\"color\":%d,\"key\":%d}",R,g,pg,co,ke); int rc=ARMCIX_Group_split(&G[pg],co==-1?MPI_UNDEFINED:co,ke,&G[g]); sbp(&b,"{\"e\":\"gr\",\"p\":%d,\"G\":%d,\"rc\":%d",R,g,rc); group_info(&b,g); sbp(&b,"}"); emit(&b); }
  else if(!strcmp(k,"gdup")){ int g=(int)geti(c,"G",1),pg=(int)geti(c,"P",0); memset(&G[g],0x5c,sizeof G[g]); mock_ev("{\"e\":\"gd\",\"p\":%d,\"G\":%d,\"P\":%d}",R,g,pg); int rc=ARMCIX_Group_dup(&G[pg],&G[g]); sbp(&b,"{\"e\":\"gr\",\"p\":%d,\"G\":%d,\"rc\":%d",R,g,rc); group_info(&b,g); sbp(&b,"}"); emit(&b); }
  else if(!strcmp(k,"gfree")){ int g=(int)geti(c,"G",1); mock_ev("{\"e\":\"gf\",\"p\":%d,\"G\":%d}",R,g); ARMCI_Group_free(&G[g]); int rk=-99,sz=-99; int rrc=ARMCI_Group_rank(&G[g],&rk); ARMCI_Group_size(&G[g],&sz); mock_ev("{\"e\":\"gfr\",\"p\":%d,\"G\":%d,\"rrc\":%d,\"rank\":%d,\"size\":%d}",R,g,rrc,rk,sz); }
  else if(!strcmp(k,"gquery")){ int g=(int)geti(c,"G",0); sbp(&b,"{\"e\":\"gq\",\"p\":%d,\"G\":%d",R,g); group_info(&b,g); sbp(&b,"}"); emit(&b); }
  else if(!strcmp(k,"gdef")){ int g=(int)geti(c,"G",0); ARMCI_Group_set_default(&G[g]); mock_ev("{\"e\":\"gdef\",\"p\":%d,\"G\":%d}",R,g); }
  else if(!strcmp(k,"ggetdef")){ int g=(int)geti(c,"G",MAXG-1); ARMCI_Group_get_default(&G[g]); sbp(&b,"{\"e\":\"gqd\",\"p\":%d,\"G\":%d",R,g); group_info(&b,g); sbp(&b,"}"); emit(&b); }
  else if(!strcmp(k,"ggetworld")){ int g=(int)geti(c,"G",MAXG-1); ARMCI_Group_get_world(&G[g]); sbp(&b,"{\"e\":\"gqw\",\"p\":%d,\"G\":%d",R,g); group_info(&b,g); sbp(&b,"}"); emit(&b); }
  /* messages */
  else if(!strcmp(k,"snd")){ int n=(int)geti(c,"n",1),tag=(int)geti(c,"tag",0),t=(int)geti(c,"t",0),v=(int)geti(c,"v",1); int la=(int)geti(c,"la",-1); long lc=geti(c,"lc",0); int cs=mock_csize('i'); char*x=la>=0?AL[la].mine+lc*cs:malloc((size_t)cs*(size_t)(n+1)); if(la<0) for(int i=0;i<n;i++) mock_cellput(x+i*cs,'i',v+i); sbp(&b,"{\"e\":\"sn\",\"p\":%d,\"t\":%d,\"tag\":%d",R,t,tag); sbcells(&b,"v",x,n,'i'); sbp(&b,"}"); emit(&b); armci_msg_snd(tag,x,n*cs,t); sbp(&b,"{\"e\":\"snr\",\"p\":%d",R); sbcells(&b,"v",x,n,'i'); sbp(&b,"}"); emit(&b); if(la<0){ memset(x,SCRIB,(size_t)cs*(size_t)n); free(x);} }
  else if(!strcmp(k,"rcv")||!strcmp(k,"rcvany")){ int n=(int)geti(c,"n",1),tag=(int)geti(c,"tag",0),t=(int)geti(c,"t",0),nolen=(int)geti(c,"nolen",0); int la=(int)geti(c,"la",-1); long lc=geti(c,"lc",0); int cs=mock_csize('i'); char*x=la>=0?AL[la].mine+lc*cs:malloc((size_t)cs*(size_t)(n+2)); if(la<0) for(int i=0;i<n+1;i++) mock_cellput(x+i*cs,'i',-5); int len=-77; int any=k[3]=='a'; mock_ev("{\"e\":\"rc\",\"p\":%d,\"t\":%d,\"tag\":%d,\"n\":%d,\"la\":%d,\"lc\":%ld}",R,any?-1:t,tag,n,la,lc); int from=t; if(any) from=armci_msg_rcvany(tag,x,n*cs,nolen?NULL:&len); else armci_msg_rcv(tag,x,n*cs,nolen?NULL:&len,t); sbp(&b,"{\"e\":\"rcr\",\"p\":%d,\"t\":%d,\"tag\":%d,\"la\":%d,\"lc\":%ld,\"len\":%d",R,from,tag,la,lc,nolen?-4:len>0&&cs>4&&len%(cs/4)==0?len/(cs/4):len); sbcells(&b,"v",x,la<0?n+1:n,'i'); sbp(&b,"}"); emit(&b); if(la<0) free(x); }
  else if(!strcmp(k,"bcast")){ const char*api=getstr(c,"api","b"); int g=(int)geti(c,"g",0),n=(int)geti(c,"n",1),root=(int)geti(c,"root",0),v=(int)geti(c,"v",1); const char*sc=getstr(c,"s","a"); int la=(int)geti(c,"la",-1); long lc=geti(c,"lc",0); int cs=mock_csize('i'); char*x=la>=0?AL[la].mine+lc*cs:malloc((size_t)cs*(size_t)(n+2)); if(la<0) for(int i=0;i<=n;i++) mock_cellput(x+i*cs,'i',v+i); int w=(int)geti(c,"w",root);
    sbp(&b,"{\"e\":\"co\",\"p\":%d,\"k\":\"bcast\",\"g\":%d,\"s\":\"%s\",\"root\":%d,\"op\":\"\",\"ty\":\"i\",\"la\":%d,\"lc\":%ld",R,g,sc,w,la,lc); sbcells(&b,"v",(char*)x,n,'i'); sbp(&b,"}"); emit(&b);
    if(*api=='b') armci_msg_bcast(x,n*cs,root); else if(*api=='r') armci_msg_brdcst(x,n*cs,root); else if(*api=='s') armci_msg_bcast_scope(scopeof(sc),x,n*cs,root); else armci_msg_group_bcast_scope(scopeof(sc),x,n*cs,root,&G[g]);
    sbp(&b,"{\"e\":\"cor\",\"p\":%d,\"g\":%d,\"la\":%d,\"lc\":%ld",R,g,la,lc); sbcells(&b,"v",(char*)x,n,'i'); sbp(&b,",\"over\":%d}",la<0&&mock_cellval(x+n*cs,'i')!=v+n); emit(&b); if(la<0) free(x); }
  else if(!strcmp(k,"gop")){ const char*api=getstr(c,"api","t"); const char*op=getstr(c,"op","+"); int g=(int)geti(c,"g",0); const char*sc=getstr(c,"s","a"); char ty=getstr(c,"ty","i")[0]; char et=ty=='q'?'l':ty; int raw=(int)geti(c,"raw",0); int nv=getl(c,"v",L); int cs=mock_csize(et); int W=mock_wide(), ne=nv*W; /* W elements for each value */ int la=(int)geti(c,"la",-1); long lc=geti(c,"lc",0); /* in global memory of ints: what is there, v only gives the number */
    char*x=la>=0?AL[la].mine+lc*cs:malloc((size_t)((nv+1)*cs)); if(la>=0) for(int i=0;i<nv;i++) L[i]=(int)mock_cellval(x+i*cs,et); else if(raw){ for(int i=0;i<ne+W;i++){ long q=i<ne?L[i/W]:-5; switch(et){ case 'i': ((int*)x)[i]=(int)q; break; case 'l': case 'o': ((long*)x)[i]=q; break; case 'f': ((float*)x)[i]=(float)q; break; default: ((double*)x)[i]=(double)q; } } } else for(int i=0;i<=nv;i++) mock_cellput(x+i*cs,et,i<nv?L[i]:-5);
    sbp(&b,"{\"e\":\"co\",\"p\":%d,\"k\":\"gop\",\"g\":%d,\"s\":\"%s\",\"root\":-1,\"op\":\"%s\",\"ty\":\"%c\",\"la\":%d,\"lc\":%ld",R,g,sc,opname(opindex(op)),ty,la,lc); sblist(&b,"v",L,nv); sbp(&b,"}"); emit(&b);
    char ops[16]; snprintf(ops,sizeof ops,"%s",op); ARMCI_Group*gp=&G[g];
    if(*api=='t'){ switch(ty){ case 'i': armci_msg_igop((int*)x,ne,ops); break; case 'l': armci_msg_lgop((long*)x,ne,ops); break; case 'q': armci_msg_llgop((long long*)x,ne,ops); break; case 'f': armci_msg_fgop((float*)x,ne,ops); break; default: armci_msg_dgop((double*)x,ne,ops);} }
    else if(*api=='g'){ switch(ty){ case 'i': armci_msg_group_igop((int*)x,ne,ops,gp); break; case 'l': armci_msg_group_lgop((long*)x,ne,ops,gp); break; case 'q': armci_msg_group_llgop((long long*)x,ne,ops,gp); break; case 'f': armci_msg_group_fgop((float*)x,ne,ops,gp); break; default: armci_msg_group_dgop((double*)x,ne,ops,gp);} }
    else if(*api=='s') armci_msg_gop_scope(scopeof(sc),x,ne,ops,msgtype(ty)); else armci_msg_group_gop_scope(scopeof(sc),x,ne,ops,msgtype(ty),gp);
    sbp(&b,"{\"e\":\"cor\",\"p\":%d,\"g\":%d,\"la\":%d,\"lc\":%ld",R,g,la,lc); int over=0; if(raw){ int out[MAXLIST]; for(int i=0;i<ne+W;i++){ double q; if(i==ne&&la>=0) break; switch(et){ case 'i': q=((int*)x)[i]; break; case 'l': case 'o': q=(double)((long*)x)[i]; break; case 'f': q=((float*)x)[i]; break; default: q=((double*)x)[i]; } int o=(q>-2e9&&q<2e9&&q==(double)(int)q)?(int)q:-777777777; if(i>=ne) over|=q!=-5; else if(i%W==0) out[i/W]=o; else if(out[i/W]!=o) out[i/W]=-777777777; } sblist(&b,"v",out,nv); } else { sbcells(&b,"v",x,nv,et); if(la<0) over=mock_cellval(x+nv*cs,et)!=-5; } sbp(&b,",\"over\":%d}",over); emit(&b); if(la<0) free(x); }
  else if(!strcmp(k,"sel")){ const char*op=getstr(c,"op","min"); char ty=getstr(c,"ty","i")[0]; char et=ty=='q'?'l':ty; int contrib=(int)geti(c,"contrib",1); const char*sc=getstr(c,"s","a"); int v=(int)geti(c,"v",0); int np=(int)geti(c,"np",2); /* payload ints after the key */ int ks=mock_csize(et)<4?4:mock_csize(et); int len=ks+np*4; int la=(int)geti(c,"la",-1); long lc=geti(c,"lc",0); /* in global memory: two cells, key and payload */ char*x=la>=0?AL[la].mine+lc*4:malloc((size_t)len+8); if(la<0) memset(x,0x6b,(size_t)len+8); int pay0=(int)geti(c,"pay",0); if(la<0){ if(et=='l'){ long kv=(long)v*SELUNIT; memcpy(x,&kv,8); } else mock_cellput(x,et,v); for(int i=0;i<np;i++) { int w=pay0+i; memcpy(x+ks+4*i,&w,4); } } else { v=(int)mock_cellval(x,et); pay0=(int)mock_cellval(x+4,'i'); } 
    mock_ev("{\"e\":\"co\",\"p\":%d,\"k\":\"sel\",\"g\":0,\"s\":\"%s\",\"root\":%d,\"op\":\"%s\",\"ty\":\"%c\",\"la\":%d,\"lc\":%ld,\"v\":[%d,%d]}",R,sc,contrib,op,ty,la,lc,v,pay0); char ops[8]; snprintf(ops,sizeof ops,"%s",op);
    if(!strcmp(getstr(c,"api","s"),"s")) armci_msg_sel_scope(scopeof(sc),x,len,ops,msgtype(ty),contrib); else armci_msg_sel(x,len,ops,msgtype(ty),contrib); int pay=0,okp=1; for(int i=0;i<np;i++){ int w; memcpy(&w,x+ks+4*i,4); if(i==0) pay=w; else if(w!=pay+i) okp=0; } int over=!okp; if(la<0) for(int i=0;i<8;i++) if(x[len+i]!=0x6b) over=1; long key; if(la<0&&et=='l'){ memcpy(&key,x,8); key=key%SELUNIT?-777777777:key/SELUNIT; } else key=mock_cellval(x,et); mock_ev("{\"e\":\"cor\",\"p\":%d,\"g\":0,\"la\":%d,\"lc\":%ld,\"v\":[%ld,%d],\"over\":%d}",R,la,lc,key,pay,over); if(la<0) free(x); }
  else if(!strcmp(k,"bintree")){ int r=-77,u=-77,l=-77,q=-77; armci_msg_bintree(scopeof(getstr(c,"s","a")),&r,&u,&l,&q); mock_ev("{\"e\":\"bt\",\"p\":%d,\"s\":\"%s\",\"root\":%d,\"up\":%d,\"left\":%d,\"right\":%d}",R,getstr(c,"s","a"),r,u,l,q); }
  else if(!strcmp(k,"topo")){ sbp(&b,"{\"e\":\"tp\",\"p\":%d,\"me\":%d,\"np\":%d,\"cnt\":%d,\"myid\":%d",R,armci_msg_me(),armci_msg_nproc(),armci_domain_count(ARMCI_DOMAIN_SMP),armci_domain_my_id(ARMCI_DOMAIN_SMP)); int np=armci_msg_nproc(); for(int i=0;i<np;i++) L[i]=armci_domain_id(ARMCI_DOMAIN_SMP,i); sblist(&b,"id",L,np); for(int i=0;i<np;i++) L[i]=armci_domain_same_id(ARMCI_DOMAIN_SMP,i)!=0; sblist(&b,"same",L,np); for(int i=0;i<np;i++) L[i]=ARMCI_Same_node(i)!=0; sblist(&b,"node",L,np); for(int i=0;i<np;i++) L[i]=armci_domain_nprocs(ARMCI_DOMAIN_SMP,i); sblist(&b,"nprocs",L,np); int d=0; for(int i=0;i<np;i++){ int q=armci_domain_nprocs(ARMCI_DOMAIN_SMP,armci_domain_id(ARMCI_DOMAIN_SMP,i)); int f=-1; for(int j=0;j<q;j++) if(armci_domain_glob_proc_id(ARMCI_DOMAIN_SMP,armci_domain_id(ARMCI_DOMAIN_SMP,i),j)==i) f=j; L[i]=f; (void)d; } sblist(&b,"loc",L,np); MPI_Comm wc; int wr=-1,ws=-1; ARMCI_Group wg; ARMCIX_Get_world_comm(&wc); MPI_Comm_rank(wc,&wr); MPI_Comm_size(wc,&ws); ARMCI_Group_get_world(&wg); sbp(&b,",\"wr\":%d,\"ws\":%d,\"shm\":%d,\"shg\":%d}",wr,ws,ARMCI_Uses_shm()!=0,ARMCI_Uses_shm_grp(&wg)!=0); emit(&b); }
  else if(!strcmp(k,"shm")) ARMCI_Set_shm_limit((unsigned long)geti(c,"v",0)); /* changes nothing */
  else if(!strcmp(k,"packs")||!strcmp(k,"unpacks")){ /* armci_write_strided: strided -> packed; armci_read_strided: packed -> strided */ int st[16],cnt[16]; int nc=getl(c,"cnt",cnt); getl(c,"st",st); long ext=geti(c,"ext",16), lo=geti(c,"lo",0); long tot=1; int W=mock_wide(); for(int i=0;i<nc;i++) tot*=cnt[i]; char*x=malloc((size_t)(ext*W)),*y=malloc((size_t)((tot+2)*W)); int w=*k=='p'; for(long i=0;i<ext;i++) mock_cellput(x+i*W,'b',w?i%250+1:0); for(long i=0;i<tot+2;i++) mock_cellput(y+i*W,'b',w?0:i%250+1); sbp(&b,"{\"e\":\"pk\",\"p\":%d,\"w\":%d,\"lo\":%ld",R,w,lo); sblist(&b,"st",st,nc-1); sblist(&b,"cnt",cnt,nc); sbcells(&b,"X0",x,ext,'b'); sbcells(&b,"Y0",y,tot+2,'b'); if(nc>0) cnt[0]*=W; for(int i=0;i<nc-1;i++) st[i]*=W; if(w) armci_write_strided(x+lo*W,nc-1,st,cnt,y); else armci_read_strided(x+lo*W,nc-1,st,cnt,y); sbcells(&b,"X1",x,ext,'b'); sbcells(&b,"Y1",y,tot+2,'b'); sbp(&b,"}"); emit(&b); free(x); free(y); }
  else if(!strcmp(k,"copy")){ int n=(int)geti(c,"n",4); int W=mock_wide(); char*x=malloc((size_t)(300*W)),*y=malloc((size_t)(300*W)); for(int i=0;i<300;i++){ mock_cellput(x+i*W,'b',i%250+1); mock_cellput(y+i*W,'b',0); } ARMCI_Copy(x,y,n*W); sbp(&b,"{\"e\":\"cp\",\"p\":%d,\"n\":%d",R,n); sbcells(&b,"x",(char*)x,n+4,'b'); sbcells(&b,"y",(char*)y,n+4,'b'); sbp(&b,"}"); emit(&b); free(x); free(y); }
  else if(!strcmp(k,"focus")) mock_focus((int)geti(c,"n",1));
  else if(!strcmp(k,"ct")) ctree_ops(getstr(c,"ops",""));
  else if(!strcmp(k,"yield")){ int n=(int)geti(c,"n",1); for(int i=0;i<n;i++) mock_yield(); }
  else if(!strcmp(k,"spawn")){ int t=(int)geti(c,"th",1); TARG[t].script=SCRIPT; TARG[t].thr=t; TACT[t]=mock_spawn(thread_main,&TARG[t]); }
  else if(!strcmp(k,"join")) mock_join(TACT[geti(c,"th",1)]);
  else if(!strcmp(k,"res")){ long o[8]; mock_res(o); mock_ev("{\"e\":\"res\",\"p\":%d,\"comm\":%ld,\"grp\":%ld,\"dt\":%ld,\"info\":%ld,\"req\":%ld,\"win\":%ld,\"blk\":%ld,\"op\":%ld}",R,o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7]); }
  else if(!strcmp(k,"drop")){ check_dead(); for(int i=0;i<nops;i++){ xop_t*o=&OPS[i]; if(o->buf&&o->alloc_kind=='m'&&o->done!=0&&o->done!=2){ for(int d=0;d<ndead;d++) if(DEAD[d].buf==o->buf) DEAD[d].buf=NULL; ARMCI_Free_local(o->buf); o->buf=NULL; } }  }   /* gives back every local buffer that is no longer needed */
  else if(!strcmp(k,"note")) mock_ev("{\"e\":\"note\",\"p\":%d,\"v\":%ld}",R,geti(c,"v",0));
  else if(!strcmp(k,"mis")) misuse(c);
  else mock_fatal("harness","unknown command %s",k);
  check_dead();
}

/* lines "<rank|*|rank.thread> cmd ..." */
static void run_script(const char *script, int rank, int thr){
  const char *s=script; while(*s){ const char*e=strchr(s,'\n'); if(!e) e=s+strlen(s); const char*q=s; int mine=0,th=0; if(*q=='*'){ mine=1; q++; } else { char*x; long r=strtol(q,&x,10); mine=(r==R); q=x; } if(*q=='.'){ char*x; th=(int)strtol(q+1,&x,10); q=x; }
    if(mine&&th==thr&&q<e&&*q==' '){ cmd_t c; parse(q+1,e-q-1,&c); if(c.cmd[0]){ exec(&c,thr); } free(c.raw); }
    s=*e?e+1:e; } }
void driver_main(int rank, const char *script){ R=rank; SCRIPT=script; run_script(script,rank,0); }
