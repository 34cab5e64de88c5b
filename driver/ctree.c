/* Conflict tree of the library, exercised directly: ops = "n" (new tree), "i:lo:hi" (insert), "l:lo:hi" (locate), "w" (walk the tree),
   "d" (destroy), "o:size:p1:p2:.." (overlap check of vector segments), "b:k" (address base), separated by ';'. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "mock.h"
#ifdef NO_CTREE
void ctree_ops(const char *ops){ (void)ops; mock_ev("{\"e\":\"note\",\"p\":0,\"v\":0}"); }
#else
#include <armci.h>
#include <armci_internals.h>
#include <conflict_tree.h>
static uint8_t *base;
#ifndef NO_WALK
static char wb[200000]; static size_t wn;
static int walk(ctree_t t,ctree_t parent,int depth){ if(depth>64||wn>sizeof wb-200) { wn+=(size_t)sprintf(wb+wn,"-9"); return 0; }
  if(!t){ wn+=(size_t)sprintf(wb+wn,"[]"); return 0; }
  wn+=(size_t)sprintf(wb+wn,"[%ld,%ld,%d,%d,",(long)(t->lo-base),(long)(t->hi-base),t->height,t->parent==parent); walk(t->left,t,depth+1); wb[wn++]=','; walk(t->right,t,depth+1); wb[wn++]=']'; wb[wn]=0; return 0; }
#endif
void ctree_ops(const char *ops){ char *s=strdup(ops), *sp=NULL; ctree_t T=CTREE_EMPTY; base=(uint8_t*)(uintptr_t)0x1000000; mock_ev("{\"e\":\"cn\"}");
  for(char*t=strtok_r(s,";",&sp);t;t=strtok_r(NULL,";",&sp)){ char*a=strchr(t,':'); long x[200]; int n=0; while(a&&n<200){ x[n++]=strtol(a+1,&a,10); if(*a!=':') break; }
    switch(*t){
      case 'b': base=x[0]==0?(uint8_t*)(uintptr_t)0x1000000:x[0]==1?(uint8_t*)(uintptr_t)0x7fffffffffffffc0ul:x[0]==2?(uint8_t*)(uintptr_t)0xfffffffffff00000ul:(uint8_t*)(uintptr_t)0xfffffff0ul; break;
      case 'n': ctree_destroy(&T); T=CTREE_EMPTY; mock_ev("{\"e\":\"cn\"}"); break;
      case 'd': ctree_destroy(&T); mock_ev("{\"e\":\"cd\",\"empty\":%d}",T==CTREE_EMPTY); break;
      case 'i': { int r=ctree_insert(&T,base+x[0],base+x[1]); mock_ev("{\"e\":\"ci\",\"lo\":%ld,\"hi\":%ld,\"r\":%d}",x[0],x[1],r!=0); break; }
      case 'l': { ctree_t q=ctree_locate(T,base+x[0],base+x[1]);
#ifndef NO_WALK
        if(q) mock_ev("{\"e\":\"cl\",\"lo\":%ld,\"hi\":%ld,\"f\":[%ld,%ld]}",x[0],x[1],(long)(q->lo-base),(long)(q->hi-base)); else
#else
        if(q) mock_ev("{\"e\":\"cl\",\"lo\":%ld,\"hi\":%ld,\"f\":[0]}",x[0],x[1]); else
#endif
        mock_ev("{\"e\":\"cl\",\"lo\":%ld,\"hi\":%ld,\"f\":[]}",x[0],x[1]); break; }
      case 'w':
#ifndef NO_WALK
        wn=0; walk(T,NULL,0); mock_ev("{\"e\":\"cw\",\"t\":%s}",wb);
#endif
        break;
      case 'o': { void*p[200]; for(int i=1;i<n;i++) p[i-1]=base+x[i]; int save=ARMCII_GLOBAL_STATE.iov_checks; ARMCII_GLOBAL_STATE.iov_checks=1; int r=ARMCII_Iov_check_overlap(p,n-1,(int)x[0]); ARMCII_GLOBAL_STATE.iov_checks=save;
        char b[4000]; size_t k=0; for(int i=1;i<n;i++) k+=(size_t)sprintf(b+k,"%s%ld",i>1?",":"",x[i]); b[k]=0; mock_ev("{\"e\":\"cov\",\"s\":%ld,\"q\":[%s],\"r\":%d}",x[0],b,r!=0); break; }
    } }
  ctree_destroy(&T); free(s); }
#endif
