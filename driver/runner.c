/* Reads jobs on stdin, runs each on the model MPI runtime and writes the trace as ndjson.
     J <id> n=2 seed=1 sched=0 net=2 order=1 send=2 reuse=1 blk=0 steps=200000 env=ARMCI_X=1,ARMCI_Y=2
     <rank|*|rank.thread> command ...
     C 0,1,0        (forced scheduling choices)
     E                                                                                                            */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include "mock.h"
extern char **environ;
int main(int argc,char**argv){
  (void)argc;(void)argv; static char line[1<<20]; char id[128]=""; mock_cfg cfg; char *script=NULL; size_t slen=0,scap=0; char env[4096]=""; int choicesout=0, lc=1, np=0; char cfgline[4096]="";
  setvbuf(stdout,NULL,_IOFBF,1<<20); { int f=open("/dev/null",O_WRONLY); const char*ke=getenv("RUNNER_STDERR"); if(!ke){ dup2(f,2); } }
  for(;;){ if(!fgets(line,sizeof line,stdin)) break; size_t n=strlen(line); if(n&&line[n-1]=='\n') line[--n]=0;
    if(line[0]=='J'&&line[1]==' '){ memset(&cfg,0,sizeof cfg); cfg.nranks=2; cfg.seed=1; cfg.net=0; cfg.order=1; cfg.unified=1; cfg.maxsteps=200000; cfg.preempt=-1; slen=0; env[0]=0; choicesout=0; lc=1; np=0; char*sp=NULL; char*t=strtok_r(line+2," ",&sp); snprintf(id,sizeof id,"%s",t?t:""); cfgline[0]=0;
      while((t=strtok_r(NULL," ",&sp))){ char*e=strchr(t,'='); if(!e) continue; *e=0; long v=atol(e+1); if(!strcmp(t,"n")) cfg.nranks=(int)v; else if(!strcmp(t,"seed")) cfg.seed=(uint64_t)v; else if(!strcmp(t,"sched")) cfg.sched=(int)v; else if(!strcmp(t,"net")) cfg.net=(int)v; else if(!strcmp(t,"order")) cfg.order=(int)v; else if(!strcmp(t,"send")) cfg.sendm=(int)v; else if(!strcmp(t,"reuse")) cfg.reuse=(int)v; else if(!strcmp(t,"unified")) cfg.unified=(int)v; else if(!strcmp(t,"acc")) cfg.acc=(int)v; else if(!strcmp(t,"adj")) cfg.adj=(int)v; else if(!strcmp(t,"gap")) cfg.gap=v; else if(!strcmp(t,"wide")) cfg.wide=(int)v; else if(!strcmp(t,"hints")) cfg.hints=(int)v; else if(!strcmp(t,"lunit")) cfg.lunit=(int)v; else if(!strcmp(t,"dunit")) cfg.dunit=(int)v; else if(!strcmp(t,"blk")) cfg.blk=(int)v; else if(!strcmp(t,"segred")) cfg.segred=(int)v; else if(!strcmp(t,"steps")) cfg.maxsteps=v; else if(!strcmp(t,"preempt")) cfg.preempt=(int)v; else if(!strcmp(t,"env")) snprintf(env,sizeof env,"%s",e+1); else if(!strcmp(t,"lc")) lc=(int)v; else if(!strcmp(t,"np")) np=(int)v; else if(!strcmp(t,"choices")) choicesout=(int)v; } }
    else if(line[0]=='C'&&line[1]==' '){ char*s=line+2; while(*s&&cfg.nprefix<4096){ cfg.prefix[cfg.nprefix++]=(int)strtol(s,&s,10); if(*s==',') s++; } }
    else if(!strcmp(line,"E")){ 
      /* environment of the job only */ for(int i=0;environ[i];){ if(!strncmp(environ[i],"ARMCI",5)||!strncmp(environ[i],"MPIR",4)){ char nm[256]; snprintf(nm,sizeof nm,"%.*s",(int)(strchr(environ[i],'=')-environ[i]),environ[i]); unsetenv(nm); } else i++; }
      char*sp=NULL; char ec[4096]; snprintf(ec,sizeof ec,"%s",env); for(char*t=strtok_r(ec,",",&sp);t;t=strtok_r(NULL,",",&sp)){ char*e=strchr(t,'='); if(e){ *e=0; for(char*q=e+1;*q;q++) { if(*q==';') *q=','; if(*q=='~') *q=' '; } setenv(t,e+1,1); } }
      int outcome,nch,*ch,*wd; if(!script){ script=calloc(1,1); } script[slen]=0; const char*tr=mock_run(&cfg,script,&outcome,&ch,&wd,&nch);
      printf("{\"e\":\"job\",\"id\":\"%s\",\"n\":%d,\"lc\":%d,\"env\":\"%s\"}\n",id,np?np:cfg.nranks,lc,env); fputs(tr,stdout); printf("{\"e\":\"jobend\",\"id\":\"%s\",\"outcome\":%d",id,outcome);
      if(choicesout){ printf(",\"ch\":["); for(int i=0;i<nch;i++) printf("%s%d",i?",":"",ch[i]); printf("],\"wd\":["); for(int i=0;i<nch;i++) printf("%s%d",i?",":"",wd[i]); printf("]"); }
      printf("}\n"); fflush(stdout); slen=0; id[0]=0; }
    else { if(slen+n+2>scap){ scap=(slen+n+2)*2+65536; script=realloc(script,scap); } memcpy(script+slen,line,n); slen+=n; script[slen++]='\n'; script[slen]=0; } }
  return 0; }
