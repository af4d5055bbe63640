// Concrete meaning of the harness interface: replays decision traces against the natively compiled code.
// stdin: one job per line "ID ENTRY V1 V2 ...";  stdout: one line per job "ID STATUS|DETAIL|LOG,LOG,..."
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
static uint64_t *T; static size_t nT, pT; static int allow; static int out=-1; static uint64_t logs[65536]; static size_t nlogs;
static void fin(const char*st,const char*d,size_t n){ char b[512]; int k=snprintf(b,sizeof b,"%s|",st); if(n>300) n=300; for(size_t i=0;i<n&&k<480;i++) b[k++]=(d[i]=='|'||d[i]=='\n')?' ':d[i]; b[k++]='|'; if(write(out,b,k)<0){} 
  for(size_t i=0;i<nlogs;i++){ k=snprintf(b,sizeof b,i?",%llu":"%llu",(unsigned long long)logs[i]); if(write(out,b,k)<0){} } _exit(0); }
static uint64_t nxt(void){ if(pT>=nT) fin("exhausted","",0); return T[pT++]; }
uint8_t sym_u8(void){ return (uint8_t)nxt(); } uint16_t sym_u16(void){ return (uint16_t)nxt(); } uint32_t sym_u32(void){ return (uint32_t)nxt(); } uint64_t sym_u64(void){ return nxt(); }
void sym_assume(uint8_t c){ if(!c) fin("assume","",0); }
void sym_assert(uint8_t c,const char*p,size_t n){ if(!c) fin("assert",p,n); }
uint32_t sym_choose(uint32_t n){ uint32_t v=(uint32_t)nxt(); if(v>=n) fin("assume","choose",6); return v; }
void sym_reach(const char*p,size_t n){ (void)p;(void)n; }
void sym_allow_panic(uint32_t c){ allow=(int)c; }
void sym_log(uint64_t x){ if(nlogs<65536) logs[nlogs++]=x; }
void sym_limit(uint64_t x){ (void)x; }
uint64_t sym_concretize(uint64_t x){ return x; }
uint8_t sym_is_symbolic(uint64_t x){ (void)x; return 0; }
void sym_tag(const char*p,size_t n){ if(write(2,"input: ",7)<0||write(2,p,n)<0||write(2,"\n",1)<0){} }
static void onabrt(int s){ (void)s; if(allow) fin("ok","",0); fin("panic","",0); }
static void onsegv(int s){ (void)s; fin("segv","",0); }
static void onalrm(int s){ (void)s; fin("timeout","",0); }
int sym_native_main(size_t n,const char*const*names,const size_t*lens,void(*const*fns)(void)){
  char*line=NULL; size_t cap=0; ssize_t len; setvbuf(stdout,NULL,_IOLBF,0); int tmo=getenv("SYM_TIMEOUT")?atoi(getenv("SYM_TIMEOUT")):10;
  while((len=getline(&line,&cap,stdin))>0){
    char*id=strtok(line," \n"); char*en=strtok(NULL," \n"); if(!id||!en) continue;
    size_t k; for(k=0;k<n;k++) if(lens[k]==strlen(en)&&!memcmp(names[k],en,lens[k])) break;
    if(k==n){ printf("%s noentry||\n",id); continue; }
    nT=0; pT=0; T=realloc(NULL,sizeof(uint64_t)*(len+1)); for(char*t;(t=strtok(NULL," \n"));) T[nT++]=strtoull(t,NULL,10);
    int p[2]; if(pipe(p)) return 2; fflush(stdout);
    pid_t c=fork();
    if(c==0){ close(p[0]); out=p[1]; int dn=open("/dev/null",O_WRONLY); if(!getenv("SYM_STDERR")) dup2(dn,2); 
      stack_t ss; ss.ss_size=1<<16; ss.ss_sp=malloc(ss.ss_size); ss.ss_flags=0; sigaltstack(&ss,NULL); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_flags=SA_ONSTACK;
      sa.sa_handler=onabrt; sigaction(SIGABRT,&sa,NULL); sigaction(SIGILL,&sa,NULL); sigaction(SIGTRAP,&sa,NULL); sa.sa_handler=onsegv; sigaction(SIGSEGV,&sa,NULL); sigaction(SIGBUS,&sa,NULL); sa.sa_handler=onalrm; sigaction(SIGALRM,&sa,NULL);
      struct rlimit rl={4ul<<30,4ul<<30}; setrlimit(RLIMIT_AS,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
      alarm(tmo); fns[k](); fin("ok","",0); }
    close(p[1]); printf("%s ",id); char b[4096]; ssize_t r; int any=0; while((r=read(p[0],b,sizeof b))>0){ fwrite(b,1,r,stdout); any=1; } close(p[0]);
    int st; waitpid(c,&st,0); if(!any) printf("died|%d|",WIFSIGNALED(st)?WTERMSIG(st):0); printf("\n"); fflush(stdout); free(T);
  }
  return 0;
}
