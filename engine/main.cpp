// oaksym: symbolic executor for rustc whole-program LLVM bitcode.
#include "ir.h"
#include "solver.h"
#include <chrono>
#include <set>
#include <map>
#include <cassert>
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using std::vector;

// ---------- memory ----------
struct Obj { u32 rc; u32 size; u8 freed; u8 constant; u8* data; Expr** sym; };
static Obj* newObj(u32 size){ Obj*o=new Obj(); o->rc=1; o->size=size; o->freed=0; o->constant=0; o->data=(u8*)calloc(size?size:1,1); o->sym=nullptr; return o; }
static void decObj(Obj*o){ if(o&&--o->rc==0){ free(o->data); free(o->sym); delete o; } }
static Obj* cloneObj(Obj*o){ Obj*n=new Obj(*o); n->rc=1; n->data=(u8*)malloc(o->size?o->size:1); memcpy(n->data,o->data,o->size); if(o->sym){ n->sym=(Expr**)malloc(sizeof(Expr*)*o->size); memcpy(n->sym,o->sym,sizeof(Expr*)*o->size);} return n; }
struct Chunk { u32 rc; Obj* o[64]; };
static Chunk* newChunk(){ Chunk*c=(Chunk*)calloc(1,sizeof(Chunk)); c->rc=1; return c; }
static void decChunk(Chunk*c){ if(c&&--c->rc==0){ for(int i=0;i<64;i++) decObj(c->o[i]); free(c); } }
struct MemTab {
  vector<Chunk*> ch;
  MemTab(){} MemTab(const MemTab&m):ch(m.ch){ for(auto c:ch) if(c) c->rc++; } ~MemTab(){ for(auto c:ch) decChunk(c); }
  MemTab& operator=(const MemTab&)=delete;
  Obj* get(u64 id) const { u64 k=id>>6; if(k>=ch.size()||!ch[k]) return nullptr; return ch[k]->o[id&63]; }
  Chunk* wchunk(u64 k){ if(k>=ch.size()) ch.resize(k+1,nullptr); if(!ch[k]) ch[k]=newChunk(); else if(ch[k]->rc>1){ Chunk*n=(Chunk*)malloc(sizeof(Chunk)); memcpy(n,ch[k],sizeof(Chunk)); n->rc=1; for(int i=0;i<64;i++) if(n->o[i]) n->o[i]->rc++; ch[k]->rc--; ch[k]=n; } return ch[k]; }
  Obj* wget(u64 id){ Chunk*c=wchunk(id>>6); Obj*&o=c->o[id&63]; if(!o) return nullptr; if(o->rc>1){ Obj*n=cloneObj(o); o->rc--; o=n; } return o; }
  void put(u64 id,Obj*o){ Chunk*c=wchunk(id>>6); Obj*&s=c->o[id&63]; decObj(s); s=o; }
};
struct Frame { u32 rc; FuncIR*f; u32 pc; vector<V> r; vector<u64> allocas; int32_t retDst; u32 retN; };
static void decFrame(Frame*f){ if(f&&--f->rc==0) delete f; }
struct TraceEnt { u8 w; bool choice; V v; u32 tag; };
struct State {
  vector<Frame*> st; MemTab mem; vector<Expr*> pc; Model m; vector<TraceEnt> trace; vector<V> log; u32 nvars=0; u64 instrs=0; u64 nextObj=1; int allowPanic=0; u64 limit=0; u32 asserts=0; string tag;
  State(){} 
  State(const State&o):st(o.st),mem(o.mem),pc(o.pc),m(o.m),trace(o.trace),log(o.log),nvars(o.nvars),instrs(o.instrs),nextObj(o.nextObj),allowPanic(o.allowPanic),limit(o.limit),asserts(o.asserts),tag(o.tag){ for(auto f:st) f->rc++; }
  ~State(){ for(auto f:st) decFrame(f); }
  Frame* top(){ Frame*f=st.back(); if(f->rc>1){ Frame*n=new Frame(*f); n->rc=1; f->rc--; st.back()=n; return n; } return f; }
};
struct PathEnd { int kind; string msg; }; // thrown-like: 0 ok,1 violation,2 killed(assume),3 engine error/incomplete
// ---------- globals ----------
static vector<State*> work; 
static State*S; static MemTab*baseMem; 
struct Violation { string kind,msg; vector<std::pair<u8,u64>> trace; string stack; };
static vector<Violation> violations; static std::map<string,u64> reach; static u64 pathsDone,pathsKilled,forks,totInstr,assertsConcrete,assertsSolver,assertsFailed,switchForks,maxDepth; static vector<string> incompletes; static std::map<string,u64> killReasons;
struct Sample { vector<std::pair<u8,u64>> trace; vector<u64> log; bool panic; };
static vector<Sample> samples; static u64 maxSamples=16; static u64 maxPaths=0; static double maxTime=0; static u64 defLimit=20000000; static u32 maxViol=5;
static std::chrono::steady_clock::time_point tstart; static bool verbose=false; static u32 maxStack=6000;
static std::map<string,u32> violSeen;
static std::map<string,std::pair<u64,u64>> forkSites;
enum { RUN=0, END=1 };

static inline V reg(Frame*f,int32_t o){ return o>=0?f->r[o]:consts[~o]; }
static Expr* toE(const V&v,unsigned w){ return v.e?v.e:mkConst(cval(v),w); }
static inline V ev(Expr*e){ if(isC(e)) return cv(e->val); return V{0,0,e}; }

static vector<std::pair<u8,u64>> modelTrace(State*s,const Model&m){ vector<std::pair<u8,u64>> t; newEpoch(); for(auto&e:s->trace) t.push_back({e.w,(u64)(e.v.e?evalExpr(e.v.e,m):cval(e.v))}); newEpoch(); return t; }
static string stackStr(){ string r; for(int i=(int)S->st.size()-1;i>=0&&i>(int)S->st.size()-12;i--){ r+=S->st[i]->f->dname; r+=" <- "; } return r; }
static void violation(const string&kind,const string&msg,const Model&m){
  string key=kind+"|"+msg; if(violSeen[key]++ >=3) return; 
  Violation v; v.kind=kind; v.msg=msg; v.trace=modelTrace(S,m); v.stack=stackStr(); violations.push_back(v);
}
static void incomplete(const string&why){ if(incompletes.size()<20) incompletes.push_back(why+" @ "+stackStr()); else if(incompletes.size()==20) incompletes.push_back("..."); }

struct Kill{}; // current path ends
static void endPath(int kind,const string&why=""){ if(kind==0){ pathsDone++; if(samples.size()<maxSamples || (pathsDone & (pathsDone-1))==0){ Sample s; s.trace=modelTrace(S,S->m); for(auto&l:S->log) s.log.push_back((u64)(l.e?evalExpr(l.e,S->m):cval(l))); s.panic=false; if(samples.size()<maxSamples+24) samples.push_back(s);} }
  else { pathsKilled++; killReasons[why]++; } throw Kill(); }

static bool knownTrue(Expr*c){ for(size_t i=S->pc.size();i-->0;) if(S->pc[i]==c) return true; return false; }
static void addPC(State*s,Expr*c){ if(isC(c)) return; if(c->w==1&&c->op==AND){ addPC(s,c->a); addPC(s,c->b); return; } s->pc.push_back(c); }

// decide a branch: returns 0/1 for the direction the current state takes; other!=null when forked (other has pc constraint added)
static int branch(Expr*c,State**other){
  *other=nullptr; if(isC(c)) return c->val?1:0;
  if(knownTrue(c)) return 1; Expr*nc=mkNot(c); if(knownTrue(nc)) return 0;
  newEpoch(); int dir=evalExpr(c,S->m)?1:0;
  Model m2=S->m; Res r=checkSat(S->pc,dir?nc:c,m2);
  if(r==UNSAT) return dir;
  if(r==UNKNOWN){ incomplete("solver unknown"); return dir; }
  State*o=new State(*S); o->m=m2; addPC(o,dir?nc:c); addPC(S,dir?c:nc); forks++; *other=o; return dir;
}
// force a value to be concrete; forks the alternatives, which re-execute the current instruction (pc not advanced yet)
static u64 concretize(V v,unsigned w,u32 curpc){
  if(!v.e) return v.lo;
  newEpoch(); u128 val=evalExpr(v.e,S->m); Expr*eq=mkBin(EQ,v.e,mkConst(val,w));
  if(isC(eq)) { return (u64)val; }
  if(knownTrue(eq)) return (u64)val;
  Expr*ne=mkNot(eq); Model m2=S->m; Res r=checkSat(S->pc,ne,m2);
  if(r==SAT){ State*o=new State(*S); o->m=m2; addPC(o,ne); o->top()->pc=curpc; work.push_back(o); forks++; addPC(S,eq); }
  else if(r==UNKNOWN) incomplete("solver unknown");
  return (u64)val;
}
static void memError(const string&m){ violation("memory-error",m,S->m); endPath(1,"memory error"); }
static Obj* resolve(u64 addr,u64 n,u64&off,bool w){
  u64 id=addr>>24; off=addr&0xffffff; Obj*o=S->mem.get(id);
  if(!o) memError("access of invalid pointer "+std::to_string(id)+"+"+std::to_string(off));
  if(o->freed) memError("use after free");
  if(off+n>o->size) memError("out of bounds access off="+std::to_string(off)+" n="+std::to_string(n)+" size="+std::to_string(o->size));
  if(w){ if(o->constant) memError("write to constant"); o=S->mem.wget(id); }
  return o;
}
static V loadMem(u64 addr,unsigned w){
  unsigned n=(w+7)/8; u64 off; Obj*o=resolve(addr,n,off,false);
  if(o->sym){ bool any=false; for(unsigned i=0;i<n;i++) if(o->sym[off+i]){ any=true; break; }
    if(any){ Expr*e=nullptr; for(unsigned i=0;i<n;i++){ Expr*b=o->sym[off+i]?o->sym[off+i]:mkConst(o->data[off+i],8); e=e?mkConcat(b,e):b; } if(w<n*8) e=mkExtract(e,0,w); return ev(e); } }
  if(n<=8){ u64 x=0; memcpy(&x,o->data+off,n); if(w<64) x&=(1ull<<w)-1; return V{x,0,nullptr}; }
  u128 x=0; memcpy(&x,o->data+off,n); return cv(x&maskw(w));
}
static void storeMem(u64 addr,unsigned w,V v){
  unsigned n=(w+7)/8; u64 off; Obj*o=resolve(addr,n,off,true);
  if(!v.e){ u128 x=cval(v); memcpy(o->data+off,&x,n); if(o->sym) for(unsigned i=0;i<n;i++) o->sym[off+i]=nullptr; return; }
  if(!o->sym){ o->sym=(Expr**)calloc(o->size,sizeof(Expr*)); }
  Expr*e=v.e; if(w<n*8) e=mkZext(e,n*8);
  for(unsigned i=0;i<n;i++){ Expr*b=mkExtract(e,i*8,8); if(isC(b)){ o->data[off+i]=(u8)b->val; o->sym[off+i]=nullptr; } else o->sym[off+i]=b; }
}
static u64 allocObj(u64 size,u64 align){ (void)align; if(size>=(1u<<24)) { incomplete("allocation too large "+std::to_string(size)); endPath(3,"alloc too large"); } u64 id=S->nextObj++; S->mem.put(id,newObj(size)); return id<<24; }
static void freeObj(u64 addr){ u64 id=addr>>24; Obj*o=S->mem.get(id); if(!o||(addr&0xffffff)) memError("invalid free"); if(o->freed) memError("double free"); Obj*n=newObj(0); n->freed=1; S->mem.put(id,n); }
static void memcpyMem(u64 d,u64 s,u64 n){ if(!n) return; u64 so,dof; Obj*a=resolve(s,n,so,false); (void)a; Obj*o=resolve(d,n,dof,true); a=resolve(s,n,so,false);
  memmove(o->data+dof,a->data+so,n);
  if(a->sym){ if(!o->sym) o->sym=(Expr**)calloc(o->size,sizeof(Expr*)); memmove(o->sym+dof,a->sym+so,n*sizeof(Expr*)); }
  else if(o->sym) memset(o->sym+dof,0,n*sizeof(Expr*)); }
static string readStr(u64 p,u64 n){ string r; u64 id=p>>24,off=p&0xffffff; Obj*o=S->mem.get(id); if(!o||off+n>o->size||n>400) return "?"; for(u64 i=0;i<n;i++) r+= (o->sym&&o->sym[off+i])?'?':(char)o->data[off+i]; return r; }
static u64 rd64(u64 p){ u64 id=p>>24,off=p&0xffffff; Obj*o=S->mem.get(id); if(!o||off+8>o->size) return 0; u64 x; memcpy(&x,o->data+off,8); return x; }
static string panicMsg(FuncIR*f,const vector<V>&a){
  string r=f->dname+": ";
  if(f->dname=="core::panicking::panic"||f->dname=="core::panicking::panic_explicit"||f->dname.find("core::panicking::panic_str")==0||f->dname.find("expect_failed")!=string::npos||f->dname.find("unwrap_failed")!=string::npos){ if(a.size()>=2&&!a[0].e&&!a[1].e) r+=readStr(a[0].lo,a[1].lo); }
  else if(f->dname.find("panic_fmt")!=string::npos){ u64 p=a[0].lo; u64 pc=rd64(p),np=rd64(p+8); for(u64 i=0;i<np&&i<8;i++){ r+=readStr(rd64(pc+16*i),rd64(pc+16*i+8)); if(i+1<np) r+="{}"; } }
  return r; }
static bool starts(const string&s,const char*p){ return s.compare(0,strlen(p),p)==0; }
// ---------- builtins ----------
enum BI { B_NONE=0,B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_MEMALIGN,B_BCMP,B_MEMCMP,B_STRLEN,B_WRITE,B_RET0,B_RANDKEYS,B_PANIC,B_RALLOC,B_RALLOCZ,B_RREALLOC,B_RDEALLOC,
  B_SYMU8,B_SYMU16,B_SYMU32,B_SYMU64,B_ASSUME,B_ASSERT,B_CHOOSE,B_CONC,B_REACH,B_ALLOWPANIC,B_LOG,B_LIMIT,B_TAG,B_ISSYM,B_MEMCPY,B_MEMMOVE,B_MEMSET,B_ABORT,B_GETENV,B_ERRNO,B_UNSUP,B_SYMPTR,B_PANICCOUNT };
static u64 errnoObj=0;
static int builtinOf(FuncIR*f){
  const string&n=f->name; const string&d=f->dname;
  static const std::map<string,int> m={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"posix_memalign",B_MEMALIGN},{"bcmp",B_BCMP},{"memcmp",B_MEMCMP},{"strlen",B_STRLEN},{"write",B_WRITE},
   {"__rust_alloc",B_RALLOC},{"__rust_alloc_zeroed",B_RALLOCZ},{"__rust_realloc",B_RREALLOC},{"__rust_dealloc",B_RDEALLOC},{"__rdl_alloc",B_RALLOC},{"__rdl_alloc_zeroed",B_RALLOCZ},{"__rdl_realloc",B_RREALLOC},{"__rdl_dealloc",B_RDEALLOC},
   {"sym_u8",B_SYMU8},{"sym_u16",B_SYMU16},{"sym_u32",B_SYMU32},{"sym_u64",B_SYMU64},{"sym_assume",B_ASSUME},{"sym_assert",B_ASSERT},{"sym_choose",B_CHOOSE},{"sym_concretize",B_CONC},{"sym_reach",B_REACH},{"sym_allow_panic",B_ALLOWPANIC},{"sym_log",B_LOG},{"sym_limit",B_LIMIT},{"sym_is_symbolic",B_ISSYM},{"sym_tag",B_TAG},
   {"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"abort",B_ABORT},{"getenv",B_GETENV},{"__errno_location",B_ERRNO},{"__cxa_thread_atexit_impl",B_RET0},{"rust_begin_unwind",B_PANIC},{"pthread_key_create",B_RET0},{"pthread_setspecific",B_RET0}};
  auto it=m.find(n); if(it!=m.end()) return it->second;
  if(d.find("hashmap_random_keys")!=string::npos) return B_RANDKEYS;
  if(starts(d,"core::panicking::")||starts(d,"std::panicking::begin_panic")||starts(d,"core::str::slice_error_fail")||starts(d,"std::process::abort")||starts(d,"alloc::raw_vec::handle_error")||starts(d,"alloc::raw_vec::capacity_overflow")||starts(d,"alloc::alloc::handle_alloc_error")||starts(d,"core::option::unwrap_failed")||starts(d,"core::option::expect_failed")||starts(d,"core::result::unwrap_failed")||starts(d,"core::cell::panic_already")) return B_PANIC;
  if(d=="std::panicking::panic_count::is_zero_slow_path") return B_PANICCOUNT;
  if(f->isDecl) return B_UNSUP;
  return B_NONE;
}
static V cmpBytes(u64 p,u64 q,u64 n,bool order){
  // nested ITE from the last byte
  V res=cv(0); bool sym=false; u64 po=0,qo=0; Obj*a=nullptr,*b=nullptr; if(n){ a=resolve(p,n,po,false); b=resolve(q,n,qo,false);} 
  for(u64 i=0;i<n&&!sym;i++){ if((a->sym&&a->sym[po+i])||(b->sym&&b->sym[qo+i])) sym=true; }
  if(!sym){ int r=n?memcmp(a->data+po,b->data+qo,n):0; return cv((u32)(r<0?-1:r>0?1:0)); }
  (void)res;
  if(!order){ Expr*all=mkConst(1,1); for(u64 i=0;i<n;i++){ Expr*x=a->sym&&a->sym[po+i]?a->sym[po+i]:mkConst(a->data[po+i],8),*y=b->sym&&b->sym[qo+i]?b->sym[qo+i]:mkConst(b->data[qo+i],8); all=mkBin(AND,all,mkBin(EQ,x,y)); } return ev(mkZext(mkNot(all),32)); }
  Expr*e=mkConst(0,32);
  for(u64 i=n;i-->0;){ Expr*x=a->sym&&a->sym[po+i]?a->sym[po+i]:mkConst(a->data[po+i],8),*y=b->sym&&b->sym[qo+i]?b->sym[qo+i]:mkConst(b->data[qo+i],8);
    e=mkIte(mkBin(EQ,x,y),e,mkIte(mkBin(ULT,x,y),mkConst(0xffffffffu,32),mkConst(1,32))); }
  return ev(e);
}
static V newSym(u16 w,u32 tag){ u32 i=S->nvars++; Expr*v=mkVar(i,w); TraceEnt t; t.w=w; t.choice=false; t.v=V{0,0,v}; t.tag=tag; S->trace.push_back(t); return t.v; }
static void setRet(Frame*f,const Inst&x,V v){ if(x.n) f->r[x.d]=v; }

static void callBuiltin(FuncIR*g,Frame*f,const Inst&x,const CallDesc&cd,vector<V>&a,u32 cur){
  auto C=[&](unsigned i)->u64{ return concretize(a[i],cd.widths[i],cur); };
  switch(g->builtin){
    case B_RALLOC: case B_RALLOCZ: { u64 n=C(0); setRet(f,x,cv(allocObj(n,0))); break; }
    case B_MALLOC: { u64 n=C(0); setRet(f,x,cv(allocObj(n,0))); break; }
    case B_CALLOC: { u64 n=C(0)*C(1); setRet(f,x,cv(allocObj(n,0))); break; }
    case B_REALLOC: case B_RREALLOC: { u64 n=C(g->builtin==B_RREALLOC?3:1); u64 p=C(0); u64 q=allocObj(n,0); if(p){ Obj*o=S->mem.get(p>>24); if(!o||o->freed||(p&0xffffff)) memError("bad realloc"); u64 k=std::min<u64>(o->size,n); memcpyMem(q,p,k); freeObj(p);} setRet(f,x,cv(q)); break; }
    case B_FREE: case B_RDEALLOC: { u64 p=C(0); if(p) freeObj(p); break; }
    case B_MEMALIGN: { u64 n=C(2); u64 p=C(0); storeMem(p,64,cv(allocObj(n,0))); setRet(f,x,cv(0)); break; }
    case B_BCMP: case B_MEMCMP: { u64 n=C(2),p=C(0),q=C(1); setRet(f,x,cmpBytes(p,q,n,g->builtin==B_MEMCMP)); break; }
    case B_MEMCPY: case B_MEMMOVE: { u64 n=C(2),d=C(0),s=C(1); memcpyMem(d,s,n); setRet(f,x,cv(d)); break; }
    case B_MEMSET: { u64 n=C(2),d=C(0); V v=a[1]; if(v.e) v=ev(mkExtract(v.e,0,8)); for(u64 i=0;i<n;i++) storeMem(d+i,8,v); setRet(f,x,cv(d)); break; }
    case B_STRLEN: { u64 p=C(0); u64 n=0; for(;;n++){ V b=loadMem(p+n,8); u64 c=concretize(b,8,cur); if(!c) break; } setRet(f,x,cv(n)); break; }
    case B_WRITE: { u64 n=C(2); setRet(f,x,cv(n)); break; }
    case B_RET0: setRet(f,x,cv(0)); break;
    case B_GETENV: setRet(f,x,cv(0)); break;
    case B_PANICCOUNT: setRet(f,x,cv(1)); break;
    case B_ERRNO: { setRet(f,x,cv(errnoObj<<24)); break; }
    case B_RANDKEYS: { for(u32 i=0;i<x.n;i++) f->r[x.d+i]=cv(0x0123456789abcdefull*(i+1)); if(!x.n&&a.size()){ storeMem(a[0].lo,64,cv(1)); storeMem(a[0].lo+8,64,cv(2)); } break; }
    case B_PANIC: case B_ABORT: { string m=panicMsg(g,a); if(S->allowPanic){ endPath(0); } violation("panic",m,S->m); endPath(1,"panic"); break; }
    case B_SYMU8: setRet(f,x,newSym(8,0)); break; case B_SYMU16: setRet(f,x,newSym(16,0)); break; case B_SYMU32: setRet(f,x,newSym(32,0)); break; case B_SYMU64: setRet(f,x,newSym(64,0)); break;
    case B_ASSUME: { Expr*c=toE(a[0],cd.widths[0]); if(c->w>1) c=mkNot(mkBin(EQ,c,mkConst(0,c->w))); if(isC(c)){ if(!c->val) endPath(2,"assume"); break; }
      newEpoch(); if(!evalExpr(c,S->m)){ Model m2=S->m; Res r=checkSat(S->pc,c,m2); if(r==UNKNOWN){ incomplete("solver unknown in assume"); endPath(3,"unknown"); } if(r==UNSAT) endPath(2,"assume"); S->m=m2; } else { sst.queries++; sst.modelHits++; }
      addPC(S,c); break; }
    case B_ASSERT: { Expr*c=toE(a[0],cd.widths[0]); if(c->w>1) c=mkNot(mkBin(EQ,c,mkConst(0,c->w))); S->asserts++;
      string msg=readStr(a[1].lo,a[2].lo);
      if(isC(c)){ if(c->val) assertsConcrete++; else { assertsFailed++; violation("assert",msg,S->m); endPath(1,"assert"); } break; }
      Model m2=S->m; Res r=checkSat(S->pc,mkNot(c),m2); if(r==UNKNOWN){ incomplete("solver unknown in assert"); break; }
      if(r==SAT){ assertsFailed++; violation("assert",msg,m2); Model m3=S->m; Res r2=checkSat(S->pc,c,m3); if(r2!=SAT) endPath(1,"assert"); S->m=m3; addPC(S,c); } else assertsSolver++;
      break; }
    case B_CHOOSE: { u64 n=C(0); if(n==0) endPath(2,"choose0"); V v;
      // the variable is created once; alternatives re-enter at the following instruction with the value fixed
      v=newSym(32,1); Expr*e=v.e; for(u64 k=1;k<n;k++){ Model m2=S->m; Expr*c=mkBin(EQ,e,mkConst(k,32)); Res r=checkSat(S->pc,c,m2); if(r!=SAT) continue; State*o=new State(*S); o->m=m2; addPC(o,c); o->top()->r[x.d]=cv(k); forks++; work.push_back(o); }
      // work is LIFO; keep ascending order exploration irrelevant
      S->m.set(e->lo,0); addPC(S,mkBin(EQ,e,mkConst(0,32))); S->top()->r[x.d]=cv(0); break; }
    case B_CONC: { u64 v=C(0); setRet(S->top(),x,cv(v)); break; }
    case B_REACH: { reach[readStr(a[0].lo,a[1].lo)]++; break; }
    case B_ALLOWPANIC: S->allowPanic=(int)a[0].lo; break;
    case B_LOG: S->log.push_back(a[0]); break;
    case B_LIMIT: S->limit=C(0); break;
    case B_TAG: S->tag=readStr(a[0].lo,a[1].lo); break;
    case B_ISSYM: setRet(f,x,cv(a[0].e?1:0)); break;
    default: incomplete("unsupported external "+g->name); endPath(3,"unsupported "+g->name);
  }
}
static V binV(u8 op,unsigned w,const V&a,const V&b){
  if(!a.e&&!b.e){
    if(w<=64){ u64 x=a.lo,y=b.lo,m=w==64?~0ull:((1ull<<w)-1),r;
      switch(op){ case ADD:r=x+y;break; case SUB:r=x-y;break; case MUL:r=x*y;break; case AND:r=x&y;break; case OR:r=x|y;break; case XOR:r=x^y;break;
        case SHL:r=y>=w?0:x<<y;break; case LSHR:r=y>=w?0:x>>y;break; default: return cv(evalOp(op,w,x,y)); }
      return V{r&m,0,nullptr}; }
    return cv(evalOp(op,w,cval(a),cval(b))); }
  return ev(mkBin(op,toE(a,w),toE(b,w)));
}
static V icmpV(u8 pred,unsigned w,const V&a,const V&b){
  // LLVM predicates: 32 EQ,33 NE,34 UGT,35 UGE,36 ULT,37 ULE,38 SGT,39 SGE,40 SLT,41 SLE
  if(!a.e&&!b.e){ u128 x=cval(a),y=cval(b); bool r; switch(pred){ case 32:r=x==y;break; case 33:r=x!=y;break; case 34:r=x>y;break; case 35:r=x>=y;break; case 36:r=x<y;break; case 37:r=x<=y;break;
      default:{ i128 p=sextw(x,w),q=sextw(y,w); switch(pred){ case 38:r=p>q;break; case 39:r=p>=q;break; case 40:r=p<q;break; default:r=p<=q; } } } return V{r,0,nullptr}; }
  Expr*x=toE(a,w),*y=toE(b,w),*r; switch(pred){ case 32:r=mkBin(EQ,x,y);break; case 33:r=mkNot(mkBin(EQ,x,y));break; case 34:r=mkBin(ULT,y,x);break; case 35:r=mkBin(ULE,y,x);break; case 36:r=mkBin(ULT,x,y);break; case 37:r=mkBin(ULE,x,y);break; case 38:r=mkBin(SLT,y,x);break; case 39:r=mkBin(SLE,y,x);break; case 40:r=mkBin(SLT,x,y);break; default:r=mkBin(SLE,x,y); }
  return ev(r);
}
static V selV(Expr*c,const V&t,const V&f,unsigned w){ if(!t.e&&!f.e&&t.lo==f.lo&&t.hi==f.hi) return t; return ev(mkIte(c,toE(t,w),toE(f,w))); }
static V extV(bool sx,unsigned w,unsigned w2,const V&a){ if(a.e) return ev(sx?mkSext(a.e,w2):mkZext(a.e,w2)); if(!sx) return a; return cv((u128)sextw(cval(a),w)&maskw(w2)); }
static V truncV(unsigned w2,const V&a){ if(a.e) return ev(mkExtract(a.e,0,w2)); return cv(cval(a)&maskw(w2)); }
static Expr* ctlzE(Expr*e,unsigned w,bool low){ Expr*r=mkConst(w,w); for(unsigned k=0;k<w;k++){ unsigned bit=low? w-1-k : k; // scan so that highest priority bit ends outermost
    r=mkIte(mkExtract(e,bit,1),mkConst(low?bit:w-1-bit,w),r); } return r; }
static V intrV(int in,unsigned w,const V&a,const V&b,const V&c){
  bool conc=!a.e&&!b.e&&!c.e; 
  switch(in){
    case IN_UMIN: { V l=icmpV(36,w,a,b); return l.e?selV(l.e,a,b,w):(l.lo?a:b); }
    case IN_UMAX: { V l=icmpV(36,w,a,b); return l.e?selV(l.e,b,a,w):(l.lo?b:a); }
    case IN_SMIN: { V l=icmpV(40,w,a,b); return l.e?selV(l.e,a,b,w):(l.lo?a:b); }
    case IN_SMAX: { V l=icmpV(40,w,a,b); return l.e?selV(l.e,b,a,w):(l.lo?b:a); }
    case IN_UADDSAT: { V s=binV(ADD,w,a,b); V o=icmpV(36,w,s,a); V m=cv(maskw(w)); return o.e?selV(o.e,m,s,w):(o.lo?m:s); }
    case IN_USUBSAT: { V s=binV(SUB,w,a,b); V o=icmpV(36,w,a,b); V z=cv(0); return o.e?selV(o.e,z,s,w):(o.lo?z:s); }
    case IN_ABS: { V n=icmpV(40,w,a,cv(0)); V g=binV(SUB,w,cv(0),a); return n.e?selV(n.e,g,a,w):(n.lo?g:a); }
    case IN_CTLZ: case IN_CTTZ: if(a.e) return ev(ctlzE(a.e,w,in==IN_CTTZ)); else { u128 x=cval(a); unsigned n=0; if(in==IN_CTTZ){ while(n<w&&!((x>>n)&1)) n++; } else { while(n<w&&!((x>>(w-1-n))&1)) n++; } return cv(n); }
    case IN_CTPOP: if(a.e){ Expr*r=mkConst(0,w); for(unsigned i=0;i<w;i++) r=mkBin(ADD,r,mkZext(mkExtract(a.e,i,1),w)); return ev(r);} else { u128 x=cval(a); unsigned n=0; while(x){ n+=(unsigned)(x&1); x>>=1; } return cv(n); }
    case IN_BSWAP: if(a.e){ Expr*r=nullptr; for(unsigned i=0;i<w/8;i++){ Expr*k=mkExtract(a.e,i*8,8); r=r?mkConcat(r,k):k; } return ev(r);} else { u128 x=cval(a),r=0; for(unsigned i=0;i<w/8;i++){ r=(r<<8)|(x&0xff); x>>=8; } return cv(r); }
    case IN_BITREV: if(a.e){ Expr*r=nullptr; for(unsigned i=0;i<w;i++){ Expr*k=mkExtract(a.e,i,1); r=r?mkConcat(r,k):k; } return ev(r);} else { u128 x=cval(a),r=0; for(unsigned i=0;i<w;i++){ r=(r<<1)|(x&1); x>>=1; } return cv(r); }
    case IN_FSHL: case IN_FSHR: { if(c.e){ incomplete("fshl symbolic amount"); endPath(3,"fshl"); } unsigned s=(unsigned)(cval(c)%w); if(in==IN_FSHR) s=(w-s)%w; // fshr by s == fshl by w-s, except s==0
        if(s==0) return in==IN_FSHL?a:b; return binV(OR,w,binV(SHL,w,a,cv(s)),binV(LSHR,w,b,cv(w-s))); }
  }
  (void)conc; incomplete("intrinsic "+std::to_string(in)); endPath(3,"intrinsic"); return a;
}
static void doEdge(Frame*f,u32 ei){
  const Edge&e=f->f->edges[ei];
  if(!e.phis.empty()){
    if(e.phis.size()==1){ auto&p=e.phis[0]; if(p.n==1) f->r[p.d]=reg(f,p.s); else { static vector<V> t; t.clear(); for(u32 k=0;k<p.n;k++) t.push_back(reg(f,p.s>=0?p.s+(int)k:p.s-(int)k)); for(u32 k=0;k<p.n;k++) f->r[p.d+k]=t[k]; } }
    else { static vector<V> t; t.clear(); for(auto&p:e.phis) for(u32 k=0;k<p.n;k++) t.push_back(reg(f,p.s>=0?p.s+(int)k:p.s-(int)k)); size_t i=0; for(auto&p:e.phis) for(u32 k=0;k<p.n;k++) f->r[p.d+k]=t[i++]; } }
  f->pc=e.target;
}
static void enter(FuncIR*g,const vector<V>&a,int32_t rd,u32 rn){
  if(!g->compiled) compileFunc(g); g->executed++;
  Frame*n=new Frame(); n->rc=1; n->f=g; n->pc=0; n->r.assign(g->nregs,V{0,0,nullptr}); for(size_t i=0;i<a.size()&&i<g->nargs;i++) n->r[i]=a[i]; n->retDst=rd; n->retN=rn; S->st.push_back(n);
  if(S->st.size()>maxDepth) maxDepth=S->st.size();
  if(S->st.size()>maxStack){ violation("stack-depth","call depth exceeds "+std::to_string(maxStack),S->m); endPath(1,"stack depth"); }
}
static unsigned lowZeros(Expr*e){ switch(e->op){ case CONST:{ if(!e->val) return e->w; unsigned n=0; while(!((e->val>>n)&1)) n++; return n;} case CONCAT:{ unsigned l=lowZeros(e->b); return l==e->b->w? l+lowZeros(e->a):l;} case ADD: case SUB: return std::min(lowZeros(e->a),lowZeros(e->b)); case ZEXT: { unsigned l=lowZeros(e->a); return l==e->a->w?e->w:l; } case ITE: return std::min(lowZeros(e->b),lowZeros(e->c)); case MUL: return std::min<unsigned>(e->w,lowZeros(e->a)+lowZeros(e->b)); } return 0; }
// load through a symbolic address: ITE over a fully concrete object when possible
static bool symLoad(Expr*ad,const vector<MemLane>&ml,Frame*f,const Inst&x,u32 cur){
  if(ml.size()!=1) return false; (void)cur;
  newEpoch(); u64 a0=(u64)evalExpr(ad,S->m); u64 id=a0>>24; Obj*o=S->mem.get(id); if(!o||o->freed||o->size>8192) return false;
  unsigned n=(ml[0].w+7)/8; if(o->size<n) return false;
  // all addresses inside the object?
  Expr*base=mkConst(id<<24,64); Expr*off=mkBin(SUB,ad,base); Expr*inb=mkBin(ULE,off,mkConst(o->size-n,64));
  if(!knownTrue(inb)){ Model m2=S->m; Res r=checkSat(S->pc,mkNot(inb),m2); if(r!=UNSAT) return false; }
  unsigned stride=1; unsigned lz=lowZeros(off); if(lz>4) lz=4; stride=1u<<lz; if(stride>n&&n) {} 
  // run-length groups
  vector<std::pair<u64,V>> runs; for(u64 k=0;k+n<=o->size;k+=stride){ V v=loadMem((id<<24)+k,ml[0].w); if(!runs.empty()){ V&p=runs.back().second; if(p.lo==v.lo&&p.hi==v.hi&&p.e==v.e) continue; } runs.push_back({k,v}); }
  if(runs.size()>600) return false;
  Expr*e=toE(runs[0].second,ml[0].w);
  for(size_t i=1;i<runs.size();i++) e=mkIte(mkBin(ULT,off,mkConst(runs[i].first,64)),e,toE(runs[i].second,ml[0].w));
  // NB nested so that the last run is outermost test: off<start_i ? previous : value_i
  f->r[x.d]=ev(e); return true;
}
static void run(){
  Frame*f=S->top(); u64 ic=0;
  #define R(o) reg(f,(o))
  for(;;){
    const Inst&x=f->f->code[f->pc]; u32 cur=f->pc; f->pc++; S->instrs++; totInstr++;
    if(S->instrs>(S->limit?S->limit:defLimit)){ violation("non-termination","instruction limit "+std::to_string(S->limit?S->limit:defLimit)+" exceeded",S->m); endPath(1,"instruction limit"); }
    if((++ic&0xfffff)==0&&maxTime>0){ double t=std::chrono::duration<double>(std::chrono::steady_clock::now()-tstart).count(); if(t>maxTime){ incomplete("time budget exhausted"); throw std::string("timeout"); } }
    switch(x.op){
      case I_BIN: if(x.n==1){ V a=R(x.a),b=R(x.b); if((x.f==UDIV||x.f==UREM||x.f==SDIV||x.f==SREM)&&!b.e&&!cval(b)) memError("division by zero"); f->r[x.d]=binV(x.f,x.w,a,b); } else for(u32 k=0;k<x.n;k++) f->r[x.d+k]=binV(x.f,x.w,R(x.a>=0?x.a+(int)k:x.a-(int)k),R(x.b>=0?x.b+(int)k:x.b-(int)k)); break;
      #define LN(o,k) R((o)>=0?(o)+(int)(k):(o)-(int)(k))
      case I_ICMP: if(x.n==1) f->r[x.d]=icmpV(x.f,x.w,R(x.a),R(x.b)); else for(u32 k=0;k<x.n;k++) f->r[x.d+k]=icmpV(x.f,x.w,LN(x.a,k),LN(x.b,k)); break;
      case I_TRUNC: for(u32 k=0;k<x.n;k++) f->r[x.d+k]=truncV(x.w2,LN(x.a,k)); break;
      case I_ZEXT: for(u32 k=0;k<x.n;k++) f->r[x.d+k]=extV(false,x.w,x.w2,LN(x.a,k)); break;
      case I_SEXT: for(u32 k=0;k<x.n;k++) f->r[x.d+k]=extV(true,x.w,x.w2,LN(x.a,k)); break;
      case I_BITCAST: { if(x.w==x.w2){ for(u32 k=0;k<x.n;k++) f->r[x.d+k]=LN(x.a,k); break; }
        bool sym=false; for(u32 k=0;k<x.n;k++) if(LN(x.a,k).e) sym=true; unsigned tot=x.w*x.n;
        if(!sym&&tot<=128){ u128 v=0; for(u32 k=0;k<x.n;k++) v|=(cval(LN(x.a,k))&maskw(x.w))<<(k*x.w); for(u32 k=0;k<x.aux;k++) f->r[x.d+k]=cv((v>>(k*x.w2))&maskw(x.w2)); break; }
        if(tot>128&&x.w%8==0&&x.w2%8==0&&!sym){ vector<u8> b(tot/8); for(u32 k=0;k<x.n;k++){ u128 v=cval(LN(x.a,k)); memcpy(&b[k*x.w/8],&v,x.w/8);} for(u32 k=0;k<x.aux;k++){ u128 v=0; memcpy(&v,&b[k*x.w2/8],x.w2/8); f->r[x.d+k]=cv(v);} break; }
        if(tot>128){ incomplete("bitcast >128"); endPath(3,"bitcast"); }
        Expr*e=nullptr; for(u32 k=0;k<x.n;k++){ Expr*p=toE(LN(x.a,k),x.w); e=e?mkConcat(p,e):p; } for(u32 k=0;k<x.aux;k++) f->r[x.d+k]=ev(mkExtract(e,k*x.w2,x.w2)); break; }
      case I_SELECT: { if(!x.f){ V c=R(x.a); if(c.e){
            bool same=true; for(u32 k=0;k<x.n;k++){ V p=LN(x.b,k),q=LN(x.c,k); if(p.lo!=q.lo||p.hi!=q.hi||p.e!=q.e) same=false; }
            if(same){ for(u32 k=0;k<x.n;k++) f->r[x.d+k]=LN(x.b,k); break; }
            if(x.w2){ State*o; int dir=branch(c.e,&o); f=S->top(); if(o){ o->top()->r.size(); Frame*of=o->top(); for(u32 k=0;k<x.n;k++) of->r[x.d+k]= dir? reg(of,x.c>=0?x.c+(int)k:x.c-(int)k):reg(of,x.b>=0?x.b+(int)k:x.b-(int)k); work.push_back(o); } f=S->top(); for(u32 k=0;k<x.n;k++) f->r[x.d+k]=dir?LN(x.b,k):LN(x.c,k); break; }
            for(u32 k=0;k<x.n;k++) f->r[x.d+k]=selV(c.e,LN(x.b,k),LN(x.c,k),x.w); break; }
          for(u32 k=0;k<x.n;k++) f->r[x.d+k]=c.lo?LN(x.b,k):LN(x.c,k); }
        else for(u32 k=0;k<x.n;k++){ V c=LN(x.a,k); f->r[x.d+k]= c.e? selV(c.e,LN(x.b,k),LN(x.c,k),x.w) : c.lo?LN(x.b,k):LN(x.c,k); } break; }
      case I_LOAD: { V p=R(x.a); const auto&ml=f->f->mems[x.aux]; if(p.e){ if(symLoad(p.e,ml,f,x,cur)) break; f->pc=cur; p.lo=concretize(p,64,cur); f=S->top(); f->pc=cur+1; }
        for(u32 k=0;k<ml.size();k++) f->r[x.d+k]=loadMem(p.lo+ml[k].off,ml[k].w); break; }
      case I_STORE: { V p=R(x.a); const auto&ml=f->f->mems[x.aux]; if(p.e){ f->pc=cur; p.lo=concretize(p,64,cur); f=S->top(); f->pc=cur+1; } for(u32 k=0;k<ml.size();k++) storeMem(p.lo+ml[k].off,ml[k].w,LN(x.b,k)); break; }
      case I_GEP: { V p=R(x.a); V acc=p; if(x.imm) acc=binV(ADD,64,acc,cv(x.imm)); for(auto&g:f->f->geps[x.aux]){ V i=R(g.opnd); if(g.w<64) i=extV(true,g.w,64,i); else if(g.w>64) i=truncV(64,i); if(g.scale!=1) i=binV(MUL,64,i,cv(g.scale)); acc=binV(ADD,64,acc,i); } f->r[x.d]=acc; break; }
      case I_ALLOCA: { V n=R(x.a); u64 a=allocObj(x.imm*(n.e?1:n.lo),0); f->allocas.push_back(a); f->r[x.d]=cv(a); break; }
      case I_BR: doEdge(f,x.b); break;
      case I_CONDBR: { V c=R(x.a); if(!c.e){ doEdge(f,c.lo?x.b:x.c); break; } State*o; int dir=branch(c.e,&o); f=S->top(); if(o){ Frame*of=o->top(); doEdge(of,dir?x.c:x.b); work.push_back(o); if(verbose) forkSites[f->f->dname+":"+std::to_string(cur)].first++; } doEdge(f,dir?x.b:x.c); break; }
      case I_SWITCH: { V c=R(x.a); const auto&sd=f->f->switches[x.aux]; 
        if(!c.e){ u128 v=cval(c); u32 e=sd.def; size_t lo=0,hi=sd.cases.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(sd.cases[m].first<v) lo=m+1; else hi=m; } if(lo<sd.cases.size()&&sd.cases[lo].first==v) e=sd.cases[lo].second; doEdge(f,e); break; }
        // group the cases by target edge
        vector<std::pair<u32,Expr*>> g; Expr*any=mkConst(0,1); for(auto&cs:sd.cases){ Expr*eq=mkBin(EQ,c.e,mkConst(cs.first,x.w)); bool done=false; if(cs.second==sd.def) continue; any=mkBin(OR,any,eq); for(auto&p:g) if(p.first==cs.second){ p.second=mkBin(OR,p.second,eq); done=true; break; } if(!done) g.push_back({cs.second,eq}); }
        g.push_back({sd.def,mkNot(any)});
        // current state takes the side its model satisfies
        newEpoch(); int mine=-1; for(size_t i=0;i<g.size();i++) if(evalExpr(g[i].second,S->m)){ mine=i; break; }
        vector<std::pair<State*,u32>> outs; bool forked=false;
        for(size_t i=0;i<g.size();i++) if((int)i!=mine){ if(isC(g[i].second)&&!g[i].second->val) continue; Model m2=S->m; Res r=checkSat(S->pc,g[i].second,m2); if(r==UNKNOWN){ incomplete("solver unknown in switch"); continue; } if(r==UNSAT) continue; State*o=new State(*S); o->m=m2; addPC(o,g[i].second); outs.push_back({o,g[i].first}); forks++; forked=true; }
        if(forked) addPC(S,g[mine].second);
        f=S->top(); for(auto&p:outs){ doEdge(p.first->top(),p.second); work.push_back(p.first); } doEdge(f,g[mine].first); break; }
      case I_RET: { vector<V> rv; for(u32 k=0;k<x.n;k++) rv.push_back(LN(x.a,k)); for(u64 a:f->allocas){ Obj*n=newObj(0); n->freed=1; S->mem.put(a>>24,n); } int32_t rd=f->retDst; u32 rn=f->retN; decFrame(f); S->st.pop_back(); if(S->st.empty()) endPath(0); f=S->top(); for(u32 k=0;k<rn&&k<rv.size();k++) f->r[rd+k]=rv[k]; break; }
      case I_UNREACH: memError("reached `unreachable`"); break;
      case I_CALL: case I_CALLIND: { u32 fi; if(x.op==I_CALL) fi=x.b; else { V p=R(x.a); if(p.e){ f->pc=cur; p.lo=concretize(p,64,cur); f=S->top(); f->pc=cur+1; } auto it=funcOfObj.find(p.lo>>24); if(it==funcOfObj.end()||(p.lo&0xffffff)) memError("call of invalid function pointer"); fi=it->second; }
        FuncIR*g=funcs[fi]; const CallDesc&cd=f->f->calls[x.aux]; if(!g->builtin){ g->builtin=builtinOf(g); if(!g->builtin) g->builtin=-1; }
        static vector<V> a; a.clear(); for(auto o:cd.args) a.push_back(R(o));
        if(g->builtin>0){ f->pc=cur; vector<V> aa=a; 
           // concretisations fork states that re-execute this call; choose() forks states that continue after it
           if(g->builtin==B_CHOOSE||g->builtin==B_ASSERT||g->builtin==B_ASSUME){ f->pc=cur+1; callBuiltin(g,f,x,cd,aa,cur); f=S->top(); }
           else { // pre-concretise with pc at the call
             callBuiltin(g,f,x,cd,aa,cur); f=S->top(); f->pc=cur+1; }
           break; }
        enter(g,a,x.d,x.n); f=S->top(); break; }
      case I_LANES: { const auto&l=f->f->lanes[x.aux]; if(x.n==1){ f->r[x.d]=R(l[0]); break; } static vector<V> t; t.clear(); for(auto o:l) t.push_back(R(o)); for(u32 k=0;k<x.n;k++) f->r[x.d+k]=t[k]; break; }
      case I_EXTELT: { V i=R(x.b); if(i.e){ f->pc=cur; i.lo=concretize(i,64,cur); f=S->top(); f->pc=cur+1; } f->r[x.d]=LN(x.a,i.lo%x.n); break; }
      case I_INSELT: { V i=R(x.c); if(i.e){ f->pc=cur; i.lo=concretize(i,64,cur); f=S->top(); f->pc=cur+1; } vector<V> t; for(u32 k=0;k<x.n;k++) t.push_back(LN(x.a,k)); t[i.lo%x.n]=R(x.b); for(u32 k=0;k<x.n;k++) f->r[x.d+k]=t[k]; break; }
      case I_RMW: { V p=R(x.a),v=R(x.b); if(p.e){ incomplete("rmw symptr"); endPath(3,"rmw"); } V o=loadMem(p.lo,x.w); V n; switch(x.f){ case 0:n=v;break; case 1:n=binV(ADD,x.w,o,v);break; case 2:n=binV(SUB,x.w,o,v);break; case 3:n=binV(AND,x.w,o,v);break; case 5:n=binV(OR,x.w,o,v);break; case 6:n=binV(XOR,x.w,o,v);break; case 7:n=intrV(IN_SMAX,x.w,o,v,cv(0));break; case 8:n=intrV(IN_SMIN,x.w,o,v,cv(0));break; case 9:n=intrV(IN_UMAX,x.w,o,v,cv(0));break; case 10:n=intrV(IN_UMIN,x.w,o,v,cv(0));break; default: incomplete("rmw op"); endPath(3,"rmw"); } storeMem(p.lo,x.w,n); f->r[x.d]=o; break; }
      case I_CMPXCHG: { V p=R(x.a); V o=loadMem(p.lo,x.w); V eq=icmpV(32,x.w,o,R(x.b)); if(eq.e){ incomplete("cmpxchg sym"); endPath(3,"cmpxchg"); } if(eq.lo) storeMem(p.lo,x.w,R(x.c)); f->r[x.d]=o; f->r[x.d+1]=eq; break; }
      case I_INTRIN: { const CallDesc&cd=f->f->calls[x.aux]; 
        switch(x.f){
          case IN_MEMCPY: case IN_MEMMOVE: { V n=R(cd.args[2]),d=R(cd.args[0]),s=R(cd.args[1]); if(n.e||d.e||s.e){ f->pc=cur; n.lo=concretize(n,cd.widths[2],cur); d.lo=concretize(d,64,cur); s.lo=concretize(s,64,cur); f=S->top(); f->pc=cur+1; } memcpyMem(d.lo,s.lo,n.lo); break; }
          case IN_MEMSET: { V n=R(cd.args[2]),d=R(cd.args[0]),v=R(cd.args[1]); if(n.e||d.e){ f->pc=cur; n.lo=concretize(n,cd.widths[2],cur); d.lo=concretize(d,64,cur); f=S->top(); f->pc=cur+1; } if(!v.e&&n.lo){ u64 off; Obj*o=resolve(d.lo,n.lo,off,true); memset(o->data+off,(int)v.lo,n.lo); if(o->sym) memset(o->sym+off,0,n.lo*sizeof(Expr*)); } else for(u64 i=0;i<n.lo;i++) storeMem(d.lo+i,8,v); break; }
          case IN_EXPECT: case IN_TLSADDR: f->r[x.d]=R(cd.args[0]); break;
          case IN_PTRMASK: f->r[x.d]=binV(AND,64,R(cd.args[0]),R(cd.args[1])); break;
          case IN_ISCONST: f->r[x.d]=cv(0); break;
          case IN_OBJSIZE: f->r[x.d]=cv(maskw(x.w2)); break;
          case IN_TRAP: if(S->allowPanic) endPath(0); violation("panic","trap",S->m); endPath(1,"trap"); break;
          case IN_LOADREL: { V p=R(cd.args[0]),o=R(cd.args[1]); if(p.e||o.e){ f->pc=cur; p.lo=concretize(p,64,cur); o.lo=concretize(o,cd.widths[1],cur); f=S->top(); f->pc=cur+1; } V r=loadMem(p.lo+o.lo,32); f->r[x.d]=cv(p.lo+(u64)(i64)(int32_t)r.lo); break; }
          case IN_UADDO: case IN_USUBO: case IN_UMULO: case IN_SADDO: case IN_SSUBO: case IN_SMULO: { if(x.n!=2){ incomplete("vector overflow op"); endPath(3,"vec"); } V a=R(cd.args[0]),b=R(cd.args[1]); unsigned w=x.w; u8 op=(x.f==IN_UADDO||x.f==IN_SADDO)?ADD:(x.f==IN_USUBO||x.f==IN_SSUBO)?SUB:MUL; V r=binV(op,w,a,b); V ov;
              if(x.f==IN_UADDO) ov=icmpV(36,w,r,a); else if(x.f==IN_USUBO) ov=icmpV(36,w,a,b);
              else if(w<=64){ bool sg=x.f>=IN_SADDO; V wa=extV(sg,w,2*w,a),wb=extV(sg,w,2*w,b); 
                 if(x.f==IN_UMULO&&(!a.e||!b.e)&&(a.e||b.e)){ V k=a.e?b:a, s=a.e?a:b; if(k.lo==0) ov=cv(0); else ov=icmpV(34,w,s,cv(maskw(w)/cval(k))); }
                 else { V wr=binV(op,2*w,wa,wb); ov=icmpV(33,2*w,wr,extV(sg,w,2*w,r)); } }
              else { if(a.e||b.e){ incomplete("mulo128"); endPath(3,"mulo"); } u128 p=cval(a),q=cval(b),rr; bool o; if(x.f==IN_UMULO) o=__builtin_mul_overflow(p,q,&rr); else { i128 r2; o= x.f==IN_SADDO?__builtin_add_overflow((i128)p,(i128)q,&r2):x.f==IN_SSUBO?__builtin_sub_overflow((i128)p,(i128)q,&r2):__builtin_mul_overflow((i128)p,(i128)q,&r2);} ov=cv(o); }
              f->r[x.d]=r; f->r[x.d+1]=ov; break; }
          case IN_REDADD: case IN_REDOR: case IN_REDAND: case IN_REDXOR: case IN_REDUMAX: case IN_REDUMIN: case IN_REDMUL: case IN_REDSMAX: case IN_REDSMIN: { V acc=R(cd.args[0]); for(size_t k=1;k<cd.args.size();k++){ V b=R(cd.args[k]); switch(x.f){ case IN_REDADD:acc=binV(ADD,x.w,acc,b);break; case IN_REDMUL:acc=binV(MUL,x.w,acc,b);break; case IN_REDOR:acc=binV(OR,x.w,acc,b);break; case IN_REDAND:acc=binV(AND,x.w,acc,b);break; case IN_REDXOR:acc=binV(XOR,x.w,acc,b);break; case IN_REDUMAX:acc=intrV(IN_UMAX,x.w,acc,b,cv(0));break; case IN_REDUMIN:acc=intrV(IN_UMIN,x.w,acc,b,cv(0));break; case IN_REDSMAX:acc=intrV(IN_SMAX,x.w,acc,b,cv(0));break; default:acc=intrV(IN_SMIN,x.w,acc,b,cv(0)); } } f->r[x.d]=acc; break; }
          case IN_PMOVMSKB: { V acc=cv(0); for(size_t k=0;k<cd.args.size();k++){ V b=R(cd.args[k]); V t=b.e?ev(mkExtract(b.e,7,1)):cv((b.lo>>7)&1); V z=extV(false,1,32,t); acc=binV(OR,32,acc,binV(SHL,32,z,cv(k))); } f->r[x.d]=acc; break; }
          default: { // lane-wise: arguments are nret lanes each (scalar flag arguments excluded)
            u32 n=x.n; u32 na=cd.args.size(); bool un=x.f==IN_CTLZ||x.f==IN_CTTZ||x.f==IN_CTPOP||x.f==IN_BSWAP||x.f==IN_BITREV||x.f==IN_ABS; vector<V> out; for(u32 k=0;k<n;k++){ V a=R(cd.args[k]); V b=un?cv(0):R(cd.args[n+k]); V c=(na>=3*n&&!un)?R(cd.args[2*n+k]):cv(0); out.push_back(intrV(x.f,x.w,a,b,c)); } for(u32 k=0;k<n;k++) f->r[x.d+k]=out[k]; }
        } break; }
      case I_UNSUP: incomplete("unsupported instruction: "+f->f->strs[x.aux]); endPath(3,"unsupported instruction"); break;
    }
  }
}
static string jstr(const string&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static string jtrace(const vector<std::pair<u8,u64>>&t){ string r="["; for(size_t i=0;i<t.size();i++){ if(i) r+=","; r+=std::to_string(t[i].second); } return r+"]"; }
int main(int argc,char**argv){
  vector<string> entries; const char*bc=nullptr; const char*out=nullptr; unsigned tmo=20000; unsigned jobs=1;
  for(int i=1;i<argc;i++){ string a=argv[i]; if(a=="--entry") entries.push_back(argv[++i]); else if(a=="--entries"){ FILE*f=fopen(argv[++i],"r"); char b[512]; while(f&&fscanf(f,"%511s",b)==1) entries.push_back(b); if(f) fclose(f);} else if(a=="--out") out=argv[++i]; else if(a=="--max-time") maxTime=atof(argv[++i]); else if(a=="--max-paths") maxPaths=atoll(argv[++i]); else if(a=="--limit") defLimit=atoll(argv[++i]); else if(a=="--samples") maxSamples=atoll(argv[++i]); else if(a=="--solver-timeout") tmo=atoi(argv[++i]); else if(a=="--dump") dumpDir=argv[++i]; else if(a=="--dump-max") dumpMax=atoi(argv[++i]); else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="-v") verbose=true; else if(a=="--max-viol") maxViol=atoi(argv[++i]); else if(a=="--max-stack") maxStack=atoi(argv[++i]); else bc=argv[i]; }
  solverInit(tmo); loadModule(bc);
  baseMem=new MemTab(); u64 startObj=nextObjAtStart; for(auto&g:globalsInit){ Obj*o=newObj(g.size); if(g.size) memcpy(o->data,g.bytes.data(),g.size); o->constant=g.constant; baseMem->put(g.obj,o); }
  for(auto&p:funcOfObj){ Obj*o=newObj(0); o->constant=1; baseMem->put(p.first,o); }
  errnoObj=startObj++; baseMem->put(errnoObj,newObj(8));
  string outName=out?out:"";
  if(jobs>1&&out){ // one forked child per entry, `jobs` at a time; child k writes OUT.k
    size_t next=0; unsigned live=0; bool child=false; signal(SIGCHLD,SIG_DFL);
    while(!child&&(next<entries.size()||live)){
      if(next<entries.size()&&live<jobs){ pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); string e=entries[next]; outName+="."+std::to_string(next); entries.assign(1,e); child=true; break; } if(p<0){ if(live) { wait(nullptr); live--; continue; } _exit(3); } next++; live++; }
      else { if(wait(nullptr)>0) live--; else break; }
    }
    if(!child) _exit(0);
  }
  FILE*fo=out?fopen(outName.c_str(),"w"):stdout;
  for(auto&en:entries){
    tstart=std::chrono::steady_clock::now(); violations.clear(); violSeen.clear(); reach.clear(); incompletes.clear(); samples.clear(); killReasons.clear(); pathsDone=pathsKilled=forks=totInstr=assertsConcrete=assertsSolver=assertsFailed=maxDepth=0; SolverStats s0=sst; sst=SolverStats(); for(auto f:funcs) f->executed=0; (void)s0;
    int fi=findFunc(en); if(fi<0){ fprintf(fo,"{\"entry\":%s,\"error\":\"no such entry\"}\n",jstr(en).c_str()); continue; }
    State*init=new State(); for(auto c:baseMem->ch){ if(c) c->rc++; init->mem.ch.push_back(c);} init->nextObj=startObj; S=init; bool stop=false;
    try{ enter(funcs[fi],{},0,0); work.push_back(init);} catch(Kill&){}
    while(!work.empty()&&!stop){ S=work.back(); work.pop_back(); try { run(); } catch(Kill&){} catch(std::string&){ stop=true; } delete S; S=nullptr;
      if(violations.size()>=maxViol) { stop=true; }
      if(maxPaths&&pathsDone+pathsKilled>=maxPaths&&!work.empty()){ incompletes.push_back("path budget exhausted"); stop=true; }
      if(maxTime>0&&!stop&&((pathsDone+pathsKilled)&15)==0){ double t=std::chrono::duration<double>(std::chrono::steady_clock::now()-tstart).count(); if(t>maxTime&&!work.empty()){ incompletes.push_back("time budget exhausted"); stop=true; } } }
    u64 left=work.size(); for(auto w:work) delete w; work.clear();
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-tstart).count();
    string js="{\"entry\":"+jstr(en); auto num=[&](const char*k,double v){ char b[64]; if(v==(double)(u64)v) snprintf(b,64,",\"%s\":%llu",k,(unsigned long long)v); else snprintf(b,64,",\"%s\":%.4f",k,v); js+=b; };
    num("paths",pathsDone); num("killed",pathsKilled); num("left",left); num("forks",forks); num("instrs",totInstr); num("asserts_concrete",assertsConcrete); num("asserts_solver",assertsSolver); num("asserts_failed",assertsFailed); num("max_depth",maxDepth); num("wall",dt);
    num("queries",sst.queries); num("z3_calls",sst.z3calls); num("cache_hits",sst.cacheHits); num("model_hits",sst.modelHits); num("sat",sst.sat); num("unsat",sst.unsat); num("unknown",sst.unknown); num("solver_time",sst.time); num("solver_max",sst.maxTime);
    js+=",\"reach\":{"; bool first=true; for(auto&p:reach){ if(!first) js+=","; first=false; js+=jstr(p.first)+":"+std::to_string(p.second); } js+="}";
    js+=",\"kills\":{"; first=true; for(auto&p:killReasons){ if(!first) js+=","; first=false; js+=jstr(p.first)+":"+std::to_string(p.second); } js+="}";
    js+=",\"incomplete\":["; for(size_t i=0;i<incompletes.size();i++){ if(i) js+=","; js+=jstr(incompletes[i]); } js+="]";
    js+=",\"violations\":["; for(size_t i=0;i<violations.size();i++){ auto&v=violations[i]; if(i) js+=","; js+="{\"kind\":"+jstr(v.kind)+",\"msg\":"+jstr(v.msg)+",\"stack\":"+jstr(v.stack)+",\"trace\":"+jtrace(v.trace)+"}"; } js+="]";
    js+=",\"samples\":["; for(size_t i=0;i<samples.size();i++){ if(i) js+=","; js+="{\"trace\":"+jtrace(samples[i].trace)+",\"log\":["; for(size_t k=0;k<samples[i].log.size();k++){ if(k) js+=","; js+=std::to_string(samples[i].log[k]); } js+="]}"; } js+="]";
    js+=",\"functions\":["; first=true; std::set<string> fn; for(auto f:funcs) if(f->executed&&!(starts(f->dname,"core::")||starts(f->dname,"std::")||starts(f->dname,"alloc::")||starts(f->dname,"<core::")||starts(f->dname,"<alloc::")||starts(f->dname,"<std::")||starts(f->dname,"hashbrown::")||starts(f->dname,"memchr::"))) fn.insert(f->dname); for(auto&n:fn){ if(!first) js+=","; first=false; js+=jstr(n); } js+="]}";
    fprintf(fo,"%s\n",js.c_str()); fflush(fo);
    if(verbose){ vector<std::pair<u64,string>> v; for(auto&p:forkSites) v.push_back({p.second.first,p.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<25;i++) fprintf(stderr,"%8llu %s\n",(unsigned long long)v[i].first,v[i].second.c_str()); }
  }
  if(out) fclose(fo); fflush(stdout); _exit(0);
}
