#include <unistd.h>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <map>
SolverStats sst;
static Z3_context ctx; static Z3_solver slv2, slv; static unsigned tmo=10000;
static u32 epoch=1;
const char* dumpDir=nullptr; unsigned dumpMax=5000;
void newEpoch(){ epoch++; }
u128 evalExpr(Expr*e,const Model&m){
  if(e->op==CONST) return e->val;
  if(e->op==VAR) return m.get(e->lo)&maskw(e->w);
  if(e->evalEpoch==epoch) return e->evalVal;
  u128 r;
  switch(e->op){
    case NOT: r=~evalExpr(e->a,m)&maskw(e->w); break;
    case CONCAT: r=(evalExpr(e->a,m)<<e->b->w)|evalExpr(e->b,m); break;
    case EXTRACT: r=(evalExpr(e->a,m)>>e->lo)&maskw(e->w); break;
    case ZEXT: r=evalExpr(e->a,m); break;
    case SEXT: r=(u128)sextw(evalExpr(e->a,m),e->a->w)&maskw(e->w); break;
    case ITE: r=evalExpr(e->a,m)?evalExpr(e->b,m):evalExpr(e->c,m); break;
    default: r=evalOp(e->op,e->a->w,evalExpr(e->a,m),evalExpr(e->b,m));
  }
  e->evalEpoch=epoch; e->evalVal=r; return r;
}
static void errh(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(c,e)); exit(3); }
void solverInit(unsigned timeoutMs){
  tmo=timeoutMs;
  Z3_config cfg=Z3_mk_config(); 
  ctx=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,errh);
  slv=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,slv);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p);
  Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),tmo);
  Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"random_seed"),0);
  Z3_solver_set_params(ctx,slv,p);
  // second opinion when the incremental solver gives up: bit-blasting, with more time
  slv2=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,slv2);
  Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),tmo*6);
  Z3_solver_set_params(ctx,slv2,p);
}
static std::unordered_map<Expr*,Z3_ast> bvMemo, boMemo;
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
static Z3_ast toBV(Expr*e);
static Z3_ast toBool(Expr*e){
  auto it=boMemo.find(e); if(it!=boMemo.end()) return it->second;
  Z3_ast r;
  switch(e->op){
    case CONST: r=e->val?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
    case EQ: if(e->a->w==1) r=Z3_mk_eq(ctx,toBool(e->a),toBool(e->b)); else r=Z3_mk_eq(ctx,toBV(e->a),toBV(e->b)); break;
    case ULT: r=Z3_mk_bvult(ctx,toBV(e->a),toBV(e->b)); break;
    case ULE: r=Z3_mk_bvule(ctx,toBV(e->a),toBV(e->b)); break;
    case SLT: r=Z3_mk_bvslt(ctx,toBV(e->a),toBV(e->b)); break;
    case SLE: r=Z3_mk_bvsle(ctx,toBV(e->a),toBV(e->b)); break;
    case NOT: r=Z3_mk_not(ctx,toBool(e->a)); break;
    case AND: { Z3_ast x[2]={toBool(e->a),toBool(e->b)}; r=Z3_mk_and(ctx,2,x); break; }
    case OR: { Z3_ast x[2]={toBool(e->a),toBool(e->b)}; r=Z3_mk_or(ctx,2,x); break; }
    case XOR: r=Z3_mk_xor(ctx,toBool(e->a),toBool(e->b)); break;
    case ITE: r=Z3_mk_ite(ctx,toBool(e->a),toBool(e->b),toBool(e->c)); break;
    default: { Z3_sort s=Z3_mk_bv_sort(ctx,1); r=Z3_mk_eq(ctx,toBV(e),Z3_mk_unsigned_int64(ctx,1,s)); }
  }
  keep(r); boMemo[e]=r; return r;
}
static Z3_ast num(u128 v,unsigned w){
  Z3_sort s=Z3_mk_bv_sort(ctx,w);
  if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,s);
  char buf[64]; char*p=buf+63; *p=0; if(!v) *--p='0'; while(v){ *--p='0'+(int)(v%10); v/=10; }
  return Z3_mk_numeral(ctx,p,s);
}
static Z3_ast toBV(Expr*e){
  auto it=bvMemo.find(e); if(it!=bvMemo.end()) return it->second;
  Z3_ast r;
  bool boolish=e->w==1&&(e->op==EQ||e->op==ULT||e->op==ULE||e->op==SLT||e->op==SLE||e->op==NOT||e->op==AND||e->op==OR||e->op==XOR||e->op==ITE);
  if(boolish){ r=Z3_mk_ite(ctx,toBool(e),num(1,1),num(0,1)); }
  else switch(e->op){
    case CONST: r=num(e->val,e->w); break;
    case VAR: { char b[32]; snprintf(b,32,"v%u_%u",e->lo,e->w); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),Z3_mk_bv_sort(ctx,e->w)); break; }
    case ADD: r=Z3_mk_bvadd(ctx,toBV(e->a),toBV(e->b)); break;
    case SUB: r=Z3_mk_bvsub(ctx,toBV(e->a),toBV(e->b)); break;
    case MUL: r=Z3_mk_bvmul(ctx,toBV(e->a),toBV(e->b)); break;
    case UDIV: r=Z3_mk_bvudiv(ctx,toBV(e->a),toBV(e->b)); break;
    case SDIV: r=Z3_mk_bvsdiv(ctx,toBV(e->a),toBV(e->b)); break;
    case UREM: r=Z3_mk_bvurem(ctx,toBV(e->a),toBV(e->b)); break;
    case SREM: r=Z3_mk_bvsrem(ctx,toBV(e->a),toBV(e->b)); break;
    case AND: r=Z3_mk_bvand(ctx,toBV(e->a),toBV(e->b)); break;
    case OR: r=Z3_mk_bvor(ctx,toBV(e->a),toBV(e->b)); break;
    case XOR: r=Z3_mk_bvxor(ctx,toBV(e->a),toBV(e->b)); break;
    case SHL: r=Z3_mk_bvshl(ctx,toBV(e->a),toBV(e->b)); break;
    case LSHR: r=Z3_mk_bvlshr(ctx,toBV(e->a),toBV(e->b)); break;
    case ASHR: r=Z3_mk_bvashr(ctx,toBV(e->a),toBV(e->b)); break;
    case NOT: r=Z3_mk_bvnot(ctx,toBV(e->a)); break;
    case CONCAT: r=Z3_mk_concat(ctx,toBV(e->a),toBV(e->b)); break;
    case EXTRACT: r=Z3_mk_extract(ctx,e->lo+e->w-1,e->lo,toBV(e->a)); break;
    case ZEXT: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,toBV(e->a)); break;
    case SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,toBV(e->a)); break;
    case ITE: r=Z3_mk_ite(ctx,toBool(e->a),toBV(e->b),toBV(e->c)); break;
    default: fprintf(stderr,"toBV op %d\n",e->op); abort();
  }
  keep(r); bvMemo[e]=r; return r;
}
// canonical renaming
static std::unordered_map<u64,u32> ren; static std::vector<std::pair<u32,u32>> renOrder; static std::unordered_map<Expr*,Expr*> canonMemo;
static Expr* canon(Expr*e){
  if(e->op==CONST) return e;
  auto it=canonMemo.find(e); if(it!=canonMemo.end()) return it->second;
  Expr*r;
  if(e->op==VAR){ u64 k=((u64)e->lo<<16)|e->w; auto j=ren.find(k); u32 n; if(j==ren.end()){ n=renOrder.size(); ren[k]=n; renOrder.push_back({e->lo,e->w}); } else n=j->second; r=mkVar(n,e->w); }
  else { Expr*a=canon(e->a),*b=e->b?canon(e->b):nullptr,*c=e->c?canon(e->c):nullptr; 
    if(a==e->a&&b==e->b&&c==e->c) r=e; else r=pool.get(e->op,e->w,e->lo,a,b,c,e->val); }
  canonMemo[e]=r; return r;
}
struct KeyHash { size_t operator()(const std::vector<u32>&k) const { u64 x=k.size(); for(u32 v:k){ x^=v; x*=0x9E3779B97F4A7C15ull; x^=x>>29; } return x; } };
struct Cached { Res r; std::vector<u128> model; };
static std::unordered_map<std::vector<u32>,Cached,KeyHash> cache;
static u64 dumpN=0;
Res checkSat(const std::vector<Expr*>&pc, Expr*cond, Model&m){
  if(isC(cond)) return cond->val?SAT:UNSAT;
  sst.queries++;
  newEpoch();
  if(evalExpr(cond,m)){ sst.modelHits++; return SAT; }
  // slice
  VarMask vm=cond->vm; std::vector<char> in(pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]&&pc[i]->vm.intersects(vm)){ in[i]=1; vm.add(pc[i]->vm); ch=true; } }
  std::vector<Expr*> q; q.push_back(cond); for(size_t i=0;i<pc.size();i++) if(in[i]) q.push_back(pc[i]);
  ren.clear(); renOrder.clear(); canonMemo.clear();
  std::vector<Expr*> cq; for(auto e:q) cq.push_back(canon(e));
  std::sort(cq.begin(),cq.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cq.erase(std::unique(cq.begin(),cq.end()),cq.end());
  std::vector<u32> key; for(auto e:cq) key.push_back(e->id);
  auto it=cache.find(key);
  if(it==cache.end()){
    auto t0=std::chrono::steady_clock::now();
    Z3_solver_push(ctx,slv);
    for(auto e:cq) Z3_solver_assert(ctx,slv,toBool(e));
    Z3_lbool lb=Z3_solver_check(ctx,slv);
    sst.z3calls++;
    Z3_solver by=slv;
    if(lb==Z3_L_UNDEF){ Z3_solver_reset(ctx,slv2); for(auto e:cq) Z3_solver_assert(ctx,slv2,toBool(e)); lb=Z3_solver_check(ctx,slv2); sst.z3calls++; by=slv2; }
    Cached c; c.r= lb==Z3_L_TRUE?SAT: lb==Z3_L_FALSE?UNSAT:UNKNOWN;
    if(lb==Z3_L_TRUE){
      Z3_model zm=Z3_solver_get_model(ctx,by); Z3_model_inc_ref(ctx,zm);
      for(size_t i=0;i<renOrder.size();i++){
        unsigned w=renOrder[i].second; Z3_ast v; u128 val=0;
        Expr*ve=mkVar(i,w);
        if(Z3_model_eval(ctx,zm,toBV(ve),true,&v)){
          Z3_inc_ref(ctx,v);
          if(w<=64){ uint64_t x=0; Z3_get_numeral_uint64(ctx,v,&x); val=x; }
          else { const char*s=Z3_get_numeral_string(ctx,v); for(;*s;s++) val=val*10+(*s-'0'); }
          Z3_dec_ref(ctx,v);
        }
        c.model.push_back(val);
      }
      Z3_model_dec_ref(ctx,zm);
    }
    if(dumpDir && c.r==UNSAT && dumpN<dumpMax){
      char fn[512]; snprintf(fn,512,"%s/q%d_%06llu.smt2",dumpDir,(int)getpid(),(unsigned long long)dumpN++);
      if(FILE*f=fopen(fn,"w")){ fputs("(set-logic QF_BV)\n",f); fputs(Z3_solver_to_string(ctx,slv),f); fputs("(check-sat)\n",f); fclose(f); }
    }
    Z3_solver_pop(ctx,slv,1);
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    sst.time+=dt; if(dt>sst.maxTime) sst.maxTime=dt;
    it=cache.emplace(key,c).first;
  } else sst.cacheHits++;
  Cached&c=it->second;
  if(c.r==SAT){
    for(size_t i=0;i<renOrder.size();i++) m.set(renOrder[i].first,c.model[i]);
    newEpoch();
    for(auto e:q) if(!evalExpr(e,m)){ fprintf(stderr,"internal: model does not satisfy query\n"); exit(3); }
    sst.sat++;
  } else if(c.r==UNSAT) sst.unsat++; else sst.unknown++;
  return c.r;
}
