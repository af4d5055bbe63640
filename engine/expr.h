// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, NOT, CONCAT, EXTRACT, ZEXT, SEXT, ITE };

struct VarMask { u64 m[4]; 
  bool intersects(const VarMask&o) const { return (m[0]&o.m[0])|(m[1]&o.m[1])|(m[2]&o.m[2])|(m[3]&o.m[3]); }
  void add(const VarMask&o){ for(int i=0;i<4;i++) m[i]|=o.m[i]; }
  bool operator==(const VarMask&o) const { return !memcmp(m,o.m,sizeof m); }
};

struct Expr {
  u8 op; u16 w; u32 id; u32 lo; // lo: extract low bit / var index
  Expr *a,*b,*c; u128 val; VarMask vm;
  u32 evalEpoch; u128 evalVal;
};

static inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 sextw(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 s=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^s)-s); }

struct ExprPool {
  std::vector<Expr*> table; size_t count=0; u32 nextId=1;
  std::vector<Expr*> all;
  ExprPool(){ table.assign(1<<16,nullptr); }
  static size_t h(u8 op,u16 w,u32 lo,Expr*a,Expr*b,Expr*c,u128 val){
    u64 x=op*0x9E3779B97F4A7C15ull ^ (u64)w*0xC2B2AE3D27D4EB4Full ^ (u64)lo*0x165667B19E3779F9ull;
    auto mix=[&](u64 v){ x^=v; x*=0xff51afd7ed558ccdull; x^=x>>32; };
    mix(a?a->id:0); mix(b?(u64)b->id<<1:0); mix(c?(u64)c->id<<2:0); mix((u64)val); mix((u64)(val>>64));
    return x;
  }
  Expr* get(u8 op,u16 w,u32 lo,Expr*a,Expr*b,Expr*c,u128 val){
    size_t hs=h(op,w,lo,a,b,c,val), m=table.size()-1, i=hs&m;
    while(table[i]){
      Expr*e=table[i];
      if(e->op==op&&e->w==w&&e->lo==lo&&e->a==a&&e->b==b&&e->c==c&&e->val==val) return e;
      i=(i+1)&m;
    }
    Expr*e=new Expr(); e->op=op;e->w=w;e->lo=lo;e->a=a;e->b=b;e->c=c;e->val=val;e->id=nextId++;
    memset(&e->vm,0,sizeof e->vm); e->evalEpoch=0;
    if(op==VAR) e->vm.m[(lo>>6)&3]|=1ull<<(lo&63);
    if(a) e->vm.add(a->vm); if(b) e->vm.add(b->vm); if(c) e->vm.add(c->vm);
    table[i]=e; count++; all.push_back(e);
    if(count*2>table.size()) grow();
    return e;
  }
  void grow(){
    std::vector<Expr*> n(table.size()*2,nullptr); size_t m=n.size()-1;
    for(Expr*e:table) if(e){ size_t i=h(e->op,e->w,e->lo,e->a,e->b,e->c,e->val)&m; while(n[i]) i=(i+1)&m; n[i]=e; }
    table.swap(n);
  }
};
extern ExprPool pool;

static inline Expr* mkConst(u128 v,u16 w){ return pool.get(CONST,w,0,nullptr,nullptr,nullptr,v&maskw(w)); }
static inline Expr* mkVar(u32 idx,u16 w){ return pool.get(VAR,w,idx,nullptr,nullptr,nullptr,0); }
static inline bool isC(Expr*e){ return e->op==CONST; }
Expr* mkExtract(Expr*a,unsigned lo,unsigned w);
Expr* mkConcat(Expr*hi,Expr*lo);
Expr* mkZext(Expr*a,unsigned w);
Expr* mkSext(Expr*a,unsigned w);
Expr* mkNot(Expr*a);
Expr* mkIte(Expr*c,Expr*t,Expr*f);
Expr* mkBin(u8 op,Expr*a,Expr*b);
u128 evalOp(u8 op,unsigned w,u128 x,u128 y); // w: operand width
std::string exprStr(Expr*e,int depth=6);
