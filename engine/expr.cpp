#include "expr.h"
ExprPool pool;
u128 evalOp(u8 op,unsigned w,u128 x,u128 y){
  u128 m=maskw(w);
  switch(op){
    case ADD: return (x+y)&m; case SUB: return (x-y)&m; case MUL: return (x*y)&m;
    case UDIV: return y? x/y : m; case UREM: return y? x%y : x;
    case SDIV: { i128 a=sextw(x,w),b=sextw(y,w); if(b==0) return a<0?1:m; if(b==-1) return (u128)(-(u128)a)&m; return (u128)(a/b)&m; }
    case SREM: { i128 a=sextw(x,w),b=sextw(y,w); if(b==0) return x; if(b==-1) return 0; return (u128)(a%b)&m; }
    case AND: return x&y; case OR: return x|y; case XOR: return x^y;
    case SHL: return y>=w?0:(x<<(unsigned)y)&m; case LSHR: return y>=w?0:x>>(unsigned)y;
    case ASHR: { i128 a=sextw(x,w); unsigned s=y>=w?w-1:(unsigned)y; return (u128)(a>>s)&m; }
    case EQ: return x==y; case ULT: return x<y; case ULE: return x<=y;
    case SLT: return sextw(x,w)<sextw(y,w); case SLE: return sextw(x,w)<=sextw(y,w);
  }
  fprintf(stderr,"evalOp %d\n",op); abort();
}
Expr* mkNot(Expr*a){
  if(isC(a)) return mkConst(~a->val,a->w);
  if(a->op==NOT) return a->a;
  if(a->w==1){
    // keep comparisons in positive form: !(a<b) == b<=a
    if(a->op==ULT) return mkBin(ULE,a->b,a->a);
    if(a->op==ULE) return mkBin(ULT,a->b,a->a);
    if(a->op==SLT) return mkBin(SLE,a->b,a->a);
    if(a->op==SLE) return mkBin(SLT,a->b,a->a);
  }
  return pool.get(NOT,a->w,0,a,nullptr,nullptr,0);
}
Expr* mkExtract(Expr*a,unsigned lo,unsigned w){
  if(lo==0&&w==a->w) return a;
  if(isC(a)) return mkConst(a->val>>lo,w);
  switch(a->op){
    case EXTRACT: return mkExtract(a->a,a->lo+lo,w);
    case CONCAT: { unsigned lw=a->b->w;
      if(lo>=lw) return mkExtract(a->a,lo-lw,w);
      if(lo+w<=lw) return mkExtract(a->b,lo,w);
      return mkConcat(mkExtract(a->a,0,lo+w-lw),mkExtract(a->b,lo,lw-lo)); }
    case ZEXT: { unsigned iw=a->a->w;
      if(lo>=iw) return mkConst(0,w);
      if(lo+w<=iw) return mkExtract(a->a,lo,w);
      return mkZext(mkExtract(a->a,lo,iw-lo),w); }
    case SEXT: { unsigned iw=a->a->w; if(lo+w<=iw) return mkExtract(a->a,lo,w); 
      if(lo==0) return mkSext(a->a,w); break; }
    case AND: case OR: case XOR: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
    case NOT: return mkNot(mkExtract(a->a,lo,w));
    case ADD: case SUB: case MUL: if(lo==0) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    case ITE: if((isC(a->b)||isC(a->c)||a->b->op==ZEXT||a->c->op==ZEXT)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
    case SHL: if(isC(a->b)){ unsigned s=a->b->val>=a->w?a->w:(unsigned)a->b->val;
        if(lo+w<=s) return mkConst(0,w); if(lo>=s) return mkExtract(a->a,lo-s,w);} break;
    case LSHR: if(isC(a->b)){ unsigned s=a->b->val>=a->w?a->w:(unsigned)a->b->val;
        if(lo+s+w<=a->w) return mkExtract(a->a,lo+s,w); if(lo+s>=a->w) return mkConst(0,w);} break;
  }
  return pool.get(EXTRACT,w,lo,a,nullptr,nullptr,0);
}
Expr* mkConcat(Expr*hi,Expr*lo){
  unsigned w=hi->w+lo->w;
  if(isC(hi)&&isC(lo)) return mkConst((hi->val<<lo->w)|lo->val,w);
  if(isC(hi)&&hi->val==0) return mkZext(lo,w);
  if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->a==lo->a&&hi->lo==lo->lo+lo->w) return mkExtract(hi->a,lo->lo,w);
  if(lo->op==EXTRACT&&hi->op==EXTRACT) {}
  // right-assoc normal form: concat(concat(a,b),c) -> concat(a,concat(b,c))
  if(hi->op==CONCAT) return mkConcat(hi->a,mkConcat(hi->b,lo));
  // merge hi with the top part of lo
  if(lo->op==CONCAT){
    Expr*t=lo->a;
    if(isC(hi)&&isC(t)) return mkConcat(mkConcat(hi,t),lo->b);
    if(hi->op==EXTRACT&&t->op==EXTRACT&&hi->a==t->a&&hi->lo==t->lo+t->w) return mkConcat(mkExtract(hi->a,t->lo,hi->w+t->w),lo->b);
    if(t->op==EXTRACT&&t->a==hi) {}
  }
  if(lo->op==ZEXT&&isC(hi)&&false){}
  // extract of upper bits of x concatenated with low bits handled; zext(x):extract pattern
  if(hi->op==ZEXT){ return mkZext(mkConcat(hi->a,lo),w); }
  return pool.get(CONCAT,w,0,hi,lo,nullptr,0);
}
Expr* mkZext(Expr*a,unsigned w){
  if(w==a->w) return a;
  if(isC(a)) return mkConst(a->val,w);
  if(a->op==ZEXT) return mkZext(a->a,w);
  return pool.get(ZEXT,w,0,a,nullptr,nullptr,0);
}
Expr* mkSext(Expr*a,unsigned w){
  if(w==a->w) return a;
  if(isC(a)) return mkConst((u128)sextw(a->val,a->w),w);
  if(a->op==ZEXT) return mkZext(a->a,w);
  if(a->op==SEXT) return mkSext(a->a,w);
  return pool.get(SEXT,w,0,a,nullptr,nullptr,0);
}
Expr* mkIte(Expr*c,Expr*t,Expr*f){
  if(isC(c)) return c->val?t:f;
  if(t==f) return t;
  if(c->op==NOT) return mkIte(c->a,f,t);
  if(t->w==1){
    if(isC(t)&&isC(f)) return t->val? c : mkNot(c);
    if(isC(t)) return t->val? mkBin(OR,c,f) : mkBin(AND,mkNot(c),f);
    if(isC(f)) return f->val? mkBin(OR,mkNot(c),t) : mkBin(AND,c,t);
  }
  if(isC(t)&&isC(f)&&t->val==1&&f->val==0) return mkZext(c,t->w);
  if(isC(t)&&isC(f)&&t->val==0&&f->val==1) return mkZext(mkNot(c),t->w);
  if(t->op==ITE&&t->a==c) t=t->b;
  if(f->op==ITE&&f->a==c) f=f->c;
  if(t==f) return t;
  return pool.get(ITE,t->w,0,c,t,f,0);
}
static bool constLeaves(Expr*e,int d=0){ // ITE tree with constant leaves (small)
  if(isC(e)) return true; if(d>6) return false;
  if(e->op==ZEXT) return constLeaves(e->a,d+1);
  if(e->op==ITE&&d<40) return constLeaves(e->b,d+1)&&constLeaves(e->c,d+1);
  return false;
}
// number of known zero high bits
static unsigned knownHighZeros(Expr*e,int d=0){
  if(d>24) return 0; d++;
  switch(e->op){
    case ZEXT: return e->w-e->a->w+knownHighZeros(e->a,d);
    case CONST: { unsigned n=0; for(int i=e->w-1;i>=0&&!((e->val>>i)&1);i--) n++; return n; }
    case AND: return std::max(knownHighZeros(e->a,d),knownHighZeros(e->b,d));
    case OR: case XOR: return std::min(knownHighZeros(e->a,d),knownHighZeros(e->b,d));
    case ITE: return std::min(knownHighZeros(e->b,d),knownHighZeros(e->c,d));
    case CONCAT: { unsigned h=knownHighZeros(e->a,d); return h==e->a->w? h+knownHighZeros(e->b,d):h; }
    case LSHR: if(isC(e->b)) return std::min<unsigned>(e->w,(unsigned)e->b->val+knownHighZeros(e->a,d)); return 0;
    case UREM: case UDIV: return 0;
  }
  return 0;
}
Expr* mkBin(u8 op,Expr*a,Expr*b){
  unsigned w=a->w;
  bool cmp=op>=EQ&&op<=SLE;
  if(isC(a)&&isC(b)){ return mkConst(evalOp(op,w,a->val,b->val),cmp?1:w); }
  bool comm=op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ;
  if(comm&&isC(a)) std::swap(a,b);
  else if(comm&&!isC(b)&&a->id>b->id) std::swap(a,b);
  u128 m=maskw(w);
  switch(op){
    case ADD:
      if(isC(b)){ if(b->val==0) return a;
        if(a->op==ADD&&isC(a->b)) return mkBin(ADD,a->a,mkConst(a->b->val+b->val,w));
        if(a->op==SUB&&isC(a->a)) return mkBin(SUB,mkConst(a->a->val+b->val,w),a->b);
        if(w==1) return mkNot(a);
      }
      break;
    case SUB:
      if(a==b) return mkConst(0,w);
      if(isC(b)) return mkBin(ADD,a,mkConst(-b->val,w));
      if(a->op==ADD&&a->a==b) return a->b;
      if(a->op==ADD&&a->b==b) return a->a;
      if(a->op==ADD&&b->op==ADD&&isC(a->b)&&isC(b->b)) return mkBin(ADD,mkBin(SUB,a->a,b->a),mkConst(a->b->val-b->b->val,w));
      break;
    case MUL:
      if(isC(b)){ if(b->val==0) return b; if(b->val==1) return a;
        if((b->val&(b->val-1))==0){ unsigned s=0; while(!((b->val>>s)&1)) s++; return mkBin(SHL,a,mkConst(s,w)); } }
      break;
    case AND:
      if(a==b) return a;
      if(isC(b)){ if(b->val==0) return b; if(b->val==m) return a;
        if(a->op==AND&&isC(a->b)) return mkBin(AND,a->a,mkConst(a->b->val&b->val,w));
        // low mask
        u128 v=b->val; 
        if((v&(v+1))==0){ unsigned n=0; while((v>>n)&1) n++; return mkZext(mkExtract(a,0,n),w); }
        if(a->op==ZEXT){ unsigned iw=a->a->w; return mkZext(mkBin(AND,a->a,mkConst(v,iw)),w); }
        if(a->op==ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkBin(AND,a->b,b),mkBin(AND,a->c,b));
      }
      if(w==1&&(a==mkNot(b))) return mkConst(0,1);
      if(a->op==ZEXT&&b->op==ZEXT){ unsigned iw=std::max(a->a->w,b->a->w); return mkZext(mkBin(AND,mkZext(a->a,iw),mkZext(b->a,iw)),w);}
      break;
    case OR:
      if(a==b) return a;
      if(isC(b)){ if(b->val==0) return a; if(b->val==m) return b;
        if(a->op==OR&&isC(a->b)) return mkBin(OR,a->a,mkConst(a->b->val|b->val,w)); }
      if(w==1&&(a==mkNot(b))) return mkConst(1,1);
      if(!isC(b)){
        // disjoint halves: or(concat(x,0),zext(y)) -> concat(x,y)
        for(int k=0;k<2;k++){ Expr*x=k?b:a,*y=k?a:b;
          if(x->op==SHL&&isC(x->b)&&x->b->val<w){ unsigned s=(unsigned)x->b->val; 
            if(knownHighZeros(y)>=w-s&&s>0) return mkConcat(mkExtract(x->a,0,w-s),mkExtract(y,0,s)); }
          if(x->op==CONCAT&&isC(x->b)&&x->b->val==0&&knownHighZeros(y)>=x->a->w) return mkConcat(x->a,mkExtract(y,0,x->b->w));
          if(x->op==ZEXT&&x->a->op==CONCAT&&isC(x->a->b)&&x->a->b->val==0&&knownHighZeros(y)>=w-x->a->b->w) return mkZext(mkConcat(x->a->a,mkExtract(y,0,x->a->b->w)),w);
        }
        if(a->op==ZEXT&&b->op==ZEXT){ unsigned iw=std::max(a->a->w,b->a->w); return mkZext(mkBin(OR,mkZext(a->a,iw),mkZext(b->a,iw)),w);}
      }
      break;
    case XOR:
      if(a==b) return mkConst(0,w);
      if(isC(b)){ if(b->val==0) return a; if(b->val==m) return mkNot(a);
        if(a->op==XOR&&isC(a->b)) return mkBin(XOR,a->a,mkConst(a->b->val^b->val,w));
        if(a->op==ZEXT&&(b->val>>a->a->w)==0) return mkZext(mkBin(XOR,a->a,mkConst(b->val,a->a->w)),w); }
      break;
    case SHL: 
      if(isC(b)){ if(b->val==0) return a; if(b->val>=w) return mkConst(0,w); unsigned s=(unsigned)b->val;
        return mkConcat(mkExtract(a,0,w-s),mkConst(0,s)); }
      if(isC(a)&&a->val==0) return a;
      break;
    case LSHR:
      if(isC(b)){ if(b->val==0) return a; if(b->val>=w) return mkConst(0,w); unsigned s=(unsigned)b->val;
        return mkZext(mkExtract(a,s,w-s),w); }
      if(isC(a)&&a->val==0) return a;
      break;
    case ASHR:
      if(isC(b)){ if(b->val==0) return a; unsigned s=b->val>=w?w-1:(unsigned)b->val; 
        return mkSext(mkExtract(a,s,w-s),w); }
      break;
    case UDIV: if(isC(b)){ if(b->val==1) return a; if(b->val&&(b->val&(b->val-1))==0){ unsigned s=0; while(!((b->val>>s)&1)) s++; return mkBin(LSHR,a,mkConst(s,w)); } } break;
    case UREM: if(isC(b)){ if(b->val==1) return mkConst(0,w); if(b->val&&(b->val&(b->val-1))==0) return mkBin(AND,a,mkConst(b->val-1,w)); } break;
    case EQ:
      if(a==b) return mkConst(1,1);
      if(w==1){ if(isC(b)) return b->val? a : mkNot(a); }
      if(isC(b)){
        u128 v=b->val;
        if(a->op==ZEXT){ unsigned iw=a->a->w; if(v>>iw) return mkConst(0,1); return mkBin(EQ,a->a,mkConst(v,iw)); }
        if(a->op==SEXT){ unsigned iw=a->a->w; u128 t=v&maskw(iw); if(((u128)sextw(t,iw)&m)!=v) return mkConst(0,1); return mkBin(EQ,a->a,mkConst(t,iw)); }
        if(a->op==ITE&&(isC(a->b)||isC(a->c)||(constLeaves(a)))) return mkIte(a->a,mkBin(EQ,a->b,b),mkBin(EQ,a->c,b));
        if(a->op==ADD&&isC(a->b)) return mkBin(EQ,a->a,mkConst(v-a->b->val,w));
        if(a->op==SUB&&isC(a->a)) return mkBin(EQ,a->b,mkConst(a->a->val-v,w));
        if(a->op==XOR&&isC(a->b)) return mkBin(EQ,a->a,mkConst(v^a->b->val,w));
        if(a->op==NOT) return mkBin(EQ,a->a,mkConst(~v,w));
        if(a->op==CONCAT&&(isC(a->a)||isC(a->b))) { unsigned lw=a->b->w;
          return mkBin(AND,mkBin(EQ,a->a,mkConst(v>>lw,a->a->w)),mkBin(EQ,a->b,mkConst(v,lw))); }
        if(a->op==AND&&isC(a->b)&&(v&~a->b->val&m)) return mkConst(0,1);
        if(a->op==OR&&isC(a->b)&&(~v&a->b->val&m)) return mkConst(0,1);
      } else {
        if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkBin(EQ,a->a,b->a);
        if(a->op==ADD&&b->op==ADD&&isC(a->b)&&a->b==b->b) return mkBin(EQ,a->a,b->a);
      }
      break;
    case ULT:
      if(a==b) return mkConst(0,1);
      if(isC(b)){ if(b->val==0) return mkConst(0,1); if(b->val==1) return mkBin(EQ,a,mkConst(0,w));
        if(a->op==ZEXT){ unsigned iw=a->a->w; if(b->val>maskw(iw)) return mkConst(1,1); return mkBin(ULT,a->a,mkConst(b->val,iw)); }
        if(a->op==ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkBin(ULT,a->b,b),mkBin(ULT,a->c,b)); }
      if(isC(a)){ if(a->val==m) return mkConst(0,1);
        if(b->op==ZEXT){ unsigned iw=b->a->w; if(a->val>=maskw(iw)) return mkConst(0,1); return mkBin(ULT,mkConst(a->val,iw),b->a); }
        if(b->op==ITE&&(isC(b->b)||isC(b->c))) return mkIte(b->a,mkBin(ULT,a,b->b),mkBin(ULT,a,b->c)); }
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkBin(ULT,a->a,b->a);
      break;
    case ULE:
      if(a==b) return mkConst(1,1);
      if(isC(b)){ if(b->val==m) return mkConst(1,1); return mkBin(ULT,a,mkConst(b->val+1,w)); }
      if(isC(a)){ if(a->val==0) return mkConst(1,1); return mkBin(ULT,mkConst(a->val-1,w),b); }
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mkBin(ULE,a->a,b->a);
      break;
    case SLT:
      if(a==b) return mkConst(0,1);
      if(w>1&&isC(b)&&b->val==0&&a->op!=CONST) { if(knownHighZeros(a)>0) return mkConst(0,1); return mkExtract(a,w-1,1); }
      if(w>1&&isC(a)&&a->val==m&&b->op!=CONST) { if(knownHighZeros(b)>0) return mkConst(1,1); return mkNot(mkExtract(b,w-1,1)); }
      if(knownHighZeros(a)>0&&knownHighZeros(b)>0) return mkBin(ULT,a,b);
      break;
    case SLE:
      if(a==b) return mkConst(1,1);
      if(w>1&&isC(b)&&b->val==m) { return mkBin(SLT,a,mkConst(0,w)); }
      if(w>1&&isC(a)&&a->val==0) { return mkBin(SLT,mkConst(m,w),b); }
      if(knownHighZeros(a)>0&&knownHighZeros(b)>0) return mkBin(ULE,a,b);
      break;
  }
  return pool.get(op,cmp?1:w,0,a,b,nullptr,0);
}
static const char* opn[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","not","concat","extract","zext","sext","ite"};
std::string exprStr(Expr*e,int d){
  if(e->op==CONST) return std::to_string((unsigned long long)e->val)+":"+std::to_string(e->w);
  if(e->op==VAR) return "v"+std::to_string(e->lo);
  if(d==0) return "..";
  std::string s="(";
  s+=opn[e->op];
  if(e->op==EXTRACT) s+="["+std::to_string(e->lo)+"+"+std::to_string(e->w)+"]";
  for(Expr*k:{e->a,e->b,e->c}) if(k) s+=" "+exprStr(k,d-1);
  return s+")";
}
