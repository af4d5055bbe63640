#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
std::vector<V> consts; std::vector<FuncIR*> funcs; std::unordered_map<u64,u32> funcOfObj;
std::vector<GlobalInit> globalsInit; u32 nextObjAtStart=1;
static LLVMContext* C; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*,u64> gaddr; static std::unordered_map<const Function*,u32> fidx; static std::map<std::string,u32> fbyname;
static std::unordered_map<const Constant*,int32_t> constMemo;

static void flat(Type*t,std::vector<MemLane>&out,u32 base=0){
  if(t->isIntegerTy()){ out.push_back({base,(u16)t->getIntegerBitWidth()}); return; }
  if(t->isPointerTy()){ out.push_back({base,64}); return; }
  if(t->isFloatTy()){ out.push_back({base,32}); return; }
  if(t->isDoubleTy()){ out.push_back({base,64}); return; }
  if(t->isHalfTy()){ out.push_back({base,16}); return; }
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flat(s->getElementType(i),out,base+sl->getElementOffset(i)); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 sz=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) flat(a->getElementType(),out,base+i*sz); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ u64 bits=DL->getTypeSizeInBits(v->getElementType()); if(bits%8){ // i1 vectors: mark with special offset, handled at load/store
      for(unsigned i=0;i<v->getNumElements();i++) out.push_back({base,(u16)bits}); return; }
    for(unsigned i=0;i<v->getNumElements();i++) flat(v->getElementType(),out,base+i*bits/8); return; }
  if(t->isVoidTy()) return;
  if(t->isMetadataTy()) return;
  std::string s; raw_string_ostream os(s); t->print(os); fprintf(stderr,"flat: unsupported type %s\n",os.str().c_str()); exit(3);
}
static std::string rustName(std::string s);
static u32 nlanes(Type*t){ std::vector<MemLane> v; flat(t,v); return v.size(); }

// constant evaluation
static u64 addrOf(const GlobalValue*g){ auto it=gaddr.find(g); if(it==gaddr.end()){ fprintf(stderr,"no address for %s\n",g->getName().str().c_str()); exit(3);} return it->second; }
static void constLanes(const Constant*c,std::vector<V>&out);
static u64 constAddr(const Constant*c){
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return constAddr(ga->getAliasee());
  if(auto*g=dyn_cast<GlobalValue>(c)) return addrOf(g);
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return 0;
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)){ fprintf(stderr,"const gep\n"); exit(3);} return constAddr(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); }
    std::vector<V> l; constLanes(c,l); return l[0].lo;
  }
  if(auto*ci=dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  fprintf(stderr,"constAddr?\n"); exit(3);
}
static void constLanes(const Constant*c,std::vector<V>&out){
  Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ const APInt&a=ci->getValue(); u128 v=a.getRawData()[0]; if(a.getBitWidth()>64) v|=(u128)a.getRawData()[1]<<64; out.push_back(cv(v)); return; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)){ for(u32 i=nlanes(t);i--;) out.push_back(cv(0)); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();i++) constLanes(cd->getElementAsConstant(i),out); return; }
  if(isa<ConstantAggregate>(c)){ for(unsigned i=0;i<c->getNumOperands();i++) constLanes(cast<Constant>(c->getOperand(i)),out); return; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: out.push_back(cv(constAddr(c))); return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: { std::vector<V> l; constLanes(ce->getOperand(0),l);
         for(auto&v:l){ u64 w=DL->getTypeSizeInBits(t->getScalarType()); out.push_back(cv(cval(v)&maskw(w))); } return; }
      case Instruction::Sub: case Instruction::Add: { std::vector<V> a,b; constLanes(ce->getOperand(0),a); constLanes(ce->getOperand(1),b); unsigned w=t->getIntegerBitWidth(); out.push_back(cv(evalOp(ce->getOpcode()==Instruction::Sub?SUB:ADD,w,cval(a[0]),cval(b[0])))); return; }
      case Instruction::ICmp: { std::vector<V> a,b; constLanes(ce->getOperand(0),a); constLanes(ce->getOperand(1),b); bool eq=cval(a[0])==cval(b[0]);
         if(ce->getPredicate()==CmpInst::ICMP_EQ){ out.push_back(cv(eq)); return;} if(ce->getPredicate()==CmpInst::ICMP_NE){ out.push_back(cv(!eq)); return;} break; }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr,"constexpr unsupported %s\n",os.str().c_str()); exit(3);
  }
  if(isa<GlobalValue>(c)){ out.push_back(cv(constAddr(c))); return; }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr,"const unsupported %s\n",os.str().c_str()); exit(3);
}
static void initBytes(const Constant*c,std::vector<u8>&b,u64 off){
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) return;
  Type*t=c->getType();
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(&b[off],r.data(),r.size()); return; }
  if(isa<ConstantArray>(c)||isa<ConstantVector>(c)){ Type*et=c->getOperand(0)->getType(); u64 sz=DL->getTypeAllocSize(et); for(unsigned i=0;i<c->getNumOperands();i++) initBytes(cast<Constant>(c->getOperand(i)),b,off+i*sz); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<c->getNumOperands();i++) initBytes(cast<Constant>(c->getOperand(i)),b,off+sl->getElementOffset(i)); return; }
  std::vector<V> l; constLanes(c,l); u64 sz=DL->getTypeStoreSize(t); u128 v=cval(l[0]); for(u64 i=0;i<sz&&i<16;i++) b[off+i]=(u8)(v>>(8*i));
}
struct FC { FuncIR*f; std::unordered_map<const Value*,int32_t> reg; std::unordered_map<const BasicBlock*,u32> bbStart; };
static int32_t constOp(const Constant*c){
  auto it=constMemo.find(c); if(it!=constMemo.end()) return it->second;
  std::vector<V> l; constLanes(c,l); int32_t base=consts.size(); for(auto&v:l) consts.push_back(v);
  int32_t r=~base; constMemo[c]=r; return r;
}
// operand for lane k of a value: regs grow upward, const indices ~base => lane k is ~(base+k) = r-k
static int32_t opnd(FC&fc,const Value*v){
  if(auto*c=dyn_cast<Constant>(v)) return constOp(c);
  auto it=fc.reg.find(v); if(it==fc.reg.end()){ 
    if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) return 0;
    fprintf(stderr,"no reg in %s\n",fc.f->name.c_str()); exit(3);} 
  return it->second;
}
static inline int32_t laneOp(int32_t o,u32 k){ return o>=0? o+(int)k : o-(int)k; }
static u32 aggOffset(Type*t,ArrayRef<unsigned> idx){ u32 o=0; for(unsigned i:idx){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) o+=nlanes(s->getElementType(k)); t=s->getElementType(i);} else if(auto*a=dyn_cast<ArrayType>(t)){ o+=i*nlanes(a->getElementType()); t=a->getElementType(); } } return o; }
int findFunc(const std::string&n){ auto it=fbyname.find(n); return it==fbyname.end()?-1:(int)it->second; }

void loadModule(const char*path){
  C=new LLVMContext(); SMDiagnostic err; M=parseIRFile(path,err,*C); if(!M){ fprintf(stderr,"cannot load %s: %s\n",path,err.getMessage().str().c_str()); exit(3);} DL=&M->getDataLayout();
  u32 id=1;
  for(auto&F:*M){ auto*f=new FuncIR(); f->idx=funcs.size(); f->name=F.getName().str(); f->dname=llvm::demangle(f->name); 
    size_t p=f->dname.rfind("::h"); if(p!=std::string::npos&&f->dname.size()-p==19) f->dname.resize(p);
    f->dname=rustName(f->dname); f->isDecl=F.isDeclaration(); f->llvmF=&F; fidx[&F]=f->idx; fbyname[f->name]=f->idx; funcOfObj[id]=f->idx; gaddr[&F]=(u64)id<<24; id++; funcs.push_back(f); }
  for(auto&G:M->globals()){ gaddr[&G]=(u64)id<<24; 
    // a weak symbol std declares as a variable but calls
    if(G.getName()=="__cxa_thread_atexit_impl"){ auto*f=new FuncIR(); f->idx=funcs.size(); f->name=f->dname=G.getName().str(); f->isDecl=true; f->llvmF=nullptr; funcOfObj[id]=f->idx; funcs.push_back(f); }
    id++; }
  for(auto&G:M->globals()){ GlobalInit gi; gi.obj=gaddr[&G]>>24; gi.name=G.getName().str(); gi.size=DL->getTypeAllocSize(G.getValueType()); if(G.isDeclaration()&&gi.size<16) gi.size=16; gi.constant=G.isConstant(); gi.bytes.assign(gi.size,0); if(G.hasInitializer()) initBytes(G.getInitializer(),gi.bytes,0); globalsInit.push_back(std::move(gi)); }
  nextObjAtStart=id;
}
static std::string rustName(std::string s){
  static const std::pair<const char*,const char*> t[]={{"$LT$","<"},{"$GT$",">"},{"$u20$"," "},{"$RF$","&"},{"$BP$","*"},{"$C$",","},{"$u7b$","{"},{"$u7d$","}"},{"$LP$","("},{"$RP$",")"},{"$u5b$","["},{"$u5d$","]"},{"$u27$","'"},{"$u2b$","+"},{"$u22$","\""},{"$u3b$",";"},{"..","::"}};
  for(auto&p:t){ size_t k=0; while((k=s.find(p.first,k))!=std::string::npos){ s.replace(k,strlen(p.first),p.second); k+=strlen(p.second); } }
  size_t k=0; while((k=s.find("_<",k))!=std::string::npos){ if(k==0||s[k-1]==':') s.erase(k,1); else k+=2; }
  return s; }
static Intr intrinsic(StringRef n){
  auto has=[&](const char*p){ return n.starts_with(p); };
  if(has("llvm.umin"))return IN_UMIN; if(has("llvm.umax"))return IN_UMAX; if(has("llvm.smin"))return IN_SMIN; if(has("llvm.smax"))return IN_SMAX;
  if(has("llvm.uadd.with"))return IN_UADDO; if(has("llvm.usub.with"))return IN_USUBO; if(has("llvm.umul.with"))return IN_UMULO; if(has("llvm.sadd.with"))return IN_SADDO; if(has("llvm.ssub.with"))return IN_SSUBO; if(has("llvm.smul.with"))return IN_SMULO;
  if(has("llvm.uadd.sat"))return IN_UADDSAT; if(has("llvm.usub.sat"))return IN_USUBSAT; if(has("llvm.sadd.sat"))return IN_SADDSAT; if(has("llvm.ssub.sat"))return IN_SSUBSAT;
  if(has("llvm.ctlz"))return IN_CTLZ; if(has("llvm.cttz"))return IN_CTTZ; if(has("llvm.ctpop"))return IN_CTPOP; if(has("llvm.fshl"))return IN_FSHL; if(has("llvm.fshr"))return IN_FSHR; if(has("llvm.bswap"))return IN_BSWAP; if(has("llvm.bitreverse"))return IN_BITREV; if(has("llvm.abs"))return IN_ABS;
  if(has("llvm.vector.reduce.add"))return IN_REDADD; if(has("llvm.vector.reduce.or"))return IN_REDOR; if(has("llvm.vector.reduce.and"))return IN_REDAND; if(has("llvm.vector.reduce.umax"))return IN_REDUMAX; if(has("llvm.vector.reduce.umin"))return IN_REDUMIN; if(has("llvm.vector.reduce.xor"))return IN_REDXOR; if(has("llvm.vector.reduce.mul"))return IN_REDMUL; if(has("llvm.vector.reduce.smax"))return IN_REDSMAX; if(has("llvm.vector.reduce.smin"))return IN_REDSMIN;
  if(has("llvm.memcpy"))return IN_MEMCPY; if(has("llvm.memmove"))return IN_MEMMOVE; if(has("llvm.memset"))return IN_MEMSET;
  if(has("llvm.assume")||has("llvm.lifetime")||has("llvm.dbg")||has("llvm.experimental.noalias")||has("llvm.invariant")||has("llvm.prefetch")||has("llvm.va_")||has("llvm.donothing"))return IN_NOP;
  if(has("llvm.expect"))return IN_EXPECT; if(has("llvm.load.relative"))return IN_LOADREL; if(has("llvm.trap")||has("llvm.debugtrap")||has("llvm.ubsantrap"))return IN_TRAP;
  if(has("llvm.x86.sse2.pmovmskb"))return IN_PMOVMSKB; if(has("llvm.threadlocal.address"))return IN_TLSADDR; if(has("llvm.ptrmask"))return IN_PTRMASK; if(has("llvm.is.constant"))return IN_ISCONST; if(has("llvm.objectsize"))return IN_OBJSIZE;
  return IN_NONE;
}
void compileFunc(FuncIR*f){
  f->compiled=true; Function&F=*(Function*)f->llvmF; FC fc; fc.f=f; u32 nr=0;
  for(auto&A:F.args()){ fc.reg[&A]=nr; nr+=nlanes(A.getType()); } f->nargs=nr;
  for(auto&B:F) for(auto&I:B){ u32 n=I.getType()->isVoidTy()?0:(I.getType()->isTokenTy()?0:nlanes(I.getType())); if(n||!I.getType()->isVoidTy()){ fc.reg[&I]=nr; nr+=n; } }
  f->nregs=nr;
  std::vector<std::pair<u32,const BasicBlock*>> edgeFix;
  auto mkEdge=[&](const BasicBlock*from,const BasicBlock*to)->u32{ Edge e; e.target=0; for(auto&P:to->phis()){ u32 n=nlanes(P.getType()); if(n) e.phis.push_back({fc.reg[&P],opnd(fc,P.getIncomingValueForBlock(from)),n}); } f->edges.push_back(e); edgeFix.push_back({(u32)f->edges.size()-1,to}); return f->edges.size()-1; };
  for(auto&B:F){ fc.bbStart[&B]=f->code.size();
    for(auto&I:B){
      if(isa<PHINode>(I)) continue;
      Inst x; memset(&x,0,sizeof x); x.op=I_UNSUP; Type*T=I.getType(); if(fc.reg.count(&I)) x.d=fc.reg[&I]; 
      auto sw=[&](Type*t){ return (u16)DL->getTypeSizeInBits(t->getScalarType()); };
      auto unsup=[&](){ std::string s; raw_string_ostream os(s); I.print(os); x.op=I_UNSUP; x.aux=f->strs.size(); f->strs.push_back(os.str()); };
      switch(I.getOpcode()){
        case Instruction::Add: x.f=ADD; goto bin; case Instruction::Sub: x.f=SUB; goto bin; case Instruction::Mul: x.f=MUL; goto bin;
        case Instruction::UDiv: x.f=UDIV; goto bin; case Instruction::SDiv: x.f=SDIV; goto bin; case Instruction::URem: x.f=UREM; goto bin; case Instruction::SRem: x.f=SREM; goto bin;
        case Instruction::And: x.f=AND; goto bin; case Instruction::Or: x.f=OR; goto bin; case Instruction::Xor: x.f=XOR; goto bin;
        case Instruction::Shl: x.f=SHL; goto bin; case Instruction::LShr: x.f=LSHR; goto bin; case Instruction::AShr: x.f=ASHR; goto bin;
        bin: x.op=I_BIN; x.w=sw(T); x.n=nlanes(T); x.a=opnd(fc,I.getOperand(0)); x.b=opnd(fc,I.getOperand(1)); break;
        case Instruction::ICmp: x.op=I_ICMP; x.f=cast<ICmpInst>(I).getPredicate(); x.w=sw(I.getOperand(0)->getType()); x.n=nlanes(T); x.a=opnd(fc,I.getOperand(0)); x.b=opnd(fc,I.getOperand(1)); break;
        case Instruction::Trunc: x.op=I_TRUNC; goto cast_; case Instruction::ZExt: x.op=I_ZEXT; goto cast_; case Instruction::SExt: x.op=I_SEXT; goto cast_;
        case Instruction::PtrToInt: x.op=sw(T)<64?I_TRUNC:I_ZEXT; goto cast_; case Instruction::IntToPtr: x.op=sw(I.getOperand(0)->getType())>64?I_TRUNC:I_ZEXT; goto cast_;
        case Instruction::BitCast: x.op=I_BITCAST; x.n=nlanes(I.getOperand(0)->getType()); x.aux=nlanes(T); x.w=sw(I.getOperand(0)->getType()); x.w2=sw(T); x.a=opnd(fc,I.getOperand(0)); break;
        cast_: x.n=nlanes(T); x.w=sw(I.getOperand(0)->getType()); x.w2=sw(T); x.a=opnd(fc,I.getOperand(0)); break;
        case Instruction::Select: { Type*ct=I.getOperand(0)->getType(); x.op=I_SELECT; x.f=ct->isVectorTy(); x.n=nlanes(T); x.a=opnd(fc,I.getOperand(0)); x.b=opnd(fc,I.getOperand(1)); x.c=opnd(fc,I.getOperand(2));
          x.w=sw(T->isStructTy()||T->isArrayTy()?Type::getInt8Ty(*C):T); x.w2=T->isIntegerTy()||(T->isVectorTy()&&T->getScalarType()->isIntegerTy())?0:1; break; }
        case Instruction::Freeze: { std::vector<int32_t> l; u32 n=nlanes(T); int32_t o=opnd(fc,I.getOperand(0)); for(u32 k=0;k<n;k++) l.push_back(laneOp(o,k)); x.op=I_LANES; x.n=n; x.aux=f->lanes.size(); f->lanes.push_back(l); break; }
        case Instruction::ExtractValue: { auto&E=cast<ExtractValueInst>(I); u32 o=aggOffset(E.getAggregateOperand()->getType(),E.getIndices()); int32_t a=opnd(fc,E.getAggregateOperand()); std::vector<int32_t> l; u32 n=nlanes(T); for(u32 k=0;k<n;k++) l.push_back(laneOp(a,o+k)); x.op=I_LANES; x.n=n; x.aux=f->lanes.size(); f->lanes.push_back(l); break; }
        case Instruction::InsertValue: { auto&E=cast<InsertValueInst>(I); u32 o=aggOffset(T,E.getIndices()); int32_t a=opnd(fc,E.getAggregateOperand()),v=opnd(fc,E.getInsertedValueOperand()); u32 vn=nlanes(E.getInsertedValueOperand()->getType()); std::vector<int32_t> l; u32 n=nlanes(T); for(u32 k=0;k<n;k++) l.push_back(k>=o&&k<o+vn?laneOp(v,k-o):laneOp(a,k)); x.op=I_LANES; x.n=n; x.aux=f->lanes.size(); f->lanes.push_back(l); break; }
        case Instruction::ShuffleVector: { auto&S=cast<ShuffleVectorInst>(I); int32_t a=opnd(fc,S.getOperand(0)),b=opnd(fc,S.getOperand(1)); int na=cast<FixedVectorType>(S.getOperand(0)->getType())->getNumElements(); std::vector<int32_t> l; for(int m:S.getShuffleMask()) l.push_back(m<0?laneOp(a,0):m<na?laneOp(a,m):laneOp(b,m-na)); x.op=I_LANES; x.n=l.size(); x.aux=f->lanes.size(); f->lanes.push_back(l); break; }
        case Instruction::ExtractElement: x.op=I_EXTELT; x.a=opnd(fc,I.getOperand(0)); x.b=opnd(fc,I.getOperand(1)); x.n=nlanes(I.getOperand(0)->getType()); break;
        case Instruction::InsertElement: x.op=I_INSELT; x.a=opnd(fc,I.getOperand(0)); x.b=opnd(fc,I.getOperand(1)); x.c=opnd(fc,I.getOperand(2)); x.n=nlanes(T); break;
        case Instruction::Load: { std::vector<MemLane> l; flat(T,l); if(T->isVectorTy()&&sw(T)%8) { unsup(); break; } x.op=I_LOAD; x.a=opnd(fc,I.getOperand(0)); x.n=l.size(); x.aux=f->mems.size(); f->mems.push_back(l); break; }
        case Instruction::Store: { std::vector<MemLane> l; Type*vt=I.getOperand(0)->getType(); flat(vt,l); if(vt->isVectorTy()&&sw(vt)%8) { unsup(); break; } x.op=I_STORE; x.a=opnd(fc,I.getOperand(1)); x.b=opnd(fc,I.getOperand(0)); x.n=l.size(); x.aux=f->mems.size(); f->mems.push_back(l); break; }
        case Instruction::GetElementPtr: { auto*G=cast<GEPOperator>(&I); if(T->isVectorTy()){ unsup(); break; } std::vector<GepIdx> l; i64 off=0; for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*(i64)sc; else l.push_back({opnd(fc,ix),(u16)ix->getType()->getIntegerBitWidth(),sc}); } }
          x.op=I_GEP; x.a=opnd(fc,G->getPointerOperand()); x.imm=off; x.aux=f->geps.size(); f->geps.push_back(l); break; }
        case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); x.op=I_ALLOCA; x.imm=DL->getTypeAllocSize(A.getAllocatedType()); x.a=opnd(fc,A.getArraySize()); break; }
        case Instruction::Br: { auto&Br=cast<BranchInst>(I); if(Br.isConditional()){ x.op=I_CONDBR; x.a=opnd(fc,Br.getCondition()); x.b=mkEdge(&B,Br.getSuccessor(0)); x.c=mkEdge(&B,Br.getSuccessor(1)); } else { x.op=I_BR; x.b=mkEdge(&B,Br.getSuccessor(0)); } break; }
        case Instruction::Switch: { auto&S=cast<SwitchInst>(I); x.op=I_SWITCH; x.a=opnd(fc,S.getCondition()); x.w=sw(S.getCondition()->getType()); SwitchDesc d; std::map<const BasicBlock*,u32> em; auto ed=[&](const BasicBlock*t){ auto it=em.find(t); if(it!=em.end()) return it->second; u32 e=mkEdge(&B,t); em[t]=e; return e; }; d.def=ed(S.getDefaultDest()); for(auto&c:S.cases()){ const APInt&a=c.getCaseValue()->getValue(); u128 v=a.getRawData()[0]; if(a.getBitWidth()>64) v|=(u128)a.getRawData()[1]<<64; d.cases.push_back({v,ed(c.getCaseSuccessor())}); } std::sort(d.cases.begin(),d.cases.end(),[](auto&p,auto&q){return p.first<q.first;}); x.aux=f->switches.size(); f->switches.push_back(d); break; }
        case Instruction::Ret: x.op=I_RET; if(I.getNumOperands()){ x.a=opnd(fc,I.getOperand(0)); x.n=nlanes(I.getOperand(0)->getType()); } break;
        case Instruction::Unreachable: x.op=I_UNREACH; break;
        case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); x.op=I_RMW; x.f=A.getOperation(); x.w=sw(T); x.a=opnd(fc,A.getPointerOperand()); x.b=opnd(fc,A.getValOperand()); break; }
        case Instruction::AtomicCmpXchg: { auto&A=cast<AtomicCmpXchgInst>(I); x.op=I_CMPXCHG; x.w=sw(A.getCompareOperand()->getType()); x.a=opnd(fc,A.getPointerOperand()); x.b=opnd(fc,A.getCompareOperand()); x.c=opnd(fc,A.getNewValOperand()); break; }
        case Instruction::Fence: continue;
        case Instruction::Call: case Instruction::Invoke: {
          auto&CB=cast<CallBase>(I); const Value*cal=CB.getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cal)) cal=ga->getAliasee()->stripPointerCasts();
          if(isa<InlineAsm>(cal)){ // black_box style asm: no effect if no result
            if(T->isVoidTy()) continue; unsup(); break; }
          auto*CF=dyn_cast<Function>(cal);
          CallDesc cd; bool meta=false; for(auto&A:CB.args()){ if(A->getType()->isMetadataTy()){ meta=true; continue; } int32_t o=opnd(fc,A.get()); std::vector<MemLane> l; flat(A->getType(),l); for(u32 k=0;k<l.size();k++){ cd.args.push_back(laneOp(o,k)); cd.widths.push_back(l[k].w);} } (void)meta;
          { std::vector<MemLane> l; if(!T->isVoidTy()) flat(T,l); for(auto&m:l) cd.retw.push_back(m.w); cd.nret=l.size(); }
          if(CF&&CF->isIntrinsic()){ Intr in=intrinsic(CF->getName()); if(in==IN_NOP) continue; if(in==IN_NONE){ unsup(); break; } x.op=I_INTRIN; x.f=in; x.n=cd.nret; x.w=cd.widths.empty()?0:cd.widths[0]; x.w2=cd.retw.empty()?0:cd.retw[0]; x.aux=f->calls.size(); f->calls.push_back(cd); }
          else if(CF){ x.op=I_CALL; x.b=fidx[CF]; x.n=cd.nret; x.aux=f->calls.size(); f->calls.push_back(cd); }
          else { x.op=I_CALLIND; x.a=opnd(fc,cal); x.n=cd.nret; x.aux=f->calls.size(); f->calls.push_back(cd); }
          f->code.push_back(x);
          if(auto*IV=dyn_cast<InvokeInst>(&I)){ Inst b; memset(&b,0,sizeof b); b.op=I_BR; b.b=mkEdge(&B,IV->getNormalDest()); f->code.push_back(b); }
          continue; }
        case Instruction::LandingPad: case Instruction::Resume: x.op=I_UNREACH; break;
        default: unsup();
      }
      f->code.push_back(x);
    } }
  for(auto&p:edgeFix) f->edges[p.first].target=fc.bbStart[p.second];
}
