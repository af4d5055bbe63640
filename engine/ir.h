// Compact register IR compiled from LLVM bitcode.
#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
struct V { u64 lo, hi; Expr* e; };
static inline V cv(u128 x){ return V{(u64)x,(u64)(x>>64),nullptr}; }
static inline u128 cval(const V&v){ return ((u128)v.hi<<64)|v.lo; }

enum IOp : u8 { I_BIN, I_ICMP, I_TRUNC, I_ZEXT, I_SEXT, I_BITCAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH,
  I_RET, I_UNREACH, I_CALL, I_CALLIND, I_LANES, I_EXTELT, I_INSELT, I_RMW, I_CMPXCHG, I_INTRIN, I_UNSUP };
struct Inst { u8 op; u8 f; u16 w; u16 w2; int32_t d,a,b,c; u32 n; u32 aux; u64 imm; };
struct MemLane { u32 off; u16 w; };
struct GepIdx { int32_t opnd; u16 w; u64 scale; };
struct PhiCopy { int32_t d; int32_t s; u32 n; };
struct Edge { u32 target; std::vector<PhiCopy> phis; };
struct SwitchDesc { std::vector<std::pair<u128,u32>> cases; u32 def; };
struct CallDesc { std::vector<int32_t> args; std::vector<u16> widths; u32 nret; std::vector<u16> retw; };
struct FuncIR {
  std::string name, dname; u32 idx; bool compiled=false; bool isDecl=false; int builtin=0; void* llvmF=nullptr;
  u32 nregs=0, nargs=0; std::vector<Inst> code; 
  std::vector<Edge> edges; std::vector<SwitchDesc> switches; std::vector<CallDesc> calls;
  std::vector<std::vector<MemLane>> mems; std::vector<std::vector<GepIdx>> geps; std::vector<std::vector<int32_t>> lanes; std::vector<std::string> strs;
  u64 executed=0;
};
extern std::vector<V> consts;
extern std::vector<FuncIR*> funcs;
extern std::unordered_map<u64,u32> funcOfObj; // object id -> func idx
void loadModule(const char*path);
void compileFunc(FuncIR*f);
int findFunc(const std::string&n);
struct GlobalInit { u32 obj; u32 size; std::vector<u8> bytes; bool constant; std::string name; };
extern std::vector<GlobalInit> globalsInit;
extern u32 nextObjAtStart;
enum Intr { IN_NONE=0, IN_UMIN, IN_UMAX, IN_SMIN, IN_SMAX, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UADDSAT, IN_USUBSAT, IN_SADDSAT, IN_SSUBSAT,
  IN_CTLZ, IN_CTTZ, IN_CTPOP, IN_FSHL, IN_FSHR, IN_BSWAP, IN_BITREV, IN_ABS, IN_REDADD, IN_REDOR, IN_REDAND, IN_REDUMAX, IN_REDUMIN, IN_REDXOR, IN_MEMCPY, IN_MEMMOVE, IN_MEMSET, IN_ASSUME, IN_NOP, IN_EXPECT, IN_LOADREL, IN_TRAP,
  IN_PMOVMSKB, IN_TLSADDR, IN_PTRMASK, IN_ISCONST, IN_OBJSIZE, IN_REDMUL, IN_REDSMAX, IN_REDSMIN };
