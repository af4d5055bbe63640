#pragma once
#include "expr.h"
#include <unordered_map>
#include <string>
struct Model { std::vector<u128> v; u128 get(u32 i) const { return i<v.size()?v[i]:0; } void set(u32 i,u128 x){ if(i>=v.size()) v.resize(i+1,0); v[i]=x; } };
struct SolverStats { u64 queries=0, z3calls=0, cacheHits=0, modelHits=0, sat=0, unsat=0, unknown=0; double time=0, maxTime=0; };
extern SolverStats sst;
u128 evalExpr(Expr*e,const Model&m);   // uses epoch memo; call newEpoch() when the model changes
void newEpoch();
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
// is (pc slice) && cond satisfiable?  On SAT, `m` (a model of pc) is updated to satisfy also cond.
Res checkSat(const std::vector<Expr*>&pc, Expr*cond, Model&m);
void solverInit(unsigned timeoutMs);
void solverDumpUnsat(const char*dir); // log every unsat query as SMT-LIB
extern const char* dumpDir; extern unsigned dumpMax;
