// bsx: bit-vector expression DAG (hash-consed) with constant folding, concrete evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FEQ, O_FLT, O_FLE, O_FUNO, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FEXT, O_FTRUNC, O_FSQRT,
  O_FRND, // aux: 0 floor,1 ceil,2 trunc,3 rint(nearest even),4 round(nearest away)
  O_FTOSI_RNE
};

struct Expr {
  Op op; uint8_t nk; uint16_t w; uint32_t aux; // aux: extract low bit / sym id / rounding kind
  uint32_t id; uint64_t hash;
  const Expr* k[3];
  u128 c;
  mutable uint32_t evEpoch; mutable u128 evVal;
  mutable Z3_ast z3;
  mutable uint32_t scanEpoch;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) { if(w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

struct Val {
  u128 c = 0; const Expr* e = nullptr; uint32_t w = 0;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(unsigned width, u128 v) : c(v & maskw(width)), e(nullptr), w(width) {}
  bool conc() const { return !e && !agg; }
};

struct SymInfo { std::string name; unsigned w; };

extern std::vector<SymInfo> g_syms;
struct Model { std::unordered_map<uint32_t, u128> v; u128 get(uint32_t id) const { auto i = v.find(id); return i == v.end() ? 0 : i->second; } };

const Expr* mkConst(unsigned w, u128 v);
const Expr* mkSym(const std::string& name, unsigned w);
static inline const Expr* toE(const Val& v) { return v.e ? v.e : mkConst(v.w, v.c); }
static inline Val fromE(const Expr* e) { Val r; r.w = e->w; if(e->op == O_CONST) r.c = e->c; else r.e = e; return r; }

Val vBin(Op op, const Val& a, const Val& b);
Val vCmp(Op op, const Val& a, const Val& b); // EQ ULT ULE SLT SLE
Val vNot(const Val& a); // boolean not (w=1)
Val vIte(const Val& c, const Val& a, const Val& b);
Val vConcat(const Val& hi, const Val& lo);
Val vExtract(const Val& a, unsigned low, unsigned w);
Val vZext(const Val& a, unsigned w);
Val vSext(const Val& a, unsigned w);
Val vF(Op op, unsigned w, const Val& a, const Val* b = nullptr, unsigned aux = 0);
u128 evalE(const Expr* e, const Model& m);      // uses epochs
void newEvalEpoch();
u128 foldF(Op op, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux);
const std::vector<uint32_t>& symsOf(const Expr* e);
Z3_ast toZ3(const Expr* e);
extern Z3_context g_z3;
extern uint64_t g_nexpr;
std::string u128hex(u128 v, unsigned bytes);
