#include "expr.h"
#include <cfenv>
std::vector<SymInfo> g_syms;
Z3_context g_z3 = nullptr;
uint64_t g_nexpr = 0;
static uint32_t g_epoch = 1;
static std::unordered_map<std::string, const Expr*> g_symtab;

struct EKey { size_t operator()(const Expr* e) const { return e->hash; } };
struct EEq { bool operator()(const Expr* a, const Expr* b) const {
  return a->op == b->op && a->w == b->w && a->aux == b->aux && a->nk == b->nk && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
#include <unordered_set>
static std::unordered_set<const Expr*, EKey, EEq> g_tab;

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static std::vector<char*> g_arena; static size_t g_arenaPos = 0; static const size_t ARENA = 1 << 20;
static Expr* allocE() {
  if(g_arena.empty() || g_arenaPos + sizeof(Expr) > ARENA) { g_arena.push_back((char*)aligned_alloc(64, ARENA)); g_arenaPos = 0; }
  Expr* e = (Expr*)(g_arena.back() + g_arenaPos); g_arenaPos += (sizeof(Expr) + 15) & ~15ULL; return e;
}
static const Expr* intern(Op op, unsigned w, uint32_t aux, u128 c, const Expr* a = nullptr, const Expr* b = nullptr, const Expr* d = nullptr) {
  Expr t; memset((void*)&t, 0, sizeof t);
  t.op = op; t.w = w; t.aux = aux; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d; t.nk = d ? 3 : b ? 2 : a ? 1 : 0;
  uint64_t h = mix(op * 1315423911u + w, aux); h = mix(h, (uint64_t)c); h = mix(h, (uint64_t)(c >> 64));
  if(a) h = mix(h, a->id); if(b) h = mix(h, b->id); if(d) h = mix(h, d->id);
  t.hash = h;
  auto it = g_tab.find(&t);
  if(it != g_tab.end()) return *it;
  Expr* e = allocE(); memcpy((void*)e, &t, sizeof t); e->id = ++g_nexpr;
  g_tab.insert(e);
  return e;
}
const Expr* mkConst(unsigned w, u128 v) { return intern(O_CONST, w, 0, v & maskw(w)); }
const Expr* mkSym(const std::string& name, unsigned w) {
  std::string key = name + ":" + std::to_string(w);
  auto it = g_symtab.find(key);
  if(it != g_symtab.end()) return it->second;
  uint32_t id = g_syms.size(); g_syms.push_back({ name, w });
  const Expr* e = intern(O_SYM, w, id, 0);
  g_symtab[key] = e;
  return e;
}

static u128 foldBin(Op op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch(op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { s128 x = sx(a, w), y = sx(b, w); if(!y) return x < 0 ? 1 : m; if(y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
  case O_SREM: { s128 x = sx(a, w), y = sx(b, w); if(!y) return a; if(y == -1) return 0; return (u128)(x % y) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return (a ^ b) & m;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LSHR: return b >= w ? 0 : (a & m) >> (unsigned)b;
  case O_ASHR: { s128 x = sx(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
// ITE trees with constant leaves (three-way comparators and the like): operations with constants are pushed to the leaves
static int constLeaves(const Expr* e, int lim) { if(e->op == O_CONST) return 1; if(e->op != O_ITE || lim <= 0) return 99; int a = constLeaves(e->k[1], lim - 1); if(a > lim) return 99; return a + constLeaves(e->k[2], lim - a); }
static bool constTree(const Expr* e) { return e->op == O_ITE && constLeaves(e, 5) <= 5; }
template<class F> static Val mapTree(const Expr* e, F f) { if(e->op == O_CONST) return f(e->c); Val x = mapTree(e->k[1], f), y = mapTree(e->k[2], f); return vIte(fromE(e->k[0]), x, y); }
static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }

Val vBin(Op op, const Val& a, const Val& b) {
  unsigned w = a.w;
  if(!a.e && !b.e) return Val(w, foldBin(op, w, a.c, b.c));
  if(commut(op) && !a.e) return vBin(op, b, a);
  u128 m = maskw(w);
  if(!b.e) {
    u128 c = b.c;
    switch(op) {
    case O_ADD: case O_SUB:
      if(!c) return a;
      if(op == O_SUB) return vBin(O_ADD, a, Val(w, (0 - c) & m));
      if(a.e->op == O_ADD && a.e->k[1]->op == O_CONST) return vBin(O_ADD, fromE(a.e->k[0]), Val(w, a.e->k[1]->c + c));
      break;
    case O_XOR: if(!c) return a;
      if(a.e->op == O_XOR && a.e->k[1]->op == O_CONST) return vBin(O_XOR, fromE(a.e->k[0]), Val(w, a.e->k[1]->c ^ c));
      if(w == 1 && a.e->op == O_ITE && a.e->k[1]->op == O_CONST && a.e->k[2]->op == O_CONST) return vIte(fromE(a.e->k[0]), Val(1, a.e->k[1]->c ^ c), Val(1, a.e->k[2]->c ^ c));
      break;
    case O_OR: if(!c) return a; if(c == m) return b; break;
    case O_AND: if(!c) return b; if(c == m) return a;
      if(a.e->op == O_AND && a.e->k[1]->op == O_CONST) return vBin(O_AND, fromE(a.e->k[0]), Val(w, a.e->k[1]->c & c));
      { // low mask -> zext(extract)
        unsigned n = 0; u128 t = c; while(t & 1) { ++n; t >>= 1; }
        if(!t && n < w) return vZext(vExtract(a, 0, n), w);
      }
      break;
    case O_MUL: if(!c) return b; if(c == 1) return a;
      if((c & (c - 1)) == 0) { unsigned n = 0; u128 t = c; while(t > 1) { ++n; t >>= 1; } return vBin(O_SHL, a, Val(w, n)); }
      break;
    case O_UDIV: if(c == 1) return a;
      if(c && (c & (c - 1)) == 0) { unsigned n = 0; u128 t = c; while(t > 1) { ++n; t >>= 1; } return vBin(O_LSHR, a, Val(w, n)); }
      break;
    case O_UREM: if(c == 1) return Val(w, 0);
      if(c && (c & (c - 1)) == 0) return vBin(O_AND, a, Val(w, c - 1));
      break;
    case O_SDIV: if(c == 1) return a; break;
    case O_SHL: if(!c) return a; if(c >= w) return Val(w, 0);
      return vConcat(vExtract(a, 0, w - (unsigned)c), Val((unsigned)c, 0));
    case O_LSHR: if(!c) return a; if(c >= w) return Val(w, 0);
      return vZext(vExtract(a, (unsigned)c, w - (unsigned)c), w);
    case O_ASHR: if(!c) return a; if(c >= w) c = w - 1;
      return vSext(vExtract(a, (unsigned)c, w - (unsigned)c), w);
    default: break;
    }
    // push constants through ITE with constant arms
    if(constTree(a.e)) return mapTree(a.e, [&](u128 t) { return Val(w, foldBin(op, w, t, c)); });
  } else if(!a.e) {
    if(constTree(b.e)) { u128 c = a.c; return mapTree(b.e, [&](u128 t) { return Val(w, foldBin(op, w, c, t)); }); }
    if(op == O_SHL || op == O_LSHR || op == O_UDIV || op == O_UREM) if(!a.c) return a;
  } else if(w == 1 && (op == O_AND || op == O_OR) && ((a.e->op == O_XOR && a.e->k[0] == b.e && a.e->k[1]->op == O_CONST) || (b.e->op == O_XOR && b.e->k[0] == a.e && b.e->k[1]->op == O_CONST))) {
    return Val(1, op == O_OR);
  } else if(a.e == b.e) {
    if(op == O_SUB || op == O_XOR) return Val(w, 0);
    if(op == O_AND || op == O_OR) return a;
  }
  if(op == O_SUB && a.e && b.e && w > 1 && a.e->op == O_ZEXT && b.e->op == O_ZEXT && a.e->k[0]->w == 1 && b.e->k[0]->w == 1) { // three-way comparator (x>y)-(x<y)
    const Expr *p = a.e->k[0], *q = b.e->k[0]; Val one(w, 1), zero(w, 0), neg(w, m);
    bool excl = p->op == q->op && (p->op == O_SLT || p->op == O_ULT || p->op == O_FLT) && p->k[0] == q->k[1] && p->k[1] == q->k[0];
    if(excl) return vIte(fromE(p), one, vIte(fromE(q), neg, zero));
    return vIte(fromE(p), vIte(fromE(q), zero, one), vIte(fromE(q), neg, zero));
  }
  const Expr *x = toE(a), *y = toE(b);
  if(commut(op) && y->op != O_CONST && x->id > y->id) std::swap(x, y);
  // or of disjoint zext/concat pieces : ZEXT(lo) | CONCAT(hi,0)  -> CONCAT(hi,lo)
  if(op == O_OR) for(int s = 0; s < 2; ++s) {
    const Expr* p = s ? y : x; const Expr* q = s ? x : y;
    if(p->op == O_CONCAT && p->k[1]->op == O_CONST && p->k[1]->c == 0 && q->op == O_ZEXT && q->k[0]->w <= p->k[1]->w)
      return vConcat(fromE(p->k[0]), vZext(fromE(q->k[0]), p->k[1]->w));
    if(p->op == O_ZEXT && p->k[0]->op == O_CONCAT && p->k[0]->k[1]->op == O_CONST && p->k[0]->k[1]->c == 0 && q->op == O_ZEXT && q->k[0]->w <= p->k[0]->k[1]->w)
      return vZext(vConcat(fromE(p->k[0]->k[0]), vZext(fromE(q->k[0]), p->k[0]->k[1]->w)), w);
  }
  return fromE(intern(op, w, 0, 0, x, y));
}

Val vNot(const Val& a) {
  if(!a.e) return Val(1, !a.c);
  if(a.e->op == O_XOR && a.e->k[1]->op == O_CONST && a.e->k[1]->c == 1) return fromE(a.e->k[0]);
  return vBin(O_XOR, a, Val(1, 1));
}

static u128 umaxE(const Expr* e) { // cheap upper bound
  switch(e->op) { case O_CONST: return e->c; case O_ZEXT: return umaxE(e->k[0]); case O_AND: { u128 a = umaxE(e->k[0]), b = umaxE(e->k[1]); return a < b ? a : b; }
    case O_ITE: { u128 a = umaxE(e->k[1]), b = umaxE(e->k[2]); return a > b ? a : b; } default: return maskw(e->w); }
}

Val vCmp(Op op, const Val& a, const Val& b) {
  unsigned w = a.w;
  if(!a.e && !b.e) return Val(1, foldBin(op, w, a.c, b.c));
  if(op == O_EQ) {
    if(!a.e) return vCmp(op, b, a);
    if(a.e == b.e) return Val(1, 1);
    if(!b.e) {
      u128 c = b.c;
      if(w == 1) return c ? a : vNot(a);
      const Expr* x = a.e;
      if(x->op == O_ADD && x->k[1]->op == O_CONST) return vCmp(op, fromE(x->k[0]), Val(w, c - x->k[1]->c));
      if(x->op == O_SUB && x->k[0]->op == O_CONST) return vCmp(op, fromE(x->k[1]), Val(w, x->k[0]->c - c));
      if(x->op == O_XOR && x->k[1]->op == O_CONST) return vCmp(op, fromE(x->k[0]), Val(w, c ^ x->k[1]->c));
      if(x->op == O_ZEXT) { unsigned kw = x->k[0]->w; if(c > maskw(kw)) return Val(1, 0); return vCmp(op, fromE(x->k[0]), Val(kw, c)); }
      if(x->op == O_SEXT) { unsigned kw = x->k[0]->w; u128 t = c & maskw(kw); if(((u128)sx(t, kw) & maskw(w)) != c) return Val(1, 0); return vCmp(op, fromE(x->k[0]), Val(kw, t)); }
      if(x->op == O_CONCAT) { unsigned lw = x->k[1]->w; if(x->k[0]->op == O_CONST || x->k[1]->op == O_CONST) {
          Val h = vCmp(O_EQ, fromE(x->k[0]), Val(x->k[0]->w, c >> lw)), l = vCmp(O_EQ, fromE(x->k[1]), Val(lw, c)); return vBin(O_AND, h, l); } }
      if(constTree(x)) return mapTree(x, [&](u128 t) { return Val(1, t == c); });
      if(x->op == O_ITE) {
        bool c1 = x->k[1]->op == O_CONST, c2 = x->k[2]->op == O_CONST;
        if(c1 && c2) { bool e1 = x->k[1]->c == c, e2 = x->k[2]->c == c; if(e1 && e2) return Val(1, 1); if(!e1 && !e2) return Val(1, 0); return e1 ? fromE(x->k[0]) : vNot(fromE(x->k[0])); }
        if(c1 && x->k[1]->c != c) return vBin(O_AND, vNot(fromE(x->k[0])), vCmp(op, fromE(x->k[2]), b));
        if(c2 && x->k[2]->c != c) return vBin(O_AND, fromE(x->k[0]), vCmp(op, fromE(x->k[1]), b));
        if(c1) return vBin(O_OR, fromE(x->k[0]), vCmp(op, fromE(x->k[2]), b));
        if(c2) return vBin(O_OR, vNot(fromE(x->k[0])), vCmp(op, fromE(x->k[1]), b));
      }
    } else {
      if(a.e->op == O_ZEXT && b.e->op == O_ZEXT && a.e->k[0]->w == b.e->k[0]->w) return vCmp(op, fromE(a.e->k[0]), fromE(b.e->k[0]));
      if(a.e->op == O_SEXT && b.e->op == O_SEXT && a.e->k[0]->w == b.e->k[0]->w) return vCmp(op, fromE(a.e->k[0]), fromE(b.e->k[0]));
    }
    const Expr *x = toE(a), *y = toE(b); if(y->op != O_CONST && x->id > y->id) std::swap(x, y);
    return fromE(intern(op, 1, 0, 0, x, y));
  }
  if(a.e && a.e == b.e) return Val(1, op == O_ULE || op == O_SLE);
  if(op == O_ULT) { if(!b.e && b.c == 0) return Val(1, 0); if(!b.e && b.c == 1) return vCmp(O_EQ, a, Val(w, 0)); if(!a.e && a.c == maskw(w)) return Val(1, 0); if(!a.e && a.c == 0) return vNot(vCmp(O_EQ, b, a)); }
  if(op == O_ULE) { if(!a.e && a.c == 0) return Val(1, 1); if(!b.e && b.c == maskw(w)) return Val(1, 1); if(!b.e && b.c == 0) return vCmp(O_EQ, a, b); }
  if((op == O_ULT || op == O_ULE) && !b.e && a.e->op == O_ZEXT) { unsigned kw = a.e->k[0]->w; if(b.c > maskw(kw)) return Val(1, 1); return vCmp(op, fromE(a.e->k[0]), Val(kw, b.c)); }
  if((op == O_ULT || op == O_ULE) && !a.e && b.e->op == O_ZEXT) { unsigned kw = b.e->k[0]->w; if(a.c > maskw(kw)) return Val(1, 0); return vCmp(op, Val(kw, a.c), fromE(b.e->k[0])); }
  if(a.e && b.e && a.e->op == O_ZEXT && b.e->op == O_ZEXT && a.e->k[0]->w == b.e->k[0]->w)
    return vCmp(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, fromE(a.e->k[0]), fromE(b.e->k[0]));
  if(a.e && b.e && a.e->op == O_SEXT && b.e->op == O_SEXT && a.e->k[0]->w == b.e->k[0]->w && (op == O_SLT || op == O_SLE))
    return vCmp(op, fromE(a.e->k[0]), fromE(b.e->k[0]));
  // signed comparisons of values known nonnegative
  if(op == O_SLT || op == O_SLE) {
    u128 half = (u128)1 << (w - 1);
    bool an = a.e ? umaxE(a.e) < half : a.c < half, bn = b.e ? umaxE(b.e) < half : b.c < half;
    if(an && bn) return vCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
    if(an && !b.e) return Val(1, 0); // a>=0 > b<0
    if(bn && !a.e) return Val(1, 1);
  }
  if(!b.e && constTree(a.e)) { u128 c = b.c; return mapTree(a.e, [&](u128 t) { return Val(1, foldBin(op, w, t, c)); }); }
  if(!a.e && constTree(b.e)) { u128 c = a.c; return mapTree(b.e, [&](u128 t) { return Val(1, foldBin(op, w, c, t)); }); }
  return fromE(intern(op, 1, 0, 0, toE(a), toE(b)));
}

Val vIte(const Val& c, const Val& a, const Val& b) {
  if(!c.e) return c.c ? a : b;
  if(a.w != b.w) { fprintf(stderr, "ite width %u %u\n", a.w, b.w); abort(); }
  if(a.e == b.e && (a.e || a.c == b.c)) return a;
  if(a.w == 1) {
    if(!a.e && !b.e) return a.c ? c : vNot(c);
    if(!a.e) return a.c ? vBin(O_OR, c, b) : vBin(O_AND, vNot(c), b);
    if(!b.e) return b.c ? vBin(O_OR, vNot(c), a) : vBin(O_AND, c, a);
  }
  if(c.e->op == O_XOR && c.e->k[1]->op == O_CONST) return vIte(vNot(c), b, a);
  return fromE(intern(O_ITE, a.w, 0, 0, c.e, toE(a), toE(b)));
}
Val vConcat(const Val& hi, const Val& lo) {
  unsigned w = hi.w + lo.w;
  if(!hi.e && !lo.e) return Val(w, (hi.c << lo.w) | lo.c);
  if(!hi.e && hi.c == 0) return vZext(lo, w);
  const Expr *h = toE(hi), *l = toE(lo);
  // adjacent extracts
  auto base = [](const Expr* e, unsigned& low) { if(e->op == O_EXTRACT) { low = e->aux; return e->k[0]; } low = 0; return e; };
  unsigned hl, ll; const Expr *hb = base(h, hl), *lb = base(l, ll);
  if(hb == lb && hl == ll + l->w && h->op == O_EXTRACT) return vExtract(fromE(hb), ll, w);
  // hi adjacent to top piece of a concat/..: CONCAT(ext(x), CONCAT(ext(x'), rest))
  if(l->op == O_CONCAT) { Val t; const Expr* m = l->k[0]; unsigned ml; const Expr* mb = base(m, ml);
    if(h->op == O_EXTRACT && mb == hb && hl == ml + m->w) return vConcat(vExtract(fromE(hb), ml, h->w + m->w), fromE(l->k[1]));
    if(h->op == O_CONST && m->op == O_CONST) return vConcat(Val(h->w + m->w, (h->c << m->w) | m->c), fromE(l->k[1])); }
  if(h->op == O_ITE && l->op == O_ITE && h->k[0] == l->k[0]) return vIte(fromE(h->k[0]), vConcat(fromE(h->k[1]), fromE(l->k[1])), vConcat(fromE(h->k[2]), fromE(l->k[2])));
  if(l->op == O_CONCAT && h->op == O_ITE && l->k[0]->op == O_ITE && h->k[0] == l->k[0]->k[0]) return vConcat(vConcat(hi, fromE(l->k[0])), fromE(l->k[1]));
  if(h->op == O_CONCAT) return vConcat(fromE(h->k[0]), vConcat(fromE(h->k[1]), lo)); // right-assoc
  return fromE(intern(O_CONCAT, w, 0, 0, h, l));
}
Val vExtract(const Val& a, unsigned low, unsigned w) {
  if(low == 0 && w == a.w) return a;
  if(!a.e) return Val(w, a.c >> low);
  const Expr* x = a.e;
  switch(x->op) {
  case O_EXTRACT: return vExtract(fromE(x->k[0]), low + x->aux, w);
  case O_CONCAT: { unsigned lw = x->k[1]->w;
    if(low + w <= lw) return vExtract(fromE(x->k[1]), low, w);
    if(low >= lw) return vExtract(fromE(x->k[0]), low - lw, w);
    return vConcat(vExtract(fromE(x->k[0]), 0, low + w - lw), vExtract(fromE(x->k[1]), low, lw - low)); }
  case O_ZEXT: { unsigned kw = x->k[0]->w;
    if(low >= kw) return Val(w, 0);
    if(low + w <= kw) return vExtract(fromE(x->k[0]), low, w);
    return vZext(vExtract(fromE(x->k[0]), low, kw - low), w); }
  case O_SEXT: { unsigned kw = x->k[0]->w;
    if(low + w <= kw) return vExtract(fromE(x->k[0]), low, w);
    if(low < kw) return vSext(vExtract(fromE(x->k[0]), low, kw - low), w);
    break; }
  case O_ITE: if(x->k[1]->op == O_CONST || x->k[2]->op == O_CONST || x->w <= 64)
    return vIte(fromE(x->k[0]), vExtract(fromE(x->k[1]), low, w), vExtract(fromE(x->k[2]), low, w));
    break;
  case O_AND: case O_OR: case O_XOR:
    return vBin(x->op, vExtract(fromE(x->k[0]), low, w), vExtract(fromE(x->k[1]), low, w));
  case O_ADD: case O_MUL: case O_SUB:
    if(low == 0) return vBin(x->op, vExtract(fromE(x->k[0]), 0, w), vExtract(fromE(x->k[1]), 0, w));
    break;
  default: break;
  }
  return fromE(intern(O_EXTRACT, w, low, 0, x));
}
Val vZext(const Val& a, unsigned w) {
  if(w == a.w) return a;
  if(!a.e) return Val(w, a.c);
  if(a.e->op == O_ZEXT) return vZext(fromE(a.e->k[0]), w);
  if(constTree(a.e)) return mapTree(a.e, [&](u128 t) { return Val(w, t); });
  return fromE(intern(O_ZEXT, w, 0, 0, a.e));
}
Val vSext(const Val& a, unsigned w) {
  if(w == a.w) return a;
  if(!a.e) return Val(w, (u128)sx(a.c, a.w));
  if(a.e->op == O_SEXT) return vSext(fromE(a.e->k[0]), w);
  if(a.e->op == O_ZEXT) return vZext(fromE(a.e->k[0]), w);
  if(constTree(a.e)) { unsigned aw = a.w; return mapTree(a.e, [&](u128 t) { return Val(w, (u128)sx(t, aw)); }); }
  return fromE(intern(O_SEXT, w, 0, 0, a.e));
}

// ---- floating point ----
static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static long double asL(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static u128 fromL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return x; }
template<class T> static T frnd(T x, unsigned k) { switch(k) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::nearbyint(x); default: return std::round(x); } }
template<class T> static bool fcmpT(Op op, T a, T b) { switch(op) { case O_FEQ: return a == b; case O_FLT: return a < b; case O_FLE: return a <= b; default: return std::isnan(a) || std::isnan(b); } }
template<class T> static T farith(Op op, T a, T b) { switch(op) { case O_FADD: return a + b; case O_FSUB: return a - b; case O_FMUL: return a * b; case O_FDIV: return a / b; case O_FREM: return std::fmod(a, b); default: abort(); } }
template<class T> static u128 toInt(T a, unsigned w, bool sgn, bool rne) {
  if(rne) a = std::nearbyint(a);
  if(std::isnan(a) || std::isinf(a)) return ((u128)1 << (w - 1));
  long double t = std::trunc((long double)a);
  if(sgn) { if(t < -std::ldexp(1.0L, w - 1) || t >= std::ldexp(1.0L, w - 1)) return ((u128)1 << (w - 1)); return (u128)(s128)t & maskw(w); }
  if(t < 0) return (u128)(s128)t & maskw(w);
  if(t >= std::ldexp(1.0L, w)) return ((u128)1 << (w - 1));
  return (u128)t & maskw(w);
}
u128 foldF(Op op, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux) {
  switch(op) {
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
    return aw == 32 ? fromF(farith<float>(op, asF(a), asF(b))) : aw == 64 ? fromD(farith<double>(op, asD(a), asD(b))) : fromL(farith<long double>(op, asL(a), asL(b)));
  case O_FEQ: case O_FLT: case O_FLE: case O_FUNO:
    return aw == 32 ? fcmpT(op, asF(a), asF(b)) : aw == 64 ? fcmpT(op, asD(a), asD(b)) : fcmpT(op, asL(a), asL(b));
  case O_FTOSI: case O_FTOUI: case O_FTOSI_RNE: {
    bool s = op != O_FTOUI, r = op == O_FTOSI_RNE;
    return aw == 32 ? toInt(asF(a), w, s, r) : aw == 64 ? toInt(asD(a), w, s, r) : toInt(asL(a), w, s, r); }
  case O_SITOF: { s128 v = sx(a, aw); return w == 32 ? fromF((float)v) : w == 64 ? fromD((double)v) : fromL((long double)v); }
  case O_UITOF: { return w == 32 ? fromF((float)a) : w == 64 ? fromD((double)a) : fromL((long double)a); }
  case O_FEXT: case O_FTRUNC: {
    long double v = aw == 32 ? asF(a) : aw == 64 ? asD(a) : asL(a);
    return w == 32 ? fromF((float)v) : w == 64 ? fromD((double)v) : fromL(v); }
  case O_FSQRT: return w == 32 ? fromF(std::sqrt(asF(a))) : w == 64 ? fromD(std::sqrt(asD(a))) : fromL(std::sqrt(asL(a)));
  case O_FRND: return w == 32 ? fromF(frnd(asF(a), aux)) : w == 64 ? fromD(frnd(asD(a), aux)) : fromL(frnd(asL(a), aux));
  default: abort();
  }
}
Val vF(Op op, unsigned w, const Val& a, const Val* b, unsigned aux) {
  if(!a.e && (!b || !b->e)) return Val(w, foldF(op, w, a.w, a.c, b ? b->c : 0, aux));
  return fromE(intern(op, w, aux, 0, toE(a), b ? toE(*b) : nullptr));
}

void newEvalEpoch() { ++g_epoch; }
u128 evalE(const Expr* e, const Model& m) {
  if(e->op == O_CONST) return e->c;
  if(e->evEpoch == g_epoch) return e->evVal;
  u128 r;
  if(e->op == O_SYM) r = m.get(e->aux) & maskw(e->w);
  else if(e->op == O_ITE) r = evalE(evalE(e->k[0], m) ? e->k[1] : e->k[2], m);
  else {
    u128 a = evalE(e->k[0], m), b = e->nk > 1 ? evalE(e->k[1], m) : 0;
    unsigned kw = e->k[0]->w;
    switch(e->op) {
    case O_CONCAT: r = (a << e->k[1]->w) | b; break;
    case O_EXTRACT: r = (a >> e->aux) & maskw(e->w); break;
    case O_ZEXT: r = a; break;
    case O_SEXT: r = (u128)sx(a, kw) & maskw(e->w); break;
    default:
      if(e->op >= O_FADD) r = foldF(e->op, e->w, kw, a, b, e->aux) & maskw(e->w);
      else r = foldBin(e->op, kw, a, b);
    }
  }
  e->evEpoch = g_epoch; e->evVal = r;
  return r;
}

static std::unordered_map<const Expr*, std::vector<uint32_t>> g_symcache;
static uint32_t g_scan = 0;
static void scan(const Expr* e, std::vector<uint32_t>& out) {
  if(e->scanEpoch == g_scan) return; e->scanEpoch = g_scan;
  if(e->op == O_SYM) { out.push_back(e->aux); return; }
  for(int i = 0; i < e->nk; ++i) if(e->k[i]->op != O_CONST) scan(e->k[i], out);
}
const std::vector<uint32_t>& symsOf(const Expr* e) {
  auto it = g_symcache.find(e); if(it != g_symcache.end()) return it->second;
  std::vector<uint32_t> v; ++g_scan; scan(e, v); std::sort(v.begin(), v.end());
  return g_symcache[e] = v;
}

static Z3_ast keep(Z3_ast a) { Z3_inc_ref(g_z3, a); return a; }
static Z3_ast z3const(unsigned w, u128 c) {
  if(w <= 64) return Z3_mk_unsigned_int64(g_z3, (uint64_t)c, Z3_mk_bv_sort(g_z3, w));
  Z3_ast hi = keep(Z3_mk_unsigned_int64(g_z3, (uint64_t)(c >> 64), Z3_mk_bv_sort(g_z3, w - 64)));
  Z3_ast lo = keep(Z3_mk_unsigned_int64(g_z3, (uint64_t)c, Z3_mk_bv_sort(g_z3, 64)));
  return Z3_mk_concat(g_z3, hi, lo);
}
static Z3_ast b2bv(Z3_ast b) { Z3_ast x = keep(b); return Z3_mk_ite(g_z3, x, keep(z3const(1, 1)), keep(z3const(1, 0))); }
static Z3_ast bv2b(Z3_ast a) { return Z3_mk_eq(g_z3, a, keep(z3const(1, 1))); }
static Z3_sort fs(unsigned w) { static Z3_context owner = nullptr; static Z3_sort s32, s64; if(owner != g_z3) { owner = g_z3; s32 = Z3_mk_fpa_sort_32(g_z3); Z3_inc_ref(g_z3, Z3_sort_to_ast(g_z3, s32)); s64 = Z3_mk_fpa_sort_64(g_z3); Z3_inc_ref(g_z3, Z3_sort_to_ast(g_z3, s64)); } if(w == 32) return s32; if(w == 64) return s64; fprintf(stderr, "bsx: symbolic long double unsupported\n"); throw std::string("unsupported symbolic long double"); }
static Z3_ast tofp(Z3_ast a, unsigned w) { return keep(Z3_mk_fpa_to_fp_bv(g_z3, a, fs(w))); }
Z3_ast toZ3(const Expr* e) {
  if(e->z3) return e->z3;
  Z3_ast r, a = nullptr, b = nullptr, c = nullptr;
  if(e->nk > 0) a = toZ3(e->k[0]); if(e->nk > 1) b = toZ3(e->k[1]); if(e->nk > 2) c = toZ3(e->k[2]);
  Z3_context z = g_z3;
  unsigned kw = e->nk ? e->k[0]->w : 0;
  auto RNE = [&] { return keep(Z3_mk_fpa_rne(z)); }; auto RTZ = [&] { return keep(Z3_mk_fpa_rtz(z)); };
  switch(e->op) {
  case O_CONST: r = z3const(e->w, e->c); break;
  case O_SYM: r = Z3_mk_const(z, Z3_mk_int_symbol(z, e->aux), Z3_mk_bv_sort(z, e->w)); break;
  case O_ADD: r = Z3_mk_bvadd(z, a, b); break; case O_SUB: r = Z3_mk_bvsub(z, a, b); break; case O_MUL: r = Z3_mk_bvmul(z, a, b); break;
  case O_UDIV: r = Z3_mk_bvudiv(z, a, b); break; case O_SDIV: r = Z3_mk_bvsdiv(z, a, b); break;
  case O_UREM: r = Z3_mk_bvurem(z, a, b); break; case O_SREM: r = Z3_mk_bvsrem(z, a, b); break;
  case O_AND: r = Z3_mk_bvand(z, a, b); break; case O_OR: r = Z3_mk_bvor(z, a, b); break; case O_XOR: r = Z3_mk_bvxor(z, a, b); break;
  case O_SHL: r = Z3_mk_bvshl(z, a, b); break; case O_LSHR: r = Z3_mk_bvlshr(z, a, b); break; case O_ASHR: r = Z3_mk_bvashr(z, a, b); break;
  case O_EQ: r = b2bv(Z3_mk_eq(z, a, b)); break; case O_ULT: r = b2bv(Z3_mk_bvult(z, a, b)); break; case O_ULE: r = b2bv(Z3_mk_bvule(z, a, b)); break;
  case O_SLT: r = b2bv(Z3_mk_bvslt(z, a, b)); break; case O_SLE: r = b2bv(Z3_mk_bvsle(z, a, b)); break;
  case O_ITE: r = Z3_mk_ite(z, keep(bv2b(a)), b, c); break;
  case O_CONCAT: r = Z3_mk_concat(z, a, b); break;
  case O_EXTRACT: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, a); break;
  case O_ZEXT: r = Z3_mk_zero_ext(z, e->w - kw, a); break; case O_SEXT: r = Z3_mk_sign_ext(z, e->w - kw, a); break;
  case O_FADD: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_add(z, RNE(), tofp(a, kw), tofp(b, kw)))); break;
  case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_sub(z, RNE(), tofp(a, kw), tofp(b, kw)))); break;
  case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_mul(z, RNE(), tofp(a, kw), tofp(b, kw)))); break;
  case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_div(z, RNE(), tofp(a, kw), tofp(b, kw)))); break;
  case O_FREM: throw std::string("unsupported symbolic frem");
  case O_FEQ: r = b2bv(Z3_mk_fpa_eq(z, tofp(a, kw), tofp(b, kw))); break;
  case O_FLT: r = b2bv(Z3_mk_fpa_lt(z, tofp(a, kw), tofp(b, kw))); break;
  case O_FLE: r = b2bv(Z3_mk_fpa_leq(z, tofp(a, kw), tofp(b, kw))); break;
  case O_FUNO: { Z3_ast x[2] = { keep(Z3_mk_fpa_is_nan(z, tofp(a, kw))), keep(Z3_mk_fpa_is_nan(z, tofp(b, kw))) }; r = b2bv(Z3_mk_or(z, 2, x)); break; }
  case O_FTOSI: case O_FTOSI_RNE: { // x86 semantics: out of range gives the integer indefinite value
    Z3_ast f = tofp(a, kw); Z3_ast cv = keep(Z3_mk_fpa_to_sbv(z, e->op == O_FTOSI ? RTZ() : RNE(), f, e->w));
    Z3_ast rr = keep(Z3_mk_fpa_round_to_integral(z, e->op == O_FTOSI ? RTZ() : RNE(), f));
    double lim = std::ldexp(1.0, e->w - 1);
    auto num = [&](double d) { return keep(kw == 32 ? Z3_mk_fpa_numeral_float(z, (float)d, fs(32)) : Z3_mk_fpa_numeral_double(z, d, fs(64))); };
    Z3_ast cs[2] = { keep(Z3_mk_fpa_geq(z, rr, num(-lim))), keep(Z3_mk_fpa_lt(z, rr, num(lim))) };
    r = Z3_mk_ite(z, keep(Z3_mk_and(z, 2, cs)), cv, keep(z3const(e->w, (u128)1 << (e->w - 1)))); break; }
  case O_FTOUI: r = Z3_mk_fpa_to_ubv(z, RTZ(), tofp(a, kw), e->w); break;
  case O_SITOF: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_to_fp_signed(z, RNE(), a, fs(e->w)))); break;
  case O_UITOF: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_to_fp_unsigned(z, RNE(), a, fs(e->w)))); break;
  case O_FEXT: case O_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_to_fp_float(z, RNE(), tofp(a, kw), fs(e->w)))); break;
  case O_FSQRT: r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_sqrt(z, RNE(), tofp(a, kw)))); break;
  case O_FRND: { Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(z) : e->aux == 1 ? Z3_mk_fpa_rtp(z) : e->aux == 2 ? Z3_mk_fpa_rtz(z) : e->aux == 3 ? Z3_mk_fpa_rne(z) : Z3_mk_fpa_rna(z);
    r = Z3_mk_fpa_to_ieee_bv(z, keep(Z3_mk_fpa_round_to_integral(z, keep(rm), tofp(a, kw)))); break; }
  default: abort();
  }
  e->z3 = keep(r);
  return r;
}
std::string u128hex(u128 v, unsigned bytes) { std::string s; static const char* h = "0123456789abcdef"; for(unsigned i = 0; i < bytes; ++i) { unsigned b = (unsigned)(v >> (8 * i)) & 255; s += h[b >> 4]; s += h[b & 15]; } return s; }
