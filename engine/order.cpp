// Small-domain reduction (range allocation) for symbols that are only ever compared with each other and with constants:
// such a symbol can be replaced by an index into a finite list of representatives (the constants plus enough values in every gap
// between them), which preserves satisfiability exactly and lets the bit-blaster work on a few bits instead of 32 or 64.
#include "expr.h"
#include "order.h"
#include <unordered_set>
#include <set>
namespace {
struct Grp { bool bad = false, sg = false, us = false; std::set<u128> consts; std::vector<const Expr*> syms; unsigned w = 0; };
struct Ctx {
  std::unordered_map<const Expr*, const Expr*> uf; std::unordered_set<const Expr*> gen, term, badSym; std::vector<std::tuple<const Expr*, const Expr*, Op>> cmps; std::unordered_set<const Expr*> badTerm; std::vector<const Expr*> syms, consts;
  const Expr* root(const Expr* e) { auto it = uf.find(e); if(it == uf.end()) { uf[e] = e; return e; } while(it->second != e) { const Expr* p = it->second; auto j = uf.find(p); it->second = j->second; e = p; it = uf.find(e); } return e; }
  void join(const Expr* a, const Expr* b) { a = root(a); b = root(b); if(a != b) uf[a] = b; }
  static bool cmp(const Expr* e) { return e->op >= O_EQ && e->op <= O_SLE && e->k[0]->w > 1; }
  void G(const Expr* e) {
    if(e->op == O_CONST || !gen.insert(e).second) return;
    if(e->op == O_SYM) { if(e->w > 1) badSym.insert(e); return; }
    if(cmp(e)) { cmps.push_back({ e->k[0], e->k[1], e->op }); for(int i = 0; i < 2; ++i) T(e->k[i]); if(e->k[0]->op != O_CONST && e->k[1]->op != O_CONST) join(e->k[0], e->k[1]); return; }
    for(int i = 0; i < e->nk; ++i) G(e->k[i]);
  }
  void T(const Expr* e) {
    if(e->op == O_CONST || !term.insert(e).second) return;
    root(e);
    if(e->op == O_SYM) { syms.push_back(e); return; }
    if(e->op == O_ITE) { G(e->k[0]); for(int i = 1; i < 3; ++i) { T(e->k[i]); if(e->k[i]->op != O_CONST) join(e, e->k[i]); } return; }
    badTerm.insert(e); G(e);
  }
};
struct Enc { unsigned k; Grp* g; std::vector<u128> reps; std::unordered_map<uint64_t, unsigned> dummy; };
}
bool OrderRed::reduce(const std::vector<const Expr*>& cs, std::vector<const Expr*>& out) {
  Ctx c; for(auto e : cs) c.G(e);
  if(c.syms.empty()) return false;
  std::unordered_map<const Expr*, Grp> gs;
  for(auto e : c.term) { const Expr* r = c.root(e); Grp& g = gs[r]; g.w = e->w; if(c.badTerm.count(e)) g.bad = true; if(e->op == O_SYM) { g.syms.push_back(e); if(c.badSym.count(e)) g.bad = true; }
    if(e->op == O_ITE) for(int i = 1; i < 3; ++i) if(e->k[i]->op == O_CONST) g.consts.insert(e->k[i]->c); }
  for(auto& t : c.cmps) { const Expr *a = std::get<0>(t), *b = std::get<1>(t); const Expr* n = a->op != O_CONST ? a : b; if(n->op == O_CONST) continue; Grp& g = gs[c.root(n)]; Op op = std::get<2>(t); if(op == O_SLT || op == O_SLE) g.sg = true; if(op == O_ULT || op == O_ULE) g.us = true; if(a->op == O_CONST) g.consts.insert(a->c); if(b->op == O_CONST) g.consts.insert(b->c); }
  std::unordered_map<const Expr*, const Enc*> encT; std::vector<std::unique_ptr<Enc>> encs; std::unordered_map<const Expr*, Enc*> byRoot; bool any = false;
  for(auto& kv : gs) {
    Grp& g = kv.second; if(g.bad || g.syms.empty() || (g.sg && g.us) || g.w > 64) continue;
    unsigned n = g.syms.size(); u128 bias = g.sg ? (u128)1 << (g.w - 1) : 0, top = maskw(g.w); // work in biased (unsigned) order
    std::vector<u128> cv; for(auto x : g.consts) cv.push_back((x ^ bias) & top); std::sort(cv.begin(), cv.end());
    std::vector<u128> reps;
    if(cv.empty()) { u128 b0 = bias; if(top - b0 < n) b0 = 0; for(unsigned i = 0; i < n && (u128)i <= top - b0; ++i) reps.push_back(b0 + i); if(reps.size() < n) reps.clear(), b0 = 0; if(reps.empty()) for(unsigned i = 0; i < n && (u128)i <= top; ++i) reps.push_back(i); }
    else {
      u128 lo = cv[0]; u128 cnt = lo < n ? lo : n; for(u128 i = lo - cnt; i < lo; ++i) reps.push_back(i);
      for(size_t i = 0; i < cv.size(); ++i) { reps.push_back(cv[i]); u128 end = i + 1 < cv.size() ? cv[i + 1] : top + 1; u128 gap = end - cv[i] - 1; if(gap > n) gap = n; for(u128 j = 1; j <= gap; ++j) reps.push_back(cv[i] + j); }
    }
    if(reps.size() > 2000) continue; unsigned k = 2; while(((size_t)1 << k) < reps.size()) ++k; if(k >= g.w) continue;
    auto e = std::make_unique<Enc>(); e->k = k; e->g = &g; for(auto& r : reps) e->reps.push_back((r ^ bias) & top); byRoot[kv.first] = e.get();
    for(auto s : g.syms) { const Expr* ns = mkSym("$o:" + g_syms[s->aux].name, k); symMap[s] = { ns, encs.size() }; if(e->reps.size() < ((size_t)1 << k)) { Val b = vCmp(O_ULE, fromE(ns), Val(k, e->reps.size() - 1)); if(b.e) out.push_back(b.e); } }
    reps_.push_back(e->reps); encs.push_back(std::move(e)); any = true;
  }
  if(!any) return false;
  std::unordered_map<const Expr*, Val> mg; std::unordered_map<const Expr*, Val> mt;
  auto idxOf = [&](Enc* e, u128 v) { for(size_t i = 0; i < e->reps.size(); ++i) if(e->reps[i] == v) return (u128)i; fprintf(stderr, "order: constant not represented\n"); abort(); };
  struct R { static bool touched(const Expr* e, OrderRed& o) { for(auto s : symsOf(e)) if(o.symIds.count(s)) return true; return false; } };
  for(auto& kv : symMap) symIds.insert(kv.first->aux);
  std::function<Val(const Expr*)> RG; std::function<Val(const Expr*, Enc*)> RT;
  RT = [&](const Expr* e, Enc* en) -> Val {
    if(e->op == O_CONST) return Val(en->k, idxOf(en, e->c));
    auto it = mt.find(e); if(it != mt.end()) return it->second;
    Val r; if(e->op == O_SYM) r = fromE(symMap[e].first); else r = vIte(RG(e->k[0]), RT(e->k[1], en), RT(e->k[2], en));
    mt[e] = r; return r; };
  RG = [&](const Expr* e) -> Val {
    if(e->op == O_CONST) return fromE(e); auto it = mg.find(e); if(it != mg.end()) return it->second; Val r;
    if(!R::touched(e, *this)) r = fromE(e);
    else if(Ctx::cmp(e)) {
      const Expr* n = e->k[0]->op != O_CONST ? e->k[0] : e->k[1]; auto b = byRoot.find(c.root(n));
      if(b != byRoot.end()) r = vCmp(e->op == O_SLT ? O_ULT : e->op == O_SLE ? O_ULE : e->op, RT(e->k[0], b->second), RT(e->k[1], b->second));
      else r = vCmp(e->op, RG(e->k[0]), RG(e->k[1]));
    } else switch(e->op) {
      case O_ITE: r = vIte(RG(e->k[0]), RG(e->k[1]), RG(e->k[2])); break;
      case O_CONCAT: r = vConcat(RG(e->k[0]), RG(e->k[1])); break; case O_EXTRACT: r = vExtract(RG(e->k[0]), e->aux, e->w); break;
      case O_ZEXT: r = vZext(RG(e->k[0]), e->w); break; case O_SEXT: r = vSext(RG(e->k[0]), e->w); break;
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = vCmp(e->op, RG(e->k[0]), RG(e->k[1])); break;
      default: r = vBin(e->op, RG(e->k[0]), RG(e->k[1])); }
    mg[e] = r; return r; };
  for(auto e : cs) { Val v = RG(e); if(!v.e) { if(!v.c) { unsat = true; return true; } continue; } out.push_back(v.e); }
  return true;
}
void OrderRed::back(Model& m) { for(auto& kv : symMap) { u128 i = m.get(kv.second.first->aux); auto& r = reps_[kv.second.second]; if(i >= r.size()) i = 0; m.v[kv.first->aux] = r[(size_t)i]; } }
