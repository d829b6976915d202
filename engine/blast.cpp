// Eager QF_BV decision procedure: expressions are bit-blasted into a shared, structurally hashed gate graph; each query takes the cone of
// influence of its constraints to CNF and decides it with a small CDCL solver, handing queries over its conflict budget to PicoSAT.
#include "expr.h"
#include <array>
extern "C" {
#include <picosat/picosat.h>
}
#include "blast.h"
uint64_t g_picoQueries = 0;
namespace {
struct Gate { int t, a, b, c; }; // 0 input, 1 and, 2 xor, 3 ite
std::vector<Gate> gate; std::unordered_map<const Expr*, std::vector<int>> memo; std::unordered_map<uint64_t, int> gates; int T = 0; std::vector<int> local; uint64_t gen = 0;
int fresh(int t = 0, int a = 0, int b = 0, int c = 0) { gate.push_back({ t, a, b, c }); return (int)gate.size() - 1; }
void init() { ++gen; gate.clear(); memo.clear(); gates.clear(); gate.push_back({ 0, 0, 0, 0 }); T = fresh(); }
uint64_t key(int kind, int a, int b) { return ((uint64_t)kind << 60) ^ ((uint64_t)(uint32_t)(a + 0x20000000) << 30) ^ (uint64_t)(uint32_t)(b + 0x20000000); }
int AND(int a, int b) {
  if(a == -T || b == -T || a == -b) return -T; if(a == T) return b; if(b == T || a == b) return a; if(a > b) std::swap(a, b);
  auto& g = gates[key(1, a, b)]; if(!g) g = fresh(1, a, b); return g;
}
int OR(int a, int b) { return -AND(-a, -b); }
int XOR(int a, int b) {
  if(a == T) return -b; if(a == -T) return b; if(b == T) return -a; if(b == -T) return a; if(a == b) return -T; if(a == -b) return T;
  int sg = 1; if(a < 0) a = -a, sg = -sg; if(b < 0) b = -b, sg = -sg; if(a > b) std::swap(a, b);
  auto& g = gates[key(2, a, b)]; if(!g) g = fresh(2, a, b); return sg * g;
}
int ITE(int c, int a, int b) {
  if(c == T) return a; if(c == -T) return b; if(a == b) return a; if(a == -b) return XOR(-c, a) /* c? a : -a == a xnor c */; if(a == T) return OR(c, b); if(a == -T) return AND(-c, b); if(b == T) return OR(-c, a); if(b == -T) return AND(c, a);
  if(a == c) return OR(c, b); if(a == -c) return AND(-c, b); if(b == c) return AND(c, a); if(b == -c) return OR(-c, a);
  if(c < 0) { c = -c; std::swap(a, b); }
  uint64_t k = key(3, a, b) * 0x9e3779b97f4a7c15ULL + (uint64_t)c * 2 + 1; (void)k;
  static std::unordered_map<uint64_t, std::vector<std::array<int, 4>>> it; static uint64_t owner = 0; if(owner != gen) { it.clear(); owner = gen; }
  auto& v = it[k]; for(auto& x : v) if(x[0] == c && x[1] == a && x[2] == b) return x[3];
  int o = fresh(3, a, b, c); it[k].push_back({ c, a, b, o }); return o;
}
int MAJ(int a, int b, int c) { return OR(AND(a, b), AND(c, OR(a, b))); }
typedef std::vector<int> W;
W addw(const W& a, const W& b, int cin) { W r(a.size()); int c = cin; for(size_t i = 0; i < a.size(); ++i) { int x = XOR(a[i], b[i]); r[i] = XOR(x, c); if(i + 1 < a.size()) c = MAJ(a[i], b[i], c); } return r; }
W notw(const W& a) { W r(a); for(auto& x : r) x = -x; return r; }
W negw(const W& a) { W z(a.size(), -T); return addw(z, notw(a), T); }
W itew(int c, const W& a, const W& b) { W r(a.size()); for(size_t i = 0; i < a.size(); ++i) r[i] = ITE(c, a[i], b[i]); return r; }
int ultw(const W& a, const W& b) { int r = -T; for(size_t i = 0; i < a.size(); ++i) r = ITE(XOR(a[i], b[i]), b[i], r); return r; }
int eqw(const W& a, const W& b) { int r = T; for(size_t i = 0; i < a.size(); ++i) r = AND(r, -XOR(a[i], b[i])); return r; }
W mulw(const W& a, const W& b) { size_t n = a.size(); W r(n, -T); for(size_t i = 0; i < n; ++i) { if(b[i] == -T) continue; W t(n, -T); for(size_t j = 0; i + j < n; ++j) t[i + j] = AND(a[j], b[i]); r = addw(r, t, -T); } return r; }
void divw(const W& n, const W& d, W& q, W& r) { size_t w = n.size(); r.assign(w, -T); q.assign(w, -T); 
  for(size_t i = w; i-- > 0;) { int top = r[w - 1]; W s(w); for(size_t j = w - 1; j > 0; --j) s[j] = r[j - 1]; s[0] = n[i]; int ge = OR(top, -ultw(s, d)); W sub = addw(s, notw(d), T); r = itew(ge, sub, s); q[i] = ge; } }
W shiftw(const W& a, const W& b, int kind) { // 0 shl 1 lshr 2 ashr
  size_t w = a.size(); W r = a; int fill = kind == 2 ? a[w - 1] : -T; unsigned lg = 0; while((1u << lg) < w) ++lg; int big = -T;
  for(size_t i = lg; i < b.size(); ++i) big = OR(big, b[i]);
  for(unsigned k = 0; k < lg && k < b.size(); ++k) { size_t sft = (size_t)1 << k; W t(w); for(size_t i = 0; i < w; ++i) { if(kind == 0) t[i] = i >= sft ? r[i - sft] : -T; else t[i] = i + sft < w ? r[i + sft] : fill; } r = itew(b[k], t, r); }
  // for non power-of-two widths shifting >= w already yields fill because every stage shifts in fill
  return itew(big, W(w, fill), r);
}
const W& blast(const Expr* e) {
  auto f = memo.find(e); if(f != memo.end()) return f->second;
  W r; unsigned w = e->w;
  auto K = [&](int i) -> W { return blast(e->k[i]); };
  switch(e->op) {
  case O_CONST: r.resize(w); for(unsigned i = 0; i < w; ++i) r[i] = ((e->c >> i) & 1) ? T : -T; break;
  case O_SYM: r.resize(w); for(unsigned i = 0; i < w; ++i) r[i] = fresh(); break;
  case O_ADD: r = addw(K(0), K(1), -T); break; case O_SUB: r = addw(K(0), notw(K(1)), T); break;
  case O_MUL: { W a = K(0), b = K(1); int ca = 0, cb = 0; for(auto x : a) ca += (x == T || x == -T); for(auto x : b) cb += (x == T || x == -T); r = ca > cb ? mulw(b, a) : mulw(a, b); break; }
  case O_UDIV: case O_UREM: { W q, m, d = K(1); divw(K(0), d, q, m); r = e->op == O_UDIV ? q : m; break; } // division by zero gives all-ones / dividend, as SMT-LIB
  case O_SDIV: case O_SREM: { W a = K(0), b = K(1); int sa = a.back(), sb = b.back(); W q, m; divw(itew(sa, negw(a), a), itew(sb, negw(b), b), q, m); r = e->op == O_SDIV ? itew(XOR(sa, sb), negw(q), q) : itew(sa, negw(m), m); break; }
  case O_AND: { W a = K(0), b = K(1); r.resize(w); for(unsigned i = 0; i < w; ++i) r[i] = AND(a[i], b[i]); break; }
  case O_OR: { W a = K(0), b = K(1); r.resize(w); for(unsigned i = 0; i < w; ++i) r[i] = OR(a[i], b[i]); break; }
  case O_XOR: { W a = K(0), b = K(1); r.resize(w); for(unsigned i = 0; i < w; ++i) r[i] = XOR(a[i], b[i]); break; }
  case O_SHL: r = shiftw(K(0), K(1), 0); break; case O_LSHR: r = shiftw(K(0), K(1), 1); break; case O_ASHR: r = shiftw(K(0), K(1), 2); break;
  case O_EQ: r = { eqw(K(0), K(1)) }; break; case O_ULT: r = { ultw(K(0), K(1)) }; break; case O_ULE: r = { -ultw(K(1), K(0)) }; break;
  case O_SLT: case O_SLE: { W a = K(0), b = K(1); a.back() = -a.back(); b.back() = -b.back(); r = { e->op == O_SLT ? ultw(a, b) : -ultw(b, a) }; break; }
  case O_ITE: { W c = K(0); r = itew(c[0], K(1), K(2)); break; }
  case O_CONCAT: { r = K(1); W h = K(0); r.insert(r.end(), h.begin(), h.end()); break; }
  case O_EXTRACT: { W a = K(0); r.assign(a.begin() + e->aux, a.begin() + e->aux + w); break; }
  case O_ZEXT: r = K(0); r.resize(w, -T); break; case O_SEXT: { r = K(0); int s = r.back(); r.resize(w, s); break; }
  default: throw std::string("floating point reached the bit-blaster");
  }
  return memo[e] = std::move(r);
}

// ---- CDCL over the cone of one query
struct Cdcl {
  int nv; std::vector<int> db; std::vector<std::vector<std::pair<int, int>>> wl; std::vector<signed char> val, phase, seen; std::vector<int> level, reason, trail, tl; size_t qh = 0; std::vector<double> act; double inc = 1; bool ok = true;
  std::vector<int> heap, hpos;
  static int ix(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
  void reset(int n) { nv = n; db.clear(); size_t m = 2 * (size_t)n + 2; if(wl.size() < m) wl.resize(m); for(size_t i = 0; i < m; ++i) wl[i].clear(); val.assign(n + 1, 0); phase.assign(n + 1, -1); seen.assign(n + 1, 0); level.assign(n + 1, 0); reason.assign(n + 1, -1); act.assign(n + 1, 0); trail.clear(); tl.clear(); qh = 0; ok = true; inc = 1; heap.clear(); hpos.assign(n + 1, -1); }
  int V(int l) const { return l > 0 ? val[l] : -val[-l]; }
  void up(int i) { int v = heap[i]; while(i > 0) { int p = (i - 1) / 2; if(act[heap[p]] >= act[v]) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = v; hpos[v] = i; }
  void down(int i) { int v = heap[i], n = heap.size(); for(;;) { int c = 2 * i + 1; if(c >= n) break; if(c + 1 < n && act[heap[c + 1]] > act[heap[c]]) ++c; if(act[heap[c]] <= act[v]) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = v; hpos[v] = i; }
  void hins(int v) { if(hpos[v] >= 0) return; heap.push_back(v); hpos[v] = heap.size() - 1; up(hpos[v]); }
  int hpop() { int v = heap[0]; hpos[v] = -1; int l = heap.back(); heap.pop_back(); if(!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return v; }
  void bump(int v) { if((act[v] += inc) > 1e100) { for(auto& a : act) a *= 1e-100; inc *= 1e-100; } if(hpos[v] >= 0) up(hpos[v]); }
  void enq(int l, int r) { int v = l > 0 ? l : -l; val[v] = l > 0 ? 1 : -1; level[v] = tl.size(); reason[v] = r; trail.push_back(l); }
  void unit(int a) { if(!ok) return; int v = V(a); if(v < 0) ok = false; else if(!v) enq(a, -1); }
  int addc(const int* c, int n) { int o = db.size(); db.push_back(n); for(int i = 0; i < n; ++i) db.push_back(c[i]); wl[ix(c[0])].push_back({ o, c[1] }); wl[ix(c[1])].push_back({ o, c[0] }); return o; }
  void c2(int a, int b) { int c[2] = { a, b }; addc(c, 2); } void c3(int a, int b, int d) { int c[3] = { a, b, d }; addc(c, 3); }
  int propagate() {
    while(qh < trail.size()) { int f = -trail[qh++]; auto& w = wl[ix(f)]; size_t i = 0, j = 0;
      while(i < w.size()) { auto p = w[i]; if(V(p.second) > 0) { w[j++] = w[i++]; continue; } int* c = &db[p.first]; int n = c[0]; ++c; if(c[0] == f) { c[0] = c[1]; c[1] = f; }
        if(V(c[0]) > 0) { w[j++] = { p.first, c[0] }; ++i; continue; }
        bool found = false; for(int k = 2; k < n; ++k) if(V(c[k]) >= 0) { c[1] = c[k]; c[k] = f; wl[ix(c[1])].push_back({ p.first, c[0] }); found = true; break; }
        if(found) { ++i; continue; }
        w[j++] = { p.first, c[0] }; ++i; if(V(c[0]) < 0) { while(i < w.size()) w[j++] = w[i++]; w.resize(j); qh = trail.size(); return p.first; } enq(c[0], p.first); }
      w.resize(j); }
    return -1;
  }
  void cancel(int lv) { if((int)tl.size() <= lv) return; for(int i = trail.size() - 1; i >= tl[lv]; --i) { int v = trail[i] > 0 ? trail[i] : -trail[i]; phase[v] = val[v]; val[v] = 0; reason[v] = -1; hins(v); } trail.resize(tl[lv]); tl.resize(lv); qh = trail.size(); }
  int solve(uint64_t maxConf) { // 1 sat -1 unsat 0 budget
    if(!ok) return -1; if(propagate() >= 0) return -1; for(int v = nv; v >= 1; --v) if(!val[v]) hins(v);
    uint64_t conf = 0, rest = 64; std::vector<int> learnt;
    for(;;) {
      int cf = propagate();
      if(cf >= 0) {
        if(tl.empty()) return -1; if(++conf > maxConf) return 0;
        learnt.assign(1, 0); int cnt = 0, p = 0, idx = trail.size() - 1, r = cf;
        do { int* c = &db[r]; int n = c[0]; ++c; for(int k = (p == 0 ? 0 : 1); k < n; ++k) { int q = c[k], v = q > 0 ? q : -q; if(!seen[v] && level[v] > 0) { seen[v] = 1; bump(v); if(level[v] >= (int)tl.size()) ++cnt; else learnt.push_back(q); } }
          while(!seen[trail[idx] > 0 ? trail[idx] : -trail[idx]]) --idx; p = trail[idx--]; int v = p > 0 ? p : -p; r = reason[v]; seen[v] = 0; --cnt; 
          if(cnt > 0) { int* cc = &db[r]; ++cc; if(cc[0] != p) { for(int k = 1; k < cc[-1]; ++k) if(cc[k] == p) { std::swap(cc[0], cc[k]); break; } } } } while(cnt > 0);
        learnt[0] = -p; int bl = 0; for(size_t k = 1; k < learnt.size(); ++k) { int v = learnt[k] > 0 ? learnt[k] : -learnt[k]; seen[v] = 0; if(level[v] > bl) { bl = level[v]; } }
        for(size_t k = 1; k < learnt.size(); ++k) { int v = learnt[k] > 0 ? learnt[k] : -learnt[k]; if(level[v] == bl) { std::swap(learnt[1], learnt[k]); break; } }
        cancel(bl); if(learnt.size() == 1) enq(learnt[0], -1); else { int o = addc(learnt.data(), learnt.size()); enq(learnt[0], o); } inc /= 0.95;
      } else {
        if(conf > rest) { rest = rest + rest / 2 + 64; cancel(0); continue; }
        int v = 0; while(!heap.empty()) { int t = hpop(); if(!val[t]) { v = t; break; } } if(!v) return 1;
        tl.push_back(trail.size()); enq(phase[v] > 0 ? v : -v, -1);
      }
    }
  }
};
Cdcl S; std::vector<uint32_t> mark; std::vector<int> lid, order; uint32_t markN = 0;
}
int blastCheck(const std::vector<const Expr*>& cs, Model& out, uint64_t propLimit, uint64_t resetVars, const std::vector<const Expr*>& syms) {
  if(T == 0 || gate.size() > resetVars) { init(); mark.clear(); }
  std::vector<int> roots; for(auto e : cs) { int l = blast(e)[0]; if(l == -T) return -1; if(l != T) roots.push_back(l); }
  if(mark.size() < gate.size()) { mark.resize(gate.size() + 1024, 0); lid.resize(mark.size()); } ++markN; order.clear();
  std::vector<int> stk; auto visit = [&](int l) { int v = l > 0 ? l : -l; if(v != T && mark[v] != markN) { mark[v] = markN; order.push_back(v); lid[v] = order.size(); stk.push_back(v); } };
  for(int l : roots) visit(l);
  while(!stk.empty()) { Gate g = gate[stk.back()]; stk.pop_back(); if(g.t) { visit(g.a); visit(g.b); if(g.t == 3) visit(g.c); } }
  auto L = [&](int l) { return l > 0 ? lid[l] : -lid[-l]; };
  S.reset(order.size());
  for(int v : order) { const Gate& g = gate[v]; if(!g.t) continue; int o = lid[v], a = L(g.a), b = L(g.b);
    if(g.t == 1) { S.c2(-o, a); S.c2(-o, b); S.c3(o, -a, -b); }
    else if(g.t == 2) { S.c3(-o, a, b); S.c3(-o, -a, -b); S.c3(o, -a, b); S.c3(o, a, -b); }
    else { int c = L(g.c); S.c3(-c, -a, o); S.c3(-c, a, -o); S.c3(c, -b, o); S.c3(c, b, -o); S.c3(-a, -b, o); S.c3(a, b, -o); } }
  for(int l : roots) S.unit(L(l));
  int r = S.solve(3000); std::vector<signed char> pv;
  if(r == 0) { // over budget: PicoSAT on the same cone
    ++g_picoQueries; PicoSAT* ps = picosat_init(); picosat_adjust(ps, order.size());
    auto cl = [&](std::initializer_list<int> c) { for(int x : c) picosat_add(ps, x); picosat_add(ps, 0); };
    for(int v : order) { const Gate& g = gate[v]; if(!g.t) continue; int o = lid[v], a = L(g.a), b = L(g.b);
      if(g.t == 1) { cl({ -o, a }); cl({ -o, b }); cl({ o, -a, -b }); }
      else if(g.t == 2) { cl({ -o, a, b }); cl({ -o, -a, -b }); cl({ o, -a, b }); cl({ o, a, -b }); }
      else { int c = L(g.c); cl({ -c, -a, o }); cl({ -c, a, -o }); cl({ c, -b, o }); cl({ c, b, -o }); cl({ -a, -b, o }); cl({ a, b, -o }); } }
    for(int l : roots) cl({ L(l) });
    picosat_set_propagation_limit(ps, propLimit); int q = picosat_sat(ps, -1); r = q == PICOSAT_UNSATISFIABLE ? -1 : q == PICOSAT_SATISFIABLE ? 1 : 0;
    if(r == 1) { pv.resize(order.size() + 1); for(size_t i = 1; i <= order.size(); ++i) pv[i] = picosat_deref(ps, i); }
    picosat_reset(ps);
  }
  if(r != 1) return r;
  for(auto e : syms) { auto f = memo.find(e); if(f == memo.end()) continue; u128 v = 0; auto& b = f->second; for(unsigned i = 0; i < e->w; ++i) { int x = b[i]; if(mark[x] == markN && (pv.empty() ? S.val[lid[x]] : pv[lid[x]]) > 0) v |= (u128)1 << i; } out.v[e->aux] = v; }
  return 1;
}
