//BSX property=P03 covers=1,2,3,4,5,6 variants=0,1,2 def.quick=NI=4,PRE1=7,PRE2=12,OPS=2,SHAPES=3 def.thorough=NI=5,PRE1=9,PRE2=16,OPS=3,SHAPES=5
//BSX bounds: NI full-range symbolic keys and one operation and a symbolic lookup; or PRE1 keys inserted in one of SHAPES concrete orders and OPS symbolic operations; or PRE2 keys in such an order and one operation and a symbolic lookup, then OPS symbolic operations with full-range symbolic keys, then lookups with a symbolic key; key set, map with plain data, map with owning data
#include "bsx.h"
#include "tree.h"
#include "bss-util/AVLTree.h"
using namespace bss;
#if VARIANT == 0
typedef AVLTree<int, void, CompT<int>, StandardAllocator<AVLNode<int>>> TR; typedef AVLNode<int> ND; static int kOf(int& p) { return p; } static int vOf(int& p) { return 0; }
#elif VARIANT == 1
typedef AVLTree<int, int> TR; typedef AVLNode<std::pair<int, int>> ND; static int kOf(std::pair<int, int>& p) { return p.first; } static int vOf(std::pair<int, int>& p) { return p.second; }
#else
typedef AVLTree<int, Own, CompT<int>, StandardAllocator<AVLNode<std::pair<int, Own>>>> TR; typedef AVLNode<std::pair<int, Own>> ND; static int kOf(std::pair<int, Own>& p) { return p.first; } static int vOf(std::pair<int, Own>& p) { return p.second.get(); }
#endif
typedef OSet<20> S;
static ND* add(TR& t, int k, int v) {
#if VARIANT == 0
  return t.Insert(k);
#elif VARIANT == 1
  return t.Insert(k, v);
#else
  return t.Insert(k, Own(v));
#endif
}
static int height(ND* n) { if(!n) return 0; int l = height(n->_left), r = height(n->_right); CHECKM(l - r <= 1 && r - l <= 1, "subtree heights differ by more than one"); return 1 + (l > r ? l : r); }
static void same(TR& t, S& s) {
  int i = 0; bool asc = true; // a traversal visits the keys in order, in one direction or the other
  t.Traverse([&](auto& p) { CHECK(i < s.n); if(!i) asc = kOf(p) == s[0].k; int j = asc ? i : s.n - 1 - i; CHECK(kOf(p) == s[j].k); if(VARIANT) CHECK(vOf(p) == s[j].v); ++i; }); CHECK(i == s.n);
  height(t.GetRoot());
}
int main() {
#if VARIANT == 1
  BlockPolicy<ND> *pol;
#define NEWTREE(t) TR t(pol)
#else
#define NEWTREE(t) TR t
#endif
  size_t l0 = bsx_live();
  {
    S s;
#if VARIANT == 1
    BlockPolicy<ND> P1; pol = &P1;
#endif
    NEWTREE(t); int nv = 1;
    auto insert = [&](int k) { int e = s.find(k); ND* r = add(t, k, nv); if(e >= 0) { CHECK(!r); COVER(1); } else { CHECK(r != 0); CHECK(kOf(r->_key) == k); s.ins(k, nv); } ++nv; };
    int mode = bsx_choice(3, "mode"), ops = mode == 1 ? OPS : 1; // see bounds
    if(!mode) { for(int i = 0; i < NI; ++i) insert(sym<int>("k")); same(t, s); }
    else { int sh = bsx_choice(SHAPES, "shape"), m = mode == 1 ? PRE1 : PRE2; for(int i = 0; i < m; ++i) insert(prekey(sh, i, m)); same(t, s); }
    for(int op = 0; op < ops; ++op) { switch(bsx_choice(4, "op")) {
      case 0: insert(sym<int>("k")); COVER(2); break;
      case 1: { int k = sym<int>("k"), e = s.find(k); bool r = t.Remove(k); CHECK(r == (e >= 0)); if(e >= 0) { s.remove(e); COVER(3); } break; }
      case 2: { if(!s.n) break; int k = s[bsx_choice(s.n, "old")].k, e = s.find(k), q = sym<int>("new"); ASSUME(s.find(q) < 0 || q == k); int v = s[e].v; bool r = t.ReplaceKey(k, q); CHECK(r); s.remove(e); s.ins(q, v); COVER(4); break; }
      case 3: { TR u(std::move(t)); same(u, s); NEWTREE(w); add(w, 3, 3); w = std::move(u); same(w, s); CHECK(!u.GetRoot()); if(bsx_choice(2, "clr")) { w.Clear(); s.n = 0; same(w, s); } TR x(std::move(w)); t = std::move(x); break; }
    } same(t, s); }
    int x = mode == 1 ? 20 : sym<int>("x"); int e = s.find(x);
    auto* g = t.GetRef(x); CHECK((g != 0) == (e >= 0));
    if(e >= 0) COVER(5); else COVER(6);
#if VARIANT == 1
    if(g) CHECK(*g == s[e].v); CHECK(t.Get(x, -5) == (e >= 0 ? s[e].v : -5));
#elif VARIANT == 2
    if(g) CHECK(g->get() == s[e].v);
#endif
    ND* nr = t.Near(x); CHECK((nr != 0) == (s.n != 0));
    if(nr) { int k = kOf(nr->_key); if(e >= 0) CHECK(k == x); else { int i = s.lower(x); CHECK((i < s.n && s[i].k == k) || (i > 0 && s[i - 1].k == k)); } }
    bsx_out(e); bsx_out(s.n);
  }
  CHECK(bsx_live() == l0);
}
