//BSX property=P03 covers=1,2,3,4,5 variants=0,1 def.quick=NI=4,PRE1=7,PRE2=12,OPS=2,SHAPES=3 def.thorough=NI=5,PRE1=9,PRE2=16,OPS=3,SHAPES=5
//BSX bounds: NI full-range symbolic keys and one operation and a symbolic lookup; or PRE1 keys inserted in one of SHAPES concrete orders and OPS symbolic operations; or PRE2 keys in such an order and one operation and a symbolic lookup, then OPS symbolic operations (insert, remove by key, remove by node, clear, move), then lookups; plain and owning values
#include "bsx.h"
#include "tree.h"
#include "bss-util/TRBtree.h"
using namespace bss;
#if VARIANT == 0
typedef int E;
#else
typedef Own E;
#endif
typedef TRBtree<E> TR; typedef OSet<20> S; typedef TRB_Node<E> ND;
static void same(TR& t, S& s) {
  int i = 0; ND* p = 0; for(auto it = t.begin(); it.IsValid(); ++it) { CHECK(i < s.n); CHECK(getv((*it)->value) == s[i].k); CHECK((*it)->prev == p); p = *it; ++i; }
  CHECK(i == s.n); CHECK(t.Back() == p); CHECK((t.Front() == 0) == !s.n); CHECK(t.DEBUGVERIFY() > 0);
}
int main() {
  size_t l0 = bsx_live();
  {
    TR t; S s;
    auto insert = [&](int k) { ND* r = t.Insert(E(k)); CHECK(getv(r->value) == k); s.ins(k, 0); };
    int mode = bsx_choice(3, "mode"), ops = mode == 1 ? OPS : 1; // see bounds
    if(!mode) { for(int i = 0; i < NI; ++i) insert(sym<int>("k")); same(t, s); }
    else { int sh = bsx_choice(SHAPES, "shape"), m = mode == 1 ? PRE1 : PRE2; for(int i = 0; i < m; ++i) insert(prekey(sh, i, m)); same(t, s); }
    for(int op = 0; op < ops; ++op) { switch(bsx_choice(5, "op")) {
      case 0: insert(sym<int>("k")); COVER(1); break;
      case 1: { int k = sym<int>("k"), e = s.find(k); bool r = t.Remove(E(k)); CHECK(r == (e >= 0)); if(e >= 0) { s.remove(e); COVER(2); } break; }
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"); ND* n = t.Front(); for(int j = 0; j < i; ++j) n = n->next; CHECK(TR::Validate(n)); CHECK(t.Remove(n)); s.remove(i); COVER(3); break; }
      case 3: { t.Clear(); s.n = 0; break; }
      case 4: { TR u(std::move(t)); same(u, s); S z; same(t, z); t.Insert(E(5)); TR w; w.Insert(E(4)); w = std::move(u); same(w, s); t = std::move(w); break; }
    } same(t, s); }
    int x = mode == 1 ? 20 : sym<int>("x"); int e = s.find(x); ND* g = t.Get(E(x)); CHECK((g != 0) == (e >= 0)); if(g) { CHECK(getv(g->value) == x); COVER(4); } else COVER(5);
    CHECK(!t.Remove((ND*)0));
    if(s.n) { ND* b = t.GetNear(E(x), true); ND* a = t.GetNear(E(x), false); int lo = s.lower(x), up = s.upper(x);
      CHECK(getv(b->value) == s[up > 0 ? up - 1 : 0].k); CHECK(getv(a->value) == s[lo < s.n ? lo : s.n - 1].k); }
    bsx_out(e); bsx_out(s.n);
  }
  CHECK(bsx_live() == l0);
}
