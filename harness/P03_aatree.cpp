//BSX property=P03 covers=1,2,3,4 variants=0,1 def.quick=NI=4,PRE1=7,PRE2=12,OPS=2,SHAPES=3 def.thorough=NI=5,PRE1=9,PRE2=16,OPS=3,SHAPES=5
//BSX bounds: NI full-range symbolic keys and one operation and a symbolic lookup; or PRE1 keys inserted in one of SHAPES concrete orders and OPS symbolic operations; or PRE2 keys in such an order and one operation and a symbolic lookup, then OPS symbolic inserts/removes, then a lookup; plain and owning keys
#include "bsx.h"
#include "tree.h"
#include "bss-util/AATree.h"
using namespace bss;
#if VARIANT == 0
typedef int E; typedef AATree<int> TR;
#else
typedef Own E; typedef AATree<Own, CompT<Own>, StandardAllocator<AANODE<Own>>> TR;
#endif
typedef OSet<20> S; typedef AANODE<E> ND;
static int gi; static S* gs;
static int walk(ND* n) { if(!n->level) return 0; int l = walk(n->left); CHECK(gi < gs->n); CHECK(getv(n->data) == (*gs)[gi].k); ++gi; int r = walk(n->right); CHECKM(n->left->level == n->level - 1 && (n->right->level == n->level || n->right->level == n->level - 1) && n->right->right->level < n->level, "levels"); return 1 + (l > r ? l : r); }
static void visit(E& e) { CHECK(gi < gs->n); CHECK(getv(e) == (*gs)[gi].k); ++gi; }
static void same(TR& t, S& s) {
  gi = 0; gs = &s; CHECK(t.IsEmpty() == !s.n); CHECK((t.GetRoot() == 0) == !s.n); if(t.GetRoot()) walk(t.GetRoot()); CHECK(gi == s.n);
  gi = 0; t.Traverse<visit>(); CHECK(gi == s.n);
}
int main() {
  size_t l0 = bsx_live();
  {
    S s;
#if VARIANT == 0
    BlockPolicy<ND> P1; TR t(&P1);
#else
    TR t;
#endif
    auto insert = [&](int k) { t.Insert(E(k)); s.ins(k, 0); };
    int mode = bsx_choice(3, "mode"), ops = mode == 1 ? OPS : 1; // see bounds
    if(!mode) { for(int i = 0; i < NI; ++i) insert(sym<int>("k")); same(t, s); }
    else { int sh = bsx_choice(SHAPES, "shape"), m = mode == 1 ? PRE1 : PRE2; for(int i = 0; i < m; ++i) insert(prekey(sh, i, m)); same(t, s); }
    for(int op = 0; op < ops; ++op) { switch(bsx_choice(3, "op")) {
      case 0: insert(sym<int>("k")); COVER(1); break;
      case 1: { int k = sym<int>("k"), e = s.find(k); bool r = t.Remove(E(k)); CHECK(r == (e >= 0)); if(e >= 0) { s.remove(e); COVER(2); } break; }
      case 2: { t.Clear(); s.n = 0; break; }
    } same(t, s); }
    int x = mode == 1 ? 20 : sym<int>("x"); int e = s.find(x); ND* g = t.Get(E(x)); CHECK((g != 0) == (e >= 0)); if(g) { CHECK(getv(g->data) == x); COVER(3); } else COVER(4);
    bsx_out(e); bsx_out(s.n);
  }
  CHECK(bsx_live() == l0);
}
