//BSX property=P07 covers=1,2,3,4,5,6,7 variants=0,1,2 def.quick=OPS=3,CAP=4,PRE=7 def.thorough=OPS=4,CAP=5,PRE=9
//BSX bounds: circular arrays of capacity 1..CAP after 0..PRE pushes and 0..2 pops at either end, then OPS symbolic operations with symbolic values; plain, owning and address-pinned elements
#include "bsx.h"
#include "model.h"
#include "bss-util/ArrayCircular.h"
using namespace bss;
#if VARIANT == 0
typedef int E; typedef ArrayCircular<int> A;
#elif VARIANT == 1
typedef Own E; typedef ArrayCircular<Own, int, ARRAY_CONSTRUCT> A;
#else
typedef Pin E; typedef ArrayCircular<Pin, int16_t, ARRAY_SAFE> A;
#endif
// reference: s[0] is the most recent item
typedef Seq<int, 24> S;
static void same(A& a, S& s, int cap) {
  CHECK(a.Length() == s.n); CHECK(a.Capacity() == cap); const A& ca = a;
  for(int i = 0; i < s.n; ++i) { CHECK(getv(a[i]) == s[i]); CHECK(getv(ca[i]) == s[i]); }
  if(s.n) { CHECK(getv(a.Front()) == s[0]); CHECK(getv(ca.Back()) == s[s.n - 1]); CHECK(getv(a.Back()) == s[s.n - 1]); CHECK(getv(ca.Front()) == s[0]); }
  int i = 0; for(auto& e : a) { CHECK(i < s.n); CHECK(getv(e) == s[i]); ++i; } CHECK(i == s.n); i = 0; for(auto& e : ca) { CHECK(getv(e) == s[i]); ++i; } CHECK(i == s.n);
}
static void push(A& a, S& s, int cap, int v, bool mv) { E e(v); if(mv) a.Push(std::move(e)); else a.Push(e); if(s.n == cap) { s.remove(s.n - 1); COVER(1); } s.insert(0, v); }
int main() {
  size_t l0 = bsx_live();
  {
    int cap = bsx_choice(CAP, "cap") + 1; A a(cap); S s; int pre = bsx_choice(PRE + 1, "pre"); for(int i = 0; i < pre; ++i) push(a, s, cap, i + 100, i & 1);
    int p1 = bsx_choice(4, "pops"); if(p1 & 1) if(s.n) { a.Pop(); s.remove(0); } if(p1 & 2) if(s.n) { a.PopBack(); s.remove(s.n - 1); }
    same(a, s, cap);
    for(int op = 0; op < OPS; ++op) { switch(bsx_choice(op + 1 < OPS ? 4 : 8, "op")) {
      case 0: push(a, s, cap, sym<int>("v"), false); break;
      case 1: if(s.n) { E e = a.Pop(); CHECK(getv(e) == s[0]); s.remove(0); COVER(2); } break;
      case 2: if(s.n) { E e = a.PopBack(); CHECK(getv(e) == s[s.n - 1]); s.remove(s.n - 1); COVER(3); } break;
      case 3: { int n = cap + bsx_choice(3, "n"); a.SetCapacity(n); cap = n; COVER(4); break; }
      case 4: if(cap > 1) { a.SetCapacity(cap - 1); --cap; s.n = 0; COVER(5); } break;
      case 5: { A c(a); same(c, s, cap); S t = s; push(c, t, cap, 7, true); same(c, t, cap); same(a, s, cap); A d(2); d.Push(E(1)); d = a; same(d, s, cap); A m(std::move(d)); same(m, s, cap); CHECK(d.Length() == 0); d = std::move(m); same(d, s, cap); CHECK(m.Length() == 0); A& r = a; a = r; same(a, s, cap); A z; z = a; A y; z = y; CHECK(z.Length() == 0); COVER(6); break; }
      case 6: a.Clear(); s.n = 0; COVER(7); break;
      case 7: if(s.n) { int i = bsx_choice(s.n, "i"), v = sym<int>("v"); a[i] = E(v); s[i] = v; } break;
    } same(a, s, cap); }
  }
  CHECKM(bsx_live() == l0, "all storage released, every element destroyed");
}
