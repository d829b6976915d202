//BSX property=P01 covers=1,2,3,4,5,6 variants=0,1,2 def.quick=OPS=3,PRE=3 def.thorough=OPS=4,PRE=4
//BSX bounds: OPS symbolic operations on the exact-size array after 0..PRE elements; plain, owning and address-pinned elements
#include "bsx.h"
#include "model.h"
#include "bss-util/Array.h"
using namespace bss;
#if VARIANT == 0
typedef int E; typedef Array<int> A;
#elif VARIANT == 1
typedef Own E; typedef Array<Own, size_t, ARRAY_CONSTRUCT> A;
#else
typedef Pin E; typedef Array<Pin, uint32_t, ARRAY_SAFE> A;
#endif
static void same(const A& a, Seq<int, 32>& s) {
  CHECK((int)a.Capacity() == s.n); CHECK(a.Empty() == (s.n == 0));
  const E* p = a; for(int i = 0; i < s.n; ++i) CHECK(getv(p[i]) == s[i]);
  if(s.n) { CHECK(getv(a.Front()) == s[0]); CHECK(getv(a.Back()) == s[s.n - 1]); }
  CHECK(a.end() - a.begin() == s.n); CHECK((int)a.GetSlice().length == s.n);
}
int main() {
  size_t l0 = bsx_live();
  {
    Seq<int, 32> s; int pre = bsx_choice(PRE + 1, "pre"); A a(pre);
    for(int i = 0; i < pre; ++i) { int v = sym<int>("v"); a[i] = E(v); s.add(v); }
    for(int op = 0; op < OPS; ++op) {
      switch(bsx_choice(6, "op")) {
      case 0: { int v = sym<int>("v"); CHECK((int)a.Add(E(v)) == s.n); s.add(v); break; }
      case 1: { int i = bsx_choice(s.n + 1, "i"), v = sym<int>("v"); E e(v); a.Insert(e, i); s.insert(i, v); COVER(1); break; }
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"); a.Remove(i); s.remove(i); COVER(2); break; }
      case 3: { if(!s.n) break; a.RemoveLast(); s.remove(s.n - 1); COVER(3); break; }
      case 4: { int n = bsx_choice(s.n + 3, "n"); int old = s.n; a.SetCapacity(n); for(int i = old; i < n; ++i) { int v = sym<int>("v"); a[i] = E(v); s.a[i] = v; } s.n = n; COVER(4); break; }
      case 5: { A b(std::move(a)); CHECK(a.Capacity() == 0); same(b, s); a = std::move(b); CHECK(b.Capacity() == 0); COVER(5); break; }
      }
      same(a, s);
    }
    { A b(a); same(b, s); A c(bsx_choice(3, "cn")); c = a; same(c, s); b.Add(E(5)); same(a, s);
      A d(a + c); CHECK((int)d.Capacity() == 2 * s.n); for(int i = 0; i < s.n; ++i) { CHECK(getv(d[i]) == s[i]); CHECK(getv(d[s.n + i]) == s[i]); }
      c += b; CHECK((int)c.Capacity() == 2 * s.n + 1); CHECK(getv(c[2 * s.n]) == 5); for(int i = 0; i < s.n; ++i) { CHECK(getv(c[i]) == s[i]); CHECK(getv(c[s.n + i]) == s[i]); }
      c.Set(a.begin(), a.Capacity()); same(c, s); c.SetCapacityDiscard(3); CHECK(c.Capacity() == 3); c.Clear(); CHECK(c.Empty()); 
      b = a; b += b; CHECK((int)b.Capacity() == 2 * s.n); for(int i = 0; i < 2 * s.n; ++i) CHECK(getv(b[i]) == s[i % (s.n ? s.n : 1)]);
      b = a; A& br = b; b = br; same(b, s); COVER(6); }
    for(int i = 0; i < s.n; ++i) bsx_out(getv(a[i]));
  }
  CHECK(bsx_live() == l0);
}
