//BSX property=P01 covers=1,2,3,4,5,6,7 variants=0,1,2,3 def.quick=OPS=3,PRE=3 def.thorough=OPS=4,PRE=4
//BSX bounds: OPS symbolic operations (kind, position, value all symbolic) after a prefix of 0..PRE elements; element kinds: plain int, owning/CONSTRUCT, address-pinned/SAFE, address-pinned/MOVE
#include "bsx.h"
#include "model.h"
#include "bss-util/DynArray.h"
using namespace bss;
#if VARIANT == 0
typedef int E; typedef DynArray<int> A;
#elif VARIANT == 1
typedef Own E; typedef DynArray<Own, size_t, ARRAY_CONSTRUCT> A;
#elif VARIANT == 2
typedef Pin E; typedef DynArray<Pin, uint32_t, ARRAY_SAFE> A;
#else
typedef Pin E; typedef DynArray<Pin, size_t, ARRAY_MOVE> A;
#endif
static void same(A& a, Seq<int, 24>& s) {
  CHECK((int)a.Length() == s.n); CHECK(a.Capacity() >= a.Length()); CHECK(a.Empty() == (s.n == 0));
  for(int i = 0; i < s.n; ++i) CHECK(getv(a[i]) == s[i]);
  if(s.n) { CHECK(getv(a.Front()) == s[0]); CHECK(getv(a.Back()) == s[s.n - 1]); }
  CHECK(a.end() - a.begin() == s.n); CHECK(a.GetSlice().length == (size_t)s.n);
}
int main() {
  size_t l0 = bsx_live();
  {
    Seq<int, 24> s; A a;
    if(bsx_choice(2, "cap")) { a.SetCapacity(2); CHECK(a.Capacity() >= 2); }
    int pre = bsx_choice(PRE + 1, "pre");
    for(int i = 0; i < pre; ++i) { int v = sym<int>("v"); size_t r = a.Add(E(v)); CHECK((int)r == s.n); s.add(v); }
    for(int op = 0; op < OPS; ++op) {
      switch(bsx_choice(7, "op")) {
      case 0: { int v = sym<int>("v"); E e(v); CHECK((int)a.Add(std::move(e)) == s.n); s.add(v); break; }
      case 1: { int i = bsx_choice(s.n + 1, "i"), v = sym<int>("v"); E e(v); a.Insert(std::move(e), i); s.insert(i, v); COVER(1); break; }
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"); a.Remove(i); s.remove(i); COVER(2); break; }
      case 3: { if(!s.n) break; a.RemoveLast(); s.remove(s.n - 1); COVER(3); break; }
      case 4: { int n = bsx_choice(s.n + 3, "n"); int old = s.n; a.SetLength(n); CHECK((int)a.Length() == n); for(int i = 0; i < n && i < old; ++i) CHECK(getv(a[i]) == s[i]);
        for(int i = old; i < n; ++i) { int v = sym<int>("v"); a[i] = E(v); s.a[i] = v; } s.n = n; COVER(4); break; }
      case 5: { int v = sym<int>("v"); CHECK((int)a.AddConstruct(v) == s.n); s.add(v); COVER(5); break; }
      case 6: { A b(std::move(a)); CHECK((int)b.Length() == s.n); CHECK(a.Length() == 0); a = std::move(b); CHECK(b.Length() == 0); COVER(6); break; }
      }
    }
    same(a, s);
#if VARIANT != 3
    { A b(a); same(b, s); A c; for(int i = (int)bsx_choice(3, "cn"); i > 0; --i) c.Add(E(77)); c = a; same(c, s); b.Add(E(5)); same(a, s);
      A d(a + c); CHECK((int)d.Length() == 2 * s.n); for(int i = 0; i < s.n; ++i) { CHECK(getv(d[i]) == s[i]); CHECK(getv(d[s.n + i]) == s[i]); }
      c += b; CHECK((int)c.Length() == 2 * s.n + 1); CHECK(getv(c[2 * s.n]) == 5); for(int i = 0; i < s.n; ++i) { CHECK(getv(c[i]) == s[i]); CHECK(getv(c[s.n + i]) == s[i]); }
      c.Set(a.begin(), (typename A::CT)a.Length()); same(c, s); c.Add(E(3)); c.Clear(); CHECK(c.Empty()); COVER(7); }
#else
    COVER(7);
#endif
    same(a, s); for(int i = 0; i < s.n; ++i) bsx_out(getv(a[i]));
  }
  CHECK(bsx_live() == l0);
}
