//BSX property=P01 covers=1,2,3 variants=0,1,2 def.quick=OPS=5 def.thorough=OPS=7
//BSX bounds: OPS operations in any order (add, insert, remove at any position, set, resize, clear, copy, move, both assignments) on a CompactArray with 2, 4 and 3 inline items, from any starting length up to 4; symbolic values
#include "model.h"
#include <assert.h>
#include "bss-util/CompactArray.h"
using namespace bss;
#if VARIANT == 0
typedef CompactArray<int> A; typedef int E; typedef size_t C;
#elif VARIANT == 1
typedef CompactArray<uint8_t, 4, uint16_t> A; typedef uint8_t E; typedef uint16_t C;
#else
typedef CompactArray<int64_t, 3, uint32_t> A; typedef int64_t E; typedef uint32_t C;
#endif
static void same(A& a, Seq<E, 24>& m) { CHECKM((int)a.Length() == m.n, "length"); CHECK(a.Empty() == (m.n == 0)); CHECK(a.Capacity() >= a.Length()); const A& c = a; CHECK(c.end() - c.begin() == m.n); for(int i = 0; i < m.n; ++i) CHECKM(c.begin()[i] == m[i] && a[i] == m[i], "holds the described sequence"); if(m.n) CHECK(a.Front() == m[0] && c.Back() == m[m.n - 1]); }
int main() {
  size_t l0 = bsx_live();
  {
    A a; Seq<E, 24> m; int pre = bsx_choice(5, "pre"); for(int i = 0; i < pre; ++i) { E v = sym<E>("v"); CHECK((int)a.Add(v) == i); m.add(v); } same(a, m); COVER(1);
    for(int op = 0; op < OPS - 3; ++op) switch(bsx_choice(11, "op")) {
      case 0: { E v = sym<E>("v"); a.Add(v); m.add(v); break; }
      case 1: { E v = sym<E>("v"); int i = bsx_choice(m.n + 1, "i"); a.Insert(v, i); m.insert(i, v); break; }
      case 2: if(m.n) { int i = bsx_choice(m.n, "i"); a.Remove(i); m.remove(i); } break;
      case 3: { E v[5]; int n = bsx_choice(6, "n"); m.n = 0; for(int i = 0; i < n; ++i) { v[i] = sym<E>("v"); m.add(v[i]); } a.Set(v, n); break; }
      case 4: { int n = bsx_choice(7, "n"); int o = m.n; a.SetLength(n); m.n = n; for(int i = o; i < n; ++i) { m[i] = sym<E>("v"); a[i] = m[i]; } break; }
      case 5: a.Clear(); m.n = 0; break;
      case 6: { A b(a); same(b, m); b.Add(7); if(m.n) b[0] = 1; same(a, m); break; }
      case 7: { A b(std::move(a)); same(b, m); CHECK(a.Length() == 0); a.Add(3); b = std::move(a); CHECK(b.Length() == 1 && b[0] == 3); CHECK(a.Length() == 0); m.n = 0; break; }
      case 8: { A b; int n = bsx_choice(5, "n"); for(int i = 0; i < n; ++i) b.Add((E)i); b = a; same(b, m); b.Add(9); same(a, m); a = std::move(b); m.add(9); break; }
      case 9: if(m.n) { a.RemoveLast(); --m.n; } break;
      case 10: { A b({ 4, 5, 6, 7, 8 }); CHECKM(b.Length() == 5 && b[0] == 4 && b[4] == 8, "initialiser list"); A d({ 4, 5 }); CHECKM(d.Length() == 2 && d[0] == 4 && d[1] == 5, "initialiser list kept inline"); a = d; m.n = 0; m.add(4); m.add(5); a.SetCapacity(6); same(a, m); COVER(3); break; }
    }
    same(a, m); COVER(2);
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
