//BSX property=P01 covers=1,2,3,4,5 variants=0,1 def.quick=HN=9,OPS=1 def.thorough=HN=12,OPS=2
//BSX bounds: bit arrays of lengths around every byte boundary up to 25 with symbolic contents, OPS symbolic operations at every position
#include "bsx.h"
#include "model.h"
#include "bss-util/DynArray.h"
using namespace bss;
typedef DynArray<bool> A;
static void same(const A& a, Seq<uint8_t, 64>& s) {
  CHECK((int)a.Length() == s.n); CHECK(a.Capacity() >= a.Length()); CHECK(a.Empty() == (s.n == 0));
  for(int i = 0; i < s.n; ++i) CHECK(a[(size_t)i] == (s[i] != 0));
  if(s.n) { CHECK(a.Front() == (s[0] != 0)); CHECK(a.Back() == (s[s.n - 1] != 0)); }
}
int main() {
  size_t l0 = bsx_live();
  {
    A a; Seq<uint8_t, 64> s; static const int lens[] = { 0, 1, 7, 8, 9, 16, 17, 24, 25, 5, 15, 23 }; int n = lens[bsx_choice(HN, "n")]; uint64_t bits = sym<uint64_t>("bits");
    for(int i = 0; i < n; ++i) { bool b = (bits >> i) & 1; CHECK((int)a.Add(b) == i); s.add(b); }
#if VARIANT == 0
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(6, "op")) {
      case 0: { int i = bsx_choice(s.n + 1, "i"); bool b = sym<uint8_t>("b") & 1; a.Insert(b, i); s.insert(i, b); COVER(1); break; }
      case 1: { if(!s.n) break; int i = bsx_choice(s.n, "i"); a.Remove(i); s.remove(i); COVER(2); break; }
      case 2: { int m = bsx_choice(s.n + 10, "m"); a.SetLength(m); for(int i = s.n; i < m; ++i) s.a[i] = 0; s.n = m; COVER(3); break; }
      case 3: { if(!s.n) break; int i = bsx_choice(s.n, "i"); bool b = sym<uint8_t>("b") & 1; a[(size_t)i] = b; s[i] = b; break; }
      case 4: { CHECK((int)a.AddConstruct() == s.n); s.add(0); break; }
      case 5: { if(!s.n) break; a.RemoveLast(); s.remove(s.n - 1); a.SetCapacity(40); CHECK(a.Capacity() >= 40); COVER(4); break; }
    }
#else
    COVER(1); COVER(2); COVER(3); COVER(4);
#endif
    same(a, s);
#if VARIANT == 1
    if(s.n) { int i = bsx_choice(s.n, "ci"); int l = bsx_choice(3, "cl"); l = l == 0 ? 1 : l == 1 ? (s.n - i) : (s.n - i + 1) / 2; size_t c = a.CountBits(i, l); size_t e = 0; for(int k = i; k < i + l; ++k) e += s[k] != 0; CHECK(c == e); }
#endif
    { A b(a); same(b, s); A c; for(int i = 0; i < 21; ++i) c.Add(true); c = a; same(c, s); A d; d = a; same(d, s); A e(std::move(d)); same(e, s); CHECK(d.Length() == 0); d = std::move(e); same(d, s); b.Clear(); CHECK(b.Empty()); same(a, s); COVER(5); }
    bsx_out(a.Length()); for(int i = 0; i < s.n; ++i) bsx_out(a[(size_t)i]);
  }
  CHECK(bsx_live() == l0);
}
