//BSX property=P01 covers=1,2,3 def=OPS=3
//BSX bounds: variable-element-size arrays, element sizes 1..8, up to 3+OPS elements, OPS symbolic operations
#include "bsx.h"
#include "model.h"
#include "bss-util/DynArray.h"
using namespace bss;
typedef ArbitraryArray<size_t> A;
static void same(A& a, Seq<uint64_t, 16>& s, int es) { CHECK((int)a.Length() == s.n); CHECK((int)a.Element() == es); for(int i = 0; i < s.n; ++i) { const uint8_t* p = (const uint8_t*)a[i]; for(int k = 0; k < es; ++k) CHECK(p[k] == (uint8_t)(s[i] >> (8 * k))); } }
int main() {
  size_t l0 = bsx_live();
  {
    static const int sz[4] = { 1, 2, 4, 8 };
    int es = sz[bsx_choice(4, "es")]; A a(bsx_choice(2, "size"), es); Seq<uint64_t, 16> s; int n = bsx_choice(3, "n");
    auto mask = [&](uint64_t v) { return es == 8 ? v : v & ((1ull << (8 * es)) - 1); };
    for(int i = 0; i < n; ++i) { uint64_t v = sym<uint64_t>("v"); CHECK((int)a.Add(v) == s.n); s.add(mask(v)); }
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(8, "op")) {
      case 5: { int m = bsx_choice(4, "m"); s.n = 0; if(bsx_choice(2, "w")) { uint8_t p[4]; for(int i = 0; i < m; ++i) { p[i] = sym<uint8_t>("p"); s.add(p[i]); } a.SetElement((const uint8_t*)p, (size_t)m); es = 1; } else { uint32_t p[4]; for(int i = 0; i < m; ++i) { p[i] = sym<uint32_t>("p"); s.add(p[i]); } a.SetElement((const uint32_t*)p, (size_t)m); es = 4; } break; }
      case 6: { A& r = a; a = r; break; }
      case 7: { int m = bsx_choice(s.n + 3, "m"); a.SetLength(m); for(int i = s.n; i < m; ++i) { uint64_t v = sym<uint64_t>("v"); memcpy(a[i], &v, es); s.a[i] = mask(v); } s.n = m; break; }
      case 0: { uint64_t v = sym<uint64_t>("v"); CHECK((int)a.Add(v) == s.n); s.add(mask(v)); break; }
      case 1: { if(!s.n) break; int i = bsx_choice(s.n, "i"); a.Remove(i); s.remove(i); COVER(1); break; }
      case 2: { int ne = sz[bsx_choice(4, "ne")]; a.SetElement((size_t)ne); es = ne; for(int i = 0; i < s.n; ++i) s[i] = mask(s[i]); COVER(2); break; }
      case 3: { if(!s.n) break; a.RemoveLast(); s.n--; break; }
      case 4: { A b(a); same(b, s, es); A c; c = a; same(c, s, es); A d(std::move(b)); same(d, s, es); CHECK(b.Length() == 0); a = std::move(d); CHECK(d.Length() == 0); COVER(3); break; }
    }
    same(a, s, es); bsx_out(a.Length());
  }
  CHECK(bsx_live() == l0);
}
