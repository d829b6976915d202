//BSX property=P01 covers=1,2,3 variants=0,1,2 def.quick=MAX=40 def.thorough=MAX=120
//BSX bounds: sequences grown by MAX appends/inserts through every growth step, with one symbolic insertion and one symbolic removal at any position of any length in a spread of lengths
#include "bsx.h"
#include "model.h"
#include "bss-util/DynArray.h"
using namespace bss;
#if VARIANT == 0
typedef short E; typedef DynArray<short, uint32_t> A; static int g(short v) { return v; }
#elif VARIANT == 1
typedef Own E; typedef DynArray<Own, size_t, ARRAY_CONSTRUCT> A; static int g(const Own& v) { return v.get(); }
#else
typedef Pin E; typedef DynArray<Pin, size_t, ARRAY_SAFE> A; static int g(const Pin& v) { return v.get(); }
#endif
int main() {
  size_t l0 = bsx_live();
  {
    A a; Seq<int, MAX + 8> s;
    int n = bsx_choice(MAX, "n"); for(int i = 0; i < n; ++i) { a.Add(E(i)); s.add(i); }
    int v = symRange<int>("v", -1000, 1000);
    int i = bsx_choice(n + 1, "i"); a.Insert(E(v), i); s.insert(i, v); COVER(1);
    int w = symRange<int>("w", -1000, 1000); CHECK((int)a.Add(E(w)) == s.n); s.add(w);
    int r = (i * 7 + 3) % s.n; a.Remove(r); s.remove(r); COVER(2);
    A b(a); b.SetCapacity(s.n + 5); b.Add(E(1)); CHECK((int)b.Length() == s.n + 1);
    CHECK((int)a.Length() == s.n); for(int k = 0; k < s.n; ++k) { CHECK(g(a[k]) == s[k]); CHECK(g(b[k]) == s[k]); }
    b = a; a.SetLength(s.n / 2); CHECK((int)b.Length() == s.n); for(int k = 0; k < s.n; ++k) CHECK(g(b[k]) == s[k]); for(int k = 0; k < s.n / 2; ++k) CHECK(g(a[k]) == s[k]); COVER(3);
    bsx_out(g(b[s.n / 3]));
  }
  CHECK(bsx_live() == l0);
}
