//BSX property=P02 covers=1,2,3,4,5,6 variants=0,1,2 def.quick=NI=4,OPS=1 def.thorough=NI=4,OPS=2
//BSX bounds: NI symbolic keys, then OPS symbolic operations (insert, remove, replace, discard) with full-range symbolic keys, then every kind of lookup with a symbolic key; plain, reversed-order and owning elements
#include "bsx.h"
#include "model.h"
#include "bss-util/ArraySort.h"
using namespace bss;
#if VARIANT == 0
typedef int E; typedef ArraySort<int> A; static bool le(int a, int b) { return a <= b; }
#elif VARIANT == 1
typedef int E; typedef ArraySort<int, CompTInv<int>, uint32_t> A; static bool le(int a, int b) { return a >= b; }
#else
typedef Own E; typedef ArraySort<Own, CompT<Own>, size_t, ARRAY_SAFE> A; static bool le(int a, int b) { return a <= b; }
#endif
typedef decltype(A().Length()) CT;
static const CT NONE = (CT)-1;

static void same(A& a, Seq<int, 12>& s) { CHECK((int)a.Length() == s.n); for(int i = 0; i < s.n; ++i) CHECK(getv(a[i]) == s[i]); for(int i = 1; i < s.n; ++i) CHECK(le(s[i - 1], s[i])); }
int main() {
  size_t l0 = bsx_live();
  {
    A a; Seq<int, 12> s;
    for(int i = 0; i < NI; ++i) { int v = sym<int>("v"); CT r = a.Insert(E(v)); CHECK((int)r <= s.n); s.insert((int)r, v); same(a, s); }
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(4, "op")) {
      case 0: { int v = sym<int>("v"); E e(v); CT r = a.Insert(e); CHECK((int)r <= s.n); s.insert((int)r, v); COVER(1); break; }
      case 1: { int i = bsx_choice(s.n + 1, "i"); if(i == s.n) { CHECK(!a.Remove(i)); break; } CHECK(a.Remove(i)); s.remove(i); COVER(2); break; }
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"), v = sym<int>("v"); CT r = a.ReplaceData(i, E(v)); CHECK((int)r < s.n); s.remove(i); s.insert((int)r, v); COVER(3); break; }
      case 3: { a.Discard(1); if(s.n) s.n--; break; }
    }
    same(a, s);
    int x = sym<int>("x"); E q(x); bool has = false; for(int i = 0; i < s.n; ++i) has |= s[i] == x;
    CT f = a.Find(q); if(f != NONE) { COVER(4); CHECK((int)f < s.n); CHECK(getv(a[f]) == x); } else { COVER(5); CHECK(!has); }
    CT b = a.FindNear(q, true); // last element not after x
    if(b == NONE) { for(int i = 0; i < s.n; ++i) CHECK(!le(getv(a[i]), x)); } else { COVER(6); CHECK((int)b < s.n); CHECK(le(getv(a[b]), x)); if((int)b + 1 < s.n) CHECK(!le(getv(a[b + 1]), x)); }
    CT c = a.FindNear(q, false); // first element not before x
    if(c == NONE) { for(int i = 0; i < s.n; ++i) CHECK(!le(x, getv(a[i]))); } else { CHECK((int)c < s.n); CHECK(le(x, getv(a[c]))); if(c > 0) CHECK(!le(x, getv(a[c - 1]))); }
    if(s.n) { CHECK(getv(a.Front()) == getv(a[0])); CHECK(getv(a.Back()) == getv(a[s.n - 1])); }
    A d(a); same(d, s); d.Insert(E(3)); same(a, s); d = a; same(d, s);
    bsx_out(f); bsx_out(b); bsx_out(c);
  }
  CHECK(bsx_live() == l0);
}
