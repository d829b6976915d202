//BSX property=P01 covers=1,2 def.quick=LEN=5 def.thorough=LEN=8
//BSX bounds: slices of up to LEN elements, every begin and end (negative ones count from the end), signed and unsigned lengths, all values
#include "bsx.h"
#include "bss-util/DynArray.h"
using namespace bss;
template<class CT, bool SGN> static void go() {
  int n = bsx_choice(LEN + 1, "n"), a[LEN + 1]; for(int i = 0; i < n; ++i) a[i] = sym<int>("v"); Slice<int, CT> s(a, (CT)n); const Slice<int, CT>& c = s;
  CHECK(!s == (n == 0)); CHECK(s.Valid() == (n != 0)); CHECK(s.end() - s.begin() == n); CHECK(c.end() - c.begin() == n); for(int i = 0; i < n; ++i) { CHECK(s[i] == a[i]); CHECK(&c[i] == a + i); } if(n) { CHECK(&s.Front() == a); CHECK(&c.Back() == a + n - 1); CHECK(&s.Back() == a + n - 1); }
  int b = bsx_choice(n + 1, "b"), e = b + bsx_choice(n - b + 1, "e"); int bb = b, ee = e; if(SGN && b < n && bsx_choice(2, "negb")) { bb = b - n; } if(SGN && e > 0 && bsx_choice(2, "nege")) { ee = e - n; COVER(2); } else if(e == 0 && n > 0) ee = -n;
  if(SGN || ee >= 0) { if(ee == 0 && e != n) return; Slice<int, CT> t = bsx_choice(2, "const") ? c((CT)bb, (CT)ee) : s((CT)bb, (CT)ee); CHECKM(t.start == a + b && t.length == (CT)(e - b), "sub-slice covers exactly the asked range"); }
  if(n) { const Slice<int, CT> u = bsx_choice(2, "c1") ? c((CT)bb) : s((CT)bb); CHECK(u.start == a + b); CHECK(u.length == (CT)(n - b)); Slice<int, CT> w(s); Slice<int, CT> o = w++; CHECK(o.start == a); CHECK(o.length == (CT)n); CHECK(w.start == a + 1); CHECK(w.length == (CT)(n - 1)); w = s; Slice<int, CT>& q = ++w; CHECK(&q == &w); CHECK(w.start == a + 1); CHECK(w.length == (CT)(n - 1)); }
  COVER(1);
}
int main() {
  if(bsx_choice(2, "sg")) go<int, true>(); else go<size_t, false>();
  int f[3] = { sym<int>("f"), 2, 3 }; Slice<int> s(f); CHECK(s.length == 3); Slice<const int> k = s; CHECK(k.start == f); CHECK(k.length == 3);
}
