//BSX property=P07 covers=1
//BSX bounds: circular buffers of capacity 3 and 4 after any seven pushes and pops, walked from every position forwards and backwards with prefix and postfix steps in both constnesses
#include "bsx.h"
#include "bss-util/ArrayCircular.h"
using namespace bss;
template<class A> static void walk(A& a, int n) { int k = 0; for(auto i = a.begin(); i != a.end(); ++i) { CHECKM(&*i == &a[k], "iteration follows the index order"); ++k; } CHECK(k == n); if(!n) { CHECK(a.begin() == a.end()); return; }
  auto i = a.begin(); for(k = 0; k < n; ++k) { auto o = i++; CHECK(&*o == &a[k]); CHECK(o != i && !(o == i)); } CHECK(i == a.end()); for(k = n; k > 0; --k) { if(k & 1) --i; else { auto o = i--; CHECK(o != i); } CHECKM(&*i == &a[k - 1], "and back"); } CHECK(i == a.begin()); }
int main() {
  size_t l0 = bsx_live();
  { ArrayCircular<int> a(3 + bsx_choice(2, "cap")); int n = 0, cap = (int)a.Capacity(); for(int op = 0; op < 7; ++op) switch(bsx_choice(2, "op")) { case 0: a.Push(op); if(n < cap) ++n; break; case 1: if(!n) ASSUME(0); a.Pop(); --n; break; }
    CHECK((int)a.Length() == n); walk(a, n); const auto& c = a; walk(c, n); COVER(1); }
  CHECK(bsx_live() == l0);
}
