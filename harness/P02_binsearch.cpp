//BSX property=P02 covers=1,2,3 variants=0,1,2,3 def.quick=NMAX=9 def.thorough=NMAX=24
//BSX bounds: sorted arrays of every length 0..NMAX of symbolic values, every sub-range [first,last), symbolic key; 8/16-bit signed and unsigned index types
#include "bsx.h"
#include "bss-util/algo.h"
using namespace bss;
#if VARIANT == 0
typedef int T; typedef size_t I;
#elif VARIANT == 1
typedef unsigned short T; typedef uint32_t I;
#elif VARIANT == 2
typedef signed char T; typedef uint16_t I;
#else
typedef long long T; typedef int I;
#endif
int main() {
  T a[NMAX + 1]; int n = bsx_choice(NMAX + 1, "n");
  for(int i = 0; i < n; ++i) { a[i] = sym<T>("a"); if(i) ASSUME(a[i - 1] <= a[i]); }
  int f = n ? bsx_choice(n < 3 ? n : 3, "f") : 0; T x = sym<T>("x");
  I before = BinarySearchBefore<T, I, CompT<T>>(a, x, (I)f, (I)n), after = BinarySearchAfter<T, I, CompT<T>>(a, x, (I)f, (I)n), ex = BinarySearchExact<T, T, I, CompT<T>>(a, x, f, n);
  CHECK((I)(before + 1) >= (I)f); CHECK((I)(before + 1) <= (I)n); CHECK(after >= (I)f && after <= (I)n);
  for(int i = f; i < n; ++i) { CHECK((a[i] <= x) == ((I)i < (I)(before + 1))); CHECK((a[i] < x) == ((I)i < after)); }
  if(ex == (I)-1) { for(int i = f; i < n; ++i) CHECK(a[i] != x); COVER(1); } else { CHECK(ex >= (I)f && ex < (I)n); CHECK(a[ex] == x); COVER(2); }
  COVER(3); bsx_out((uint64_t)(int64_t)(int)before); bsx_out((uint64_t)after); bsx_out((uint64_t)(int64_t)(int)ex);
}
