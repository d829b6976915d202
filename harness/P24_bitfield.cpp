//BSX property=P24 covers=1,2 variants=0,1,2,3
//BSX bounds: every field value, every flag and group mask of 8, 16, 32 and 64 bit fields (fully symbolic); iteration over three words from every bit position in both directions
#include "bsx.h"
#include "bss-util/BitField.h"
#include <string.h>
using namespace bss; using namespace bss::internal;
#if VARIANT == 0
typedef uint8_t U;
#elif VARIANT == 1
typedef uint16_t U;
#elif VARIANT == 2
typedef uint32_t U;
#else
typedef uint64_t U;
#endif
int main() {
  const int w = sizeof(U) * 8;
  U v = sym<U>("v"); U g = sym<U>("g"); U x = sym<U>("x"); 
  if(bsx_choice(2, "part")) { U b = (U)((U)1 << bsx_choice(w, "bit")); BitField<U> f(v); const BitField<U>& c = f; CHECK(f.Get() == v && (U)f == v); CHECK(c[b] == ((v & b) != 0)); CHECK(c.GetGroup(g) == (U)(v & g)); CHECK(c(g) == (U)(v & g)); CHECK(c.Get(g) == ((v & g) != 0));
    switch(bsx_choice(11, "op")) {
      case 0: f[b] = true; CHECK(f.Get() == (U)(v | b)); break;
      case 1: f[b] = false; CHECK(f.Get() == (U)(v & ~b)); break;
      case 2: f(g) = x; CHECKM(f.Get() == (U)((v & ~g) | (x & g)), "only the bits of the group change"); CHECK((U)f(g) == (U)(x & g)); CHECK((!f(g)) == ((x & g) == 0)); CHECK((f(g) == (U)(x & g)) && !(f(g) != (U)(x & g))); break;
      case 3: f += g; CHECK(f.Get() == (U)(v | g)); break;
      case 4: f -= g; CHECK(f.Get() == (U)(v & ~g)); break;
      case 5: f.Set((U)(x & g), g); CHECKM(f.Get() == (U)((v & ~g) | (x & g)), "masked set changes only the mask"); break;
      case 6: f[b].flip(); CHECK(f.Get() == (U)(v ^ b)); break;
      case 7: { BitField<U> o(x); f[b] = o[b]; CHECK(f.Get() == (U)((v & ~b) | (x & b))); CHECK(o.Get() == x); U t = (U)((U)1 << bsx_choice(w, "to")); f[t] = o[b]; CHECK(((f.Get() & t) != 0) == ((x & b) != 0)); break; }
      case 9: { BitField<U> o(x); U og = sym<U>("og"); f(g) = o(og); CHECKM(f.Get() == (U)((v & ~g) | (x & og & g)), "group to group assignment changes only the destination group"); CHECK(o.Get() == x); f(g) = f(og); CHECK((U)(f.Get() & ~g) == (U)(v & ~g)); f = o; CHECK(f.Get() == x); BitField<U> d(f); CHECK(d.Get() == x); break; }
      case 10: { bool t = (v & b) != 0; char r = sym<char>("r"); _BIT_REF<U> q = f[b]; CHECK((!q) == !t); CHECK(q == t && !(q == !t) && q != !t && !(q != t)); CHECK(q.operator&&(true) == t && !q.operator&&(false)); CHECK(q.operator||(false) == t && q.operator||(true)); CHECK((char)(q | r) == (char)(r | (t ? 1 : 0))); CHECK((char)(q & r) == (char)(r & (t ? 1 : 0))); CHECK((char)(q ^ r) == (char)(r ^ (t ? 1 : 0))); CHECK(f.Get() == v); break; }
      case 8: f = x; CHECK(f.Get() == x); f.Set(g); CHECK(f.Get() == g); break;
    }
    COVER(1);
  }
  else { U a[3]; for(int i = 0; i < 3; ++i) a[i] = sym<U>("w"); U a0[3]; memcpy(a0, a, sizeof a); int s = bsx_choice(w, "start");
    _BIT_ITER<_BIT_REF<U>> it(_BIT_REF<U>((U)((U)1 << s), a[1])); _BIT_ITER<_BIT_REF<U>> e(it);
    for(int k = s; k < 2 * w; ++k, it++) CHECKM((bool)*it == (((a[1 + k / w] >> (k % w)) & 1) != 0), "forward iteration visits each bit in order");
    CHECK(it != e); for(int k = 2 * w - 1; k >= s; --k) { --it; CHECKM((bool)*it == (((a[1 + k / w] >> (k % w)) & 1) != 0), "backward iteration visits each bit in order"); }
    CHECK(it == e); for(int k = s - 1; k >= -w; --k) { it--; CHECK((bool)*it == (((a[1 + (k < 0 ? -1 : 0)] >> ((k + w) % w)) & 1) != 0)); } 
    *it = true; CHECK(a[0] == (U)(a0[0] | 1)); CHECK(a[1] == a0[1] && a[2] == a0[2]); COVER(2); }
}
