//BSX property=P13 covers=1,2 variants=0,1,2,3 threads=0
//BSX bounds: atomic primitives on 1, 2, 4, 8 and 16-byte operands with fully symbolic contents and neighbouring memory
#include "bsx.h"
#include "bss-util/lockless.h"
using namespace bss;
#if VARIANT == 0
typedef uint8_t U;
#elif VARIANT == 1
typedef uint16_t U;
#elif VARIANT == 2
typedef uint32_t U;
#else
typedef uint64_t U;
#endif
struct alignas(16) M { U a[8]; };
static M m, o;
static void init() { for(int i = 0; i < 8; ++i) { m.a[i] = sym<U>("m"); o.a[i] = m.a[i]; } }
static void rest() { for(int i = 0; i < 8; ++i) if(i != 2) CHECKM(m.a[i] == o.a[i], "neighbouring memory is untouched"); }
int main() {
  init(); U v = sym<U>("v"), e = sym<U>("e"), r[3] = { 0x11, sym<U>("r"), 0x22 };
  switch(bsx_choice(8, "op")) {
  case 0: CHECK(atomic_xadd<U>(m.a + 2, v) == o.a[2]); CHECK(m.a[2] == (U)(o.a[2] + v)); break;
  case 1: CHECK(atomic_xchg<U>(m.a + 2, v) == o.a[2]); CHECK(m.a[2] == v); break;
  case 2: { bool c = asmcas<U>(m.a + 2, v, e) != 0; CHECK(c == (o.a[2] == e)); if(c) CHECK(m.a[2] == v); else CHECK(m.a[2] == o.a[2]); break; }
  case 3: { bool c = asmcasr<U>(m.a + 2, v, e, r[1]); CHECK(c == (o.a[2] == e)); CHECK(r[1] == o.a[2]); CHECK(r[0] == 0x11); CHECK(r[2] == 0x22); if(c) CHECK(m.a[2] == v); else CHECK(m.a[2] == o.a[2]); break; }
  case 4: { CHECK(asmcas<U>(m.a + 2, v, o.a[2]) != 0); CHECK(m.a[2] == v); break; }
  case 5: CHECK(atomic_xadd<U>(m.a + 2) == o.a[2]); CHECK(m.a[2] == (U)(o.a[2] + 1)); break;
#if VARIANT >= 2
  case 6: { U b = bsx_choice(sizeof(U) * 8, "bit"); bool w = asmbts<U>(m.a + 2, b); CHECK(w == (((o.a[2] >> b) & 1) != 0)); CHECK(m.a[2] == (o.a[2] | (U)1 << b)); COVER(2); break; }
  case 7: { U b = bsx_choice(sizeof(U) * 8, "bit"); bool w = asmbtr<U>(m.a + 2, b); CHECK(w == (((o.a[2] >> b) & 1) != 0)); CHECK(m.a[2] == (o.a[2] & ~((U)1 << b))); break; }
#else
  default: COVER(2);
#endif
  }
  COVER(1); rest();
#if VARIANT == 3
  static struct alignas(16) { bss_PTag<char> p[3]; } t; bss_PTag<char> b[3]; for(int i = 0; i < 3; ++i) { t.p[i].p = (char*)sym<size_t>("p"); t.p[i].tag = sym<size_t>("t"); b[i] = t.p[i]; }
  bss_PTag<char> n = { (char*)v, sym<size_t>("n") }, x = { (char*)e, sym<size_t>("x") }, g; bool eq = x.p == b[1].p && x.tag == b[1].tag; bool c = asmcasr<bss_PTag<char>>(t.p + 1, n, x, g); CHECKM(c == eq, "a pair is exchanged iff pointer and tag both match"); CHECK(g.p == b[1].p && g.tag == b[1].tag); if(c) CHECK(t.p[1].p == n.p && t.p[1].tag == n.tag); else CHECK(t.p[1].p == b[1].p && t.p[1].tag == b[1].tag); CHECK(t.p[0].p == b[0].p && t.p[0].tag == b[0].tag && t.p[2].p == b[2].p && t.p[2].tag == b[2].tag);
#endif
}
