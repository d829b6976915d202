//BSX property=P04 covers=1,2,3,4,5,6,7 variants=0,1,2,3,4,5,6 def.quick=NI=2,OPS=2,PRE=6,POOL=5,DEEP=0 def.thorough=NI=2,OPS=2,PRE=7,POOL=9,DEEP=1
//BSX bounds: tables of 4 to 32 buckets (growing to 64); up to NI symbolic keys or PRE colliding keys (some removed again), then OPS symbolic operations, then lookups and iteration; integer keys full-range symbolic, string and composite keys from a pool of POOL with case variants
#include "bsx.h"
#include "model.h"
#include "bss-util/Hash.h"
using namespace bss;
#if VARIANT == 0
typedef short K; typedef int D; typedef Hash<short, int> H; 
#elif VARIANT == 1
typedef short K; typedef int D; typedef Hash<short, void> H;
#elif VARIANT == 2
typedef short K; typedef Own D; typedef Hash<short, Own, ARRAY_SAFE> H;
#elif VARIANT == 3
typedef int K; typedef int D; typedef Hash<int, int> H;
static const int pool[] = { 0, 1, -1, (int)0x80000000, 4, 0x7fffffff, 8, 77, 12 };
#elif VARIANT == 4
typedef std::pair<short, int> K; typedef int D; typedef Hash<K, int> H;
static const K pool[] = { { 0, 0 }, { 0, 1 }, { 1, 0 }, { -1, -1 }, { 1, 1 }, { 5, 9 }, { 9, 5 }, { 7, 7 }, { 3, 30000 } };
#elif VARIANT == 5
typedef const char* K; typedef int D; typedef HashIns<const char*, int> H;
static const char* const pool[] = { "", "Ab", "aB", "b", "a\xe9", "zZ[", "zZ{", "a", "A" };
#else
typedef Str K; typedef int D; typedef Hash<Str, int, ARRAY_SAFE> H;
static const char* const pool[] = { "", "a", "A", "longer than the small string buffer", "b", "a\xe9", "ab", "Ab", "aB" };
#endif
struct EN { K k; int v; };
struct S { EN a[40]; int n = 0; EN& operator[](int i) { return a[i]; } void remove(int i) { a[i] = a[n - 1]; --n; } };
static bool eq(const K& a, const K& b) {
#if VARIANT == 5
  for(const char *p = a, *q = b;; ++p, ++q) { char x = *p, y = *q; if(x >= 'A' && x <= 'Z') x += 32; if(y >= 'A' && y <= 'Z') y += 32; if(x != y) return false; if(!x) return true; }
#else
  return a == b;
#endif
}
static int find(S& s, const K& k) { for(int i = 0; i < s.n; ++i) if(eq(s[i].k, k)) return i; return -1; }
static K key(const char* n) {
#if VARIANT < 3
  return sym<short>(n);
#else
  return K(pool[bsx_choice(POOL, n)]);
#endif
}
static K prek(int i) {
#if VARIANT < 3
  static const short c[] = { 1, 5, 9, 13, 2, 33, 3 }; return c[i];
#else
  static const int c[] = { 3, 1, 4, 0, 5, 7, 6 }; return K(pool[c[i]]);
#endif
}
template<class Q> static int val(H& h, khiter_t i) {
#if VARIANT == 1
  return 0;
#else
  return getv(h.Value(i));
#endif
}
static void put(H& h, const K& k, int v) {
#if VARIANT == 1
  khiter_t i = h.Insert(k);
#else
  khiter_t i = h.Insert(k, D(v));
#endif
  CHECK(h.ExistsIter(i)); CHECK(eq(h.GetKey(i), k));
}
static void same(H& h, S& s) {
  CHECK((int)h.Length() == s.n); int seen = 0; unsigned mask = 0;
  for(auto it = h.begin(); it != h.end(); ++it) { CHECK(h.ExistsIter(it.cur)); int e = find(s, h.GetKey(it.cur)); CHECK(e >= 0); CHECK(!(mask & (1u << e))); mask |= 1u << e; if(VARIANT != 1) CHECK(val<H>(h, it.cur) == s[e].v); ++seen; }
  CHECK(seen == s.n);
  for(int i = 0; i < s.n; ++i) { CHECK(h.Exists(s[i].k)); CHECK(h(s[i].k)); }
  auto it = h.end(); for(int i = 0; i < s.n; ++i) { --it; CHECK(h.ExistsIter(it.cur)); } if(s.n) CHECK(it == h.begin());
}
int main() {
  size_t l0 = bsx_live();
  {
    S s; int nv = 1; int mode = bsx_choice(4, "mode"); H h(mode == 3 ? 0 : 4);
    auto insert = [&](K k) { int e = find(s, k); put(h, k, nv); if(e >= 0) { s[e].v = nv; COVER(1); } else { s.a[s.n++] = EN{ k, nv }; } ++nv; };
    if(mode == 0) for(int i = 0; i < NI; ++i) insert(key("k"));
    else if(mode == 1) { for(int i = 0; i < 3; ++i) insert(prek(i)); }
    else if(mode == 2) { for(int i = 0; i < PRE; ++i) insert(prek(i)); CHECK(h.Remove(s[3].k)); s.remove(3); CHECK(h.Remove(s[0].k)); s.remove(0); }
    else insert(prek(2));
    same(h, s); if(h.Capacity() > 4) COVER(7);
    int ops = VARIANT < 3 && !DEEP && mode != 1 ? 1 : OPS;
    for(int op = 0; op < ops; ++op) { switch(bsx_choice(mode == 3 ? 4 : 7, "op")) {
      case 0: insert(key("k")); COVER(2); break;
      case 1: { K k = key("k"); int e = find(s, k); bool r = h.Remove(k); CHECK(r == (e >= 0)); if(e >= 0) { s.remove(e); COVER(3); } break; }
      case 2: { if(!s.n) break; auto it = h.begin(); int e = find(s, h.GetKey(it.cur)); CHECK(e >= 0); CHECK(h.RemoveIter(it.cur)); CHECK(!h.RemoveIter(it.cur)); CHECK(!h.RemoveIter(h.Capacity())); s.remove(e); break; }
      case 3: {
#if VARIANT != 1
        K k = key("k"); int e = find(s, k); bool r = h.Set(k, D(nv)); CHECK(r == (e >= 0)); if(e >= 0) { s[e].v = nv; COVER(4); } ++nv;
#else
        COVER(4);
#endif
        break; }
      case 4: h.Clear(); s.n = 0; break;
      case 5: h.SetCapacity(bsx_choice(2, "cap") ? 8 : 2); break;
      case 6: { H c(h); same(c, s); put(c, prek(5), 900); same(h, s); c = h; same(c, s); H big(16); put(big, prek(1), 3); big = h; same(big, s); H m(std::move(c)); same(m, s); S z; same(c, z); c = std::move(m); same(c, s); h = h; same(h, s); H em; big = em; same(big, z); h = std::move(c); break; }
    } same(h, s); }
    K x = key("x"); int e = find(s, x); CHECK(h.Exists(x) == (e >= 0)); if(e >= 0) COVER(5); else COVER(6);
#if VARIANT == 0 || VARIANT >= 3
    if(e >= 0) CHECK(h.Get(x) == s[e].v); else CHECK(h.Get(x) == (int)~0); int o = 7; CHECK(h(x, o) == (e >= 0)); CHECK(o == (e >= 0 ? s[e].v : 7)); CHECK(h[x] == h.Get(x)); CHECK((h.PointerValue(h.Iterator(x)) != 0) == (e >= 0));
#elif VARIANT == 2
    if(e >= 0) CHECK(h.Get(x)->get() == s[e].v); else CHECK(!h.Get(x));
#endif
    bsx_out(e >= 0); bsx_out(s.n);
  }
  CHECK(bsx_live() == l0);
}
