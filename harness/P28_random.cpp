//BSX property=P28 covers=1 variants=0,1,2,3,4,5 def.quick=GEN=20,CNT=4 def.thorough=GEN=40,CNT=5 timeout=90
//BSX bounds: generator: every 1024-bit state, five seeds including zero, GEN outputs; ranges: 256 generator outputs at each end and in the middle for 4 ranges; alias tables: every distribution of CNT or fewer outcomes in sixteenths (over 1, 2 or 4 outcomes, thirds and fifths up to rounding otherwise), three index types
#include "bsx.h"
#include <assert.h>
#include "bss-util/AliasTable.h"
#include <string.h>
using namespace bss;
struct Raw { typedef uint64_t result_type; uint64_t v; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { return v; } };
struct Two { typedef uint64_t result_type; uint64_t v[2]; int k = 0; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { return v[k++]; } };
template<class U> struct AT : AliasTable<U, double> { using AliasTable<U, double>::AliasTable; AT(const AT& c) = default; AT(AT&& c) = default; AT& operator=(const AT& c) = default; AT& operator=(AT&& c) = default; double p(int i) { return this->_prob[i]; } int a(int i) { return (int)this->_alias[i]; } };
template<class U> static void dist(AT<U>& t, const int* w, int tot, int n) {
  CHECK((int)t.GetCount() == n); for(int i = 0; i < n; ++i) { double s = 0; for(int j = 0; j < n; ++j) { CHECKM(t.p(j) >= 0 && t.p(j) <= 1, "column weights are probabilities"); if(j == i) s += t.p(j); if(t.p(j) < 1) { CHECKM(t.a(j) >= 0 && t.a(j) < n, "alias names an outcome"); if(t.a(j) == i) s += 1 - t.p(j); } } double d = s / n - (double)w[i] / tot; CHECKM(d < 1e-9 && d > -1e-9, "each outcome has its stated probability"); }
  for(int c = 0; c < n; ++c) for(int k = 0; k < 2; ++k) { Two e; e.v[0] = n & (n - 1) ? ~0ull / n * c + 5 : (n > 1 ? (~0ull / n + 1) * c : 0); e.v[1] = k ? ~0ull : 1; if(n == 1) { e.v[0] = e.v[1]; } int r = (int)t.Get(e); CHECKM(r >= 0 && r < n && w[r] > 0, "draws only outcomes that can happen"); }
}
template<class U> static void alias() {
  int n = bsx_choice(CNT, "n") + 1; int w[CNT], tot = 0; for(int i = 0; i < n; ++i) { int m = 16 - tot; w[i] = i + 1 < n ? (int)bsx_choice(m + 1, "w") : m; tot += w[i]; } double p[CNT]; for(int i = 0; i < n; ++i) p[i] = w[i] / 16.0;
  AT<U> t(p, (U)n); dist(t, w, 16, n); { AT<U>& self = t; t = self; dist(t, w, 16, n); } AT<U> c(t); dist(c, w, 16, n); double one[2] = { 0.25, 0.75 }; int ow[2] = { 1, 3 }; AT<U> d(one, 2); dist(d, ow, 4, 2); d = t; dist(d, w, 16, n); dist(t, w, 16, n); CHECK(d.GetProbabilities() != t.GetProbabilities()); AT<U> m(std::move(d)); dist(m, w, 16, n); c = std::move(m); dist(c, w, 16, n); AT<U> z(one, 2), z2(z); c = std::move(z); dist(c, ow, 4, 2); AT<U> y(t); y = z2; dist(y, ow, 4, 2); y = std::move(t); dist(y, w, 16, n);
}
int main() {
  size_t l0 = bsx_live();
#if VARIANT == 0
  { uint64_t s[16]; for(int i = 0; i < 16; ++i) s[i] = sym<uint64_t>("s"); XorshiftEngine64 e(s), f(s); uint64_t x[16]; memcpy(x, s, sizeof s); int p = 0; CHECK(e == f); 
    for(int i = 0; i < GEN; ++i) { uint64_t x0 = x[p], x1 = x[p = (p + 1) % 16]; x1 ^= x1 << 31; x1 ^= x1 >> 11; x0 ^= x0 >> 30; x[p] = x0 ^ x1; CHECKM(e() == x[p] * 1181783497276652981ull, "follows the xorshift1024* recurrence"); }
    XorshiftEngine64 g(f), h(f), r(7); g.discard(GEN); CHECK(g == e && !(g != e)); f.discard(0); CHECK(f == h); for(int i = 0; i < 18; ++i) CHECKM(g() == e(), "discarding n values is the same as drawing n");
    r(); r(); r.seed(s); CHECKM(r == h && !(r != h), "equal seeds give equal generators whatever was drawn before"); for(int i = 0; i < 18; ++i) CHECKM(r() == h(), "equal seeds give equal sequences"); r = f; CHECK(r == f); XorshiftEngine<uint16_t> q(s); XorshiftEngine<int32_t> q2(s); for(int i = 0; i < 3; ++i) { uint64_t v = f(); CHECK(q() == (uint16_t)v); CHECK(q2() == (int32_t)v); } }
#elif VARIANT == 1
  { static const uint64_t sd[] = { 0, 1, 2, 0x8000000000000000ull, ~0ull }; uint64_t seed = sd[bsx_choice(5, "seed")]; XorshiftEngine64 e(9); for(int i = bsx_choice(3, "drawn") * 7; i > 0; --i) e(); e.seed(seed); XorshiftEngine64 f(seed); CHECKM(e == f, "equal seeds give equal generators whatever was drawn before"); bool live = false; for(int i = 0; i < 20; ++i) { uint64_t v = e(); live |= v != 0; CHECK(v == f()); } CHECKM(live, "no seed puts the generator into its stuck all-zero state"); CHECK(e == f); e(); CHECKM(e != f && !(e == f), "generators at different points differ"); uint64_t z[17], z2[17]; GenXor1024Seed(seed, z); z2[16] = 7; GenXor1024Seed(seed, z2); XorshiftEngine64 w(seed); for(int i = 0; i < 3; ++i) { uint64_t v = w(); CHECK(xorshift1024star(z) == v); CHECK(xorshift1024star(z2) == v); } w.seed(seed); if(seed) { CHECK(XorshiftRand(seed) == w()); CHECK(XorshiftRand() == w()); } uint64_t x = sym<uint64_t>("x"), y = x; uint64_t r = xorshift64star(x); y ^= y >> 12; y ^= y << 25; y ^= y >> 27; CHECKM(x == y && r == y * 2685821657736338717ull, "follows the xorshift64* recurrence"); }
#elif VARIANT == 2
  { Raw e; e.v = sym<uint64_t>("v"); static const int64_t lo[] = { 0, -5, 100, -1 }, hi[] = { 1, 2, 103, 15 }; int k = bsx_choice(4, "k"); uint64_t hb = bsx_choice(3, "band"); if(hb == 1) e.v |= 0xffffffffffffff00ull; else if(hb == 0) e.v &= 0xff; else e.v = 0x5555555555555500ull | (e.v & 0xff); int64_t r = bssrand<int64_t, Raw>(lo[k], hi[k], e); CHECKM(r >= lo[k] && r < hi[k], "random numbers lie in [min,max)"); }
#elif VARIANT == 3
  if(bsx_choice(2, "t")) alias<uint32_t>(); else alias<size_t>();
#elif VARIANT == 4
  { int n = bsx_choice(2, "n") ? 5 : 3; int w[5], tot = 0; double p[5]; for(int i = 0; i < n; ++i) { w[i] = bsx_choice(3, "w"); tot += w[i]; } if(!tot) return 0; for(int i = 0; i < n; ++i) p[i] = (double)w[i] / tot; AT<uint16_t> t(p, n); dist(t, w, tot, n); AT<uint16_t> c(t); dist(c, w, tot, n); }
#elif VARIANT == 5
  { uint64_t s[16]; for(int i = 0; i < 16; ++i) s[i] = 0x9e3779b97f4a7c15ull * (i + 1); XorshiftEngine64* e = new XorshiftEngine64(s); XorshiftEngine64 r(7); r(); r(); r.seed(s); CHECKM(*e == r, "equal seeds give equal generators whatever was drawn before"); uint64_t x[16]; memcpy(x, s, sizeof s); int p = 0; for(int i = 0; i < 3; ++i) { uint64_t x0 = x[p], x1 = x[p = (p + 1) % 16]; x1 ^= x1 << 31; x1 ^= x1 >> 11; x0 ^= x0 >> 30; x[p] = x0 ^ x1; uint64_t v = x[p] * 1181783497276652981ull; CHECKM(r() == v, "reseeding from a full state starts its sequence"); CHECKM((*e)() == v, "follows the xorshift1024* recurrence"); } delete e; }
#endif
  COVER(1); CHECK(bsx_live() == l0);
}
