//BSX property=P25 covers=1 variants=0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15 def.quick=Y0=1890,Y1=2110 def.thorough=Y0=-1000,Y1=4000
//BSX bounds: every value of the stated types (8 to 64 bit); division and modulo for every 8- and 16-bit value and within 256 of zero and the limits for 32 and 64 bit; integer square root fully for 8 and 16 bit and around 30 wide values for 32 and 64 bit; double-width multiply for every 8-bit factor, and for 8 symbolic bits inside 32- and 64-bit factors, by 8 to 12 second factors; calendar years Y0..Y1; byte search up to 5 bytes in 3
#include "bsx.h"
#include "bss-util/bss_util.h"
using namespace bss;
template<class U> static int msb(U v) { int r = -1; for(int i = 0; i < (int)sizeof(U) * 8; ++i) r += (int)((U)(v >> i) != 0); return r; }
template<class S, class W> static void divmod() {
  S a, m; if(sizeof(S) <= 2) a = sym<S>("a"); else { static const S bs[] = { 0, std::numeric_limits<S>::min(), std::numeric_limits<S>::max() }; a = bs[bsx_choice(3, "base")]; S lo = sym<uint8_t>("lo"); a = a < 0 ? a + lo : a > 0 ? a - lo : (S)(lo - 128); } static const S ms[] = { 1, 2, 3, 7, 10, 64, 127 }; m = ms[bsx_choice(7, "md")];
  S q = IntDiv<S, S>(a, m), r = bssMod<S>(a, m);
  CHECKM(r >= 0 && r < m, "modulo lies in [0,m)"); CHECKM((W)q * (W)m + (W)r == (W)a, "division rounds towards negative infinity and agrees with modulo");
}
template<class U> static void bits() {
  const int w = sizeof(U) * 8; typedef typename std::make_signed<U>::type S;
  U v = sym<U>("v"); int n = 0; for(int i = 0; i < w; ++i) n += (int)((v >> i) & 1); CHECKM(BitCount<U>(v) == n, "bit count");
  int lo = bsx_choice(2 * w - 1, "lo") - (w - 1), len = bsx_choice(w, "len"); U want = 0; if(lo + len < w) { for(int i = lo; i <= lo + len; ++i) want |= (U)((U)1 << ((i + w) % w)); CHECKM(GetBitMask<U>(lo, lo + len) == want, "bit range mask"); }
  int b = bsx_choice(w, "bit"); CHECK(GetBitMask<U>(b) == (U)((U)1 << b)); U x = bssSetBit<U>(v, (U)1 << b, true), y = bssSetBit<U>(v, (U)1 << b, false); CHECK(x == (U)(v | ((U)1 << b))); CHECK(y == (U)(v & ~((U)1 << b)));
  U arr[2] = { v, sym<U>("v2") }; CHECKM(bssGetBit<U>(arr, b) == (((v >> b) & 1) != 0) && bssGetBit<U>(arr, w + b) == (((arr[1] >> b) & 1) != 0), "bit lookup");
}
template<class U> static void simple() {
  typedef typename std::make_signed<U>::type S; const int w = sizeof(U) * 8;
  U v = sym<U>("v"); S s = (S)v; 
  if(v != 0 && v <= ((U)1 << (w - 1))) { U p = NextPow2(v); CHECKM((p & (p - 1)) == 0 && p >= v && (p >> 1) < v, "next power of two"); }
  CHECKM(bssAbs<S>(s) == (U)(s < 0 ? (U)0 - v : v), "absolute value"); CHECK(bssAbs<U>(v) == v); CHECK(tsign<S>(s) == (s < 0 ? -1 : 1)); CHECK(tsignzero<S>(s) == (s < 0 ? -1 : s > 0 ? 1 : 0));
  CHECK((U)bssNegate<U>(v, 0) == v); CHECK((U)bssNegate<U>(v, 1) == (U)(0 - v)); CHECK((SafeShift<U, 3>(v)) == (U)(v << 3)); CHECK((SafeShift<U, -3>(v)) == (U)(v >> 3)); CHECK((SafeShift<U, 0>(v)) == v);
  uint8_t a[sizeof(U)], c[sizeof(U)]; U f = v; FlipEndian(&f); for(int i = 0; i < (int)sizeof(U); ++i) { CHECKM((uint8_t)(f >> (8 * i)) == (uint8_t)(v >> (8 * ((int)sizeof(U) - 1 - i))), "byte order is reversed"); } FlipEndian(&f); CHECK(f == v);
}
template<class T> static void root(T n) { T r = IntFastSqrt<T>(n); typedef unsigned __int128 W; CHECKM((W)r * r <= (W)n && ((W)r + 1) * ((W)r + 1) > (W)n, "integer square root"); CHECK(FastSqrt<T>(n) == r); }
template<class T, class W> static void mulx(T x, T y) { T sh = (T)bsx_choice(sizeof(T) * 8 + (sizeof(T) > 1 ? 4 : 8), "shift"); if(sizeof(T) > 1 && sh != 0 && sh != 5 && sh != (T)(sizeof(T) * 4) && sh != (T)(sizeof(T) * 8)&& sh != (T)(sizeof(T) * 8 + 3)) return; T want = (T)(((W)x * (W)y) >> sh); CHECKM(internal::_bssmultiplyextract<T>(x, y, sh) == want, "double width multiply and shift"); CHECK(bssMultiplyExtract<T>(x, y, sh) == want); }
int main() {
#if VARIANT == 0
  switch(bsx_choice(4, "t")) { case 0: divmod<int8_t, int>(); break; case 1: divmod<int16_t, int>(); break; case 2: divmod<int32_t, int64_t>(); break; case 3: divmod<int64_t, __int128>(); break; }
#elif VARIANT == 1
  bits<uint8_t>();
#elif VARIANT == 2
  bits<uint16_t>();
#elif VARIANT == 3
  if(bsx_choice(2, "t")) bits<uint32_t>(); else { uint64_t v = sym<uint64_t>("v"); int n = 0; for(int i = 0; i < 64; ++i) n += (int)((v >> i) & 1); CHECKM(BitCount<uint64_t>(v) == n, "bit count"); }
#elif VARIANT == 4
  { uint64_t v[2] = { sym<uint64_t>("v"), sym<uint64_t>("w") }; if(bsx_choice(2, "t")) { int b = bsx_choice(128, "bit"); CHECK(bssGetBit<uint64_t>(v, b) == (((v[b / 64] >> (b % 64)) & 1) != 0)); COVER(1); return 0; } int lo = bsx_choice(127, "lo") - 63; static const int ls[] = { 0, 1, 7, 30, 31, 32, 40, 62, 63 }; int len = ls[bsx_choice(9, "len")]; if(lo + len < 64) { uint64_t want = 0; for(int i = lo; i <= lo + len; ++i) want |= 1ull << ((i + 64) % 64); CHECKM(GetBitMask<uint64_t>(lo, lo + len) == want, "bit range mask"); } }
#elif VARIANT == 5
  switch(bsx_choice(4, "t")) { case 0: simple<uint8_t>(); break; case 1: simple<uint16_t>(); break; case 2: simple<uint32_t>(); break; case 3: simple<uint64_t>(); break; }
#elif VARIANT == 6
  { uint64_t v = sym<uint64_t>("v"); int m = msb(v); CHECKM((int)bssLog2(v) == (m < 0 ? 0 : m), "binary logarithm"); uint32_t u = sym<uint32_t>("u"); m = msb(u); CHECKM((int)bssLog2(u) == (m < 0 ? 0 : m), "binary logarithm"); uint32_t p = 1u << bsx_choice(32, "p"); CHECK((1u << bssLog2_p2(p)) == p); }
#elif VARIANT == 7
  root<uint8_t>(sym<uint8_t>("n"));
#elif VARIANT == 8
  root<uint16_t>(sym<uint16_t>("n"));
#elif VARIANT == 9
  { static const uint64_t k[] = { 0, 1, 65535, 65536, 3037000499ull, 4294967295ull, 4294967294ull, 2147483648ull, 1073741824ull, 1500000001ull }; uint64_t r = k[bsx_choice(10, "k")]; int d = (int)bsx_choice(7, "d") - 3; uint64_t n = r * r + d; if(r == 0 && d < 0) n = ~0ull + d + 3; root<uint64_t>(n); static const uint32_t q[] = { 0, 1, 255, 32768, 46340, 46341, 65535 }; uint32_t m = q[bsx_choice(7, "q")]; uint32_t e = m * m + d; if(m == 0 && d < 0) e = ~0u + d + 3; root<uint32_t>(e); int32_t i = m > 1 && m < 46340 ? (int32_t)(m * m + (d < 0 && !m ? 0 : d)) : 0x7fffffff; root<int32_t>(i); uint64_t s = sym<uint8_t>("s"); root<uint64_t>(s + (1ull << 62)); }
#elif VARIANT == 10
  { static const int8_t k[] = { 0, 1, -1, 2, -2, 7, 10, 16, -16, 0x7f, (int8_t)0x80, 0x55 }; int8_t x = sym<int8_t>("x"), y = k[bsx_choice(12, "y")]; if(bsx_choice(2, "s")) mulx<int8_t, int>(x, y); else mulx<uint8_t, unsigned>((uint8_t)x, (uint8_t)y); }
#elif VARIANT == 11
  { static const int32_t k[] = { 0, 1, -1, 3, -10, 0x10001, 0x7fffffff, (int32_t)0x80000000 }; int32_t y = k[bsx_choice(8, "y")]; int32_t x = k[bsx_choice(8, "xh")]; uint32_t xl = sym<uint8_t>("x"); x ^= (int32_t)(xl << (bsx_choice(2, "xs") * 13)); if(bsx_choice(2, "s")) mulx<int32_t, int64_t>(x, y); else mulx<uint32_t, uint64_t>((uint32_t)x, (uint32_t)y); }
#elif VARIANT == 12
  { static const int64_t k[] = { 0, 1, -1, 3, -10, 0x100000000ll, 0x7fffffffffffffffll, (int64_t)0x8000000000000000ull }; int64_t y = k[bsx_choice(8, "y")]; int64_t x = k[bsx_choice(8, "xh")]; uint64_t xl = sym<uint8_t>("x"); x ^= (int64_t)(xl << (bsx_choice(2, "xs") * 29)); if(bsx_choice(2, "s")) mulx<int64_t, __int128>(x, y); else mulx<uint64_t, unsigned __int128>((uint64_t)x, (uint64_t)y); }
#elif VARIANT == 13
  { static const int dm[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int m = bsx_choice(12, "m") + 1; static const int yx[] = { -801, -800, -799, -401, -400, -399, -100, -5, -4, -3, -1, 0, 1, 3, 4, 100, 399, 400, 401, 1582, 1600, 2400, 10000, 100000, -100000 }; int y = (int)bsx_choice(Y1 - Y0 + 1 + 25, "y"); if(y < 25) y = yx[y]; else y += Y0 - 25; int d = symRange<int>("d", 1, 31); bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; int last = dm[m - 1] + (m == 2 && leap); ASSUME(d <= last);
    int a = DaysFromCivil<int>(y, m, d); int ny = y, nm = m, nd = d + 1; if(nd > last) { nd = 1; if(++nm > 12) { nm = 1; ++ny; } } CHECKM(DaysFromCivil<int>(ny, nm, nd) == a + 1, "the next calendar day has the next number"); CHECK(DaysFromCivil<int>(1970, 1, 1) == 0); CHECK(DaysFromCivil<int64_t>(y, m, d) == a); }
#elif VARIANT == 14
  { uint32_t ia = sym<uint32_t>("a"), ib = sym<uint32_t>("b"); int32_t md = symRange<int32_t>("md", 0, 1 << 20); ASSUME((ia & 0x7fffffff) <= 0x7f800000 && (ib & 0x7fffffff) <= 0x7f800000); float a, b; memcpy(&a, &ia, 4); memcpy(&b, &ib, 4); int64_t oa = (ia >> 31) ? -(int64_t)(ia & 0x7fffffff) : ia, ob = (ib >> 31) ? -(int64_t)(ib & 0x7fffffff) : ib; int64_t ds = oa > ob ? oa - ob : ob - oa; ASSUME(ds < 0xff000000ll - (1 << 21)); CHECKM(fCompare(a, b, md) == (ds <= md), "floats compare equal within the given number of representable steps"); CHECK(fCompare(a, b, md) == fCompare(b, a, md)); uint32_t sg; float s = fsign(a); memcpy(&sg, &s, 4); CHECK(sg == ((ia >> 31) ? 0xbf800000u : 0x3f800000u));
    uint64_t ja = sym<uint64_t>("c"), jb = sym<uint64_t>("e"); ASSUME((ja >> 63) == (jb >> 63)); ASSUME((ja & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull && (jb & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); double c, e; memcpy(&c, &ja, 8); memcpy(&e, &jb, 8); uint64_t dd = ja > jb ? ja - jb : jb - ja; CHECK(fCompare(c, e, (int64_t)md) == (dd <= (uint64_t)md)); double t = fsign(c); uint64_t tg; memcpy(&tg, &t, 8); CHECK(tg == ((ja >> 63) ? 0xbff0000000000000ull : 0x3ff0000000000000ull)); 
    uint32_t ie = sym<uint32_t>("eps"); ASSUME(ie <= 0x7f7fffff); float eps; memcpy(&eps, &ie, 4); CHECKM(fSmall(a, eps) == ((ia & 0x7fffffff) <= ie), "smallness"); }
#elif VARIANT == 15
  { uint8_t h[5], f[3]; bsx_sym(h, 5, "h"); bsx_sym(f, 3, "f"); int n = bsx_choice(6, "n"), k = bsx_choice(4, "k"); const void* r = ByteSearch((const void*)h, n, (const void*)f, k); int want = -1; if(k) for(int i = n - k; i >= 0; --i) { bool e = true; for(int j = 0; j < k; ++j) e &= h[i + j] == f[j]; if(e) want = i; } CHECKM(want < 0 ? r == 0 : r == h + want, "the first occurrence is found"); }
#endif
  COVER(1);
}
