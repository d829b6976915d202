//BSX property=P26 covers=1 variants=0,1,2,3,4,5,6,7,8,9,10 def.quick=RN=4,FE=7 def.thorough=RN=7,FE=13
//BSX bounds: fixed point: every bit pattern whose exact result fits, for 32-bit formats with 12, 4 and 20 fraction bits and 64-bit ones (products and quotients: 8 symbolic bits in 6 positions against 8 constants); conversion to and from floating point for every 16-bit pattern; rationals: every numerator up to RN and denominator 1..RN (either sign); dual numbers of order 1 and 2 over symbolic small integers and, for division, over every element of the field of FE elements; sine, cosine and exponential as uninterpreted functions, logarithm over the field, integer powers 1 to 4 of -3..3
#include "bsx.h"
#include "bss-util/FixedPt.h"
#include "bss-util/Rational.h"
#if VARIANT == 9
#include <cmath>
// a number type whose elementary functions are uninterpreted: their value at the one argument they may be asked for is symbolic
struct R { int v; R(int x = 0) : v(x) {} R operator+(R o) const { return R(v + o.v); } R operator-(R o) const { return R(v - o.v); } R operator*(R o) const { return R(v * o.v); } R operator-() const { return R(-v); } bool operator==(R o) const { return v == o.v; } };
static int at, vS, vC, vE, vL; static int val(R x, int r) { bsx_check(x.v == at ? 1 : 0, "functions are evaluated at the value"); return r; }
namespace std { inline R sin(R x) { return R(val(x, vS)); } inline R cos(R x) { return R(val(x, vC)); } inline R exp(R x) { return R(val(x, vE)); } }
struct F; namespace std { F log(F); }
#endif
#include "bss-util/Dual.h"
using namespace bss;
struct F { int v; F(int x = 0) : v(((x % FE) + FE) % FE) {} F operator+(F o) const { return F(v + o.v); } F operator-(F o) const { return F(v - o.v); } F operator*(F o) const { return F(v * o.v); } F operator-() const { return F(-v); } F operator/(F o) const { for(int i = 1; i < FE; ++i) if((o.v * i) % FE == 1) return F(v * i); CHECKM(0, "divides by a non-zero value only"); return F(0); } bool operator==(F o) const { return v == o.v; } };
#if VARIANT == 9
namespace std { F log(F x) { bsx_check(x.v == at ? 1 : 0, "logarithm of the value"); return F(vL); } }
#endif
template<uint8_t D, class T> static T bitsOf(const Fixed<D, T>& f) { return f.Bits(); }
template<int D, class T, class W> static void fx() {
  T a = sym<T>("a"), b = sym<T>("b"); internal::__FixedBits<T> ba = { a }, bb = { b }; Fixed<D, T> x(ba), y(bb);
  W lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  switch(bsx_choice(6, "op")) {
    case 0: { W s = (W)a + b; ASSUME(s >= lo && s <= hi); CHECKM(bitsOf(x + y) == (T)s, "sum"); x += y; CHECK(bitsOf(x) == (T)s); break; }
    case 1: { W s = (W)a - b; ASSUME(s >= lo && s <= hi); CHECKM(bitsOf(x - y) == (T)s, "difference"); x -= y; CHECK(bitsOf(x) == (T)s); break; }
    case 2: CHECK((x < y) == (a < b)); CHECK((x <= y) == (a <= b)); CHECK((x > y) == (a > b)); CHECK((x >= y) == (a >= b)); CHECK((x == y) == (a == b)); CHECK((x != y) == (a != b)); ASSUME(a != lo); CHECK(bitsOf(-x) == -a); break;
    case 3: { CHECKM((T)x == (a >> D), "integer part rounds down"); ASSUME(b >= (lo >> D) && b <= (hi >> D)); CHECK(bitsOf(Fixed<D, T>(b)) == (T)((W)b << D)); break; }
    case 4: { Fixed<D - 3, T> z(bb); ASSUME(b >= (lo >> 3) && b <= (hi >> 3)); Fixed<D, T> c(z); CHECKM(bitsOf(c) == (T)((W)b << 3), "conversion to a finer format keeps the value"); Fixed<D, T> d(bb); d = z; CHECK(bitsOf(d) == bitsOf(c)); W s = (W)a + ((W)b << 3); ASSUME(s >= lo && s <= hi); CHECK(bitsOf(x + z) == (T)s); x += z; CHECK(bitsOf(x) == (T)s); s = (W)a - ((W)b << 3); internal::__FixedBits<T> ba2 = { a }; Fixed<D, T> x2(ba2); ASSUME(s >= lo && s <= hi); x2 -= z; CHECK(bitsOf(x2) == (T)s); break; }
    case 5: { Fixed<D + 2, T> z(bb); Fixed<D, T> c(z); CHECKM(bitsOf(c) == (b >> 2), "conversion to a coarser format rounds down"); Fixed<D, T> d(bb); d = z; CHECK(bitsOf(d) == (b >> 2)); break; }
  }
}
template<int D, class T, class W> static void fm() {
  static const T ks[] = { 0, 1, -1, 3, (T)1 << D, -((T)1 << D), (T)5 << (D - 1), (T)(-77) * ((T)1 << (D - 4)) }; T k = ks[bsx_choice(8, "k")];
  static const int ss[] = { 0, 4, D - 4, D, D + 5, (int)sizeof(T) * 8 - 9 }; uint64_t lo = sym<uint8_t>("lo"); T a = (T)(lo << ss[bsx_choice(6, "sh")]); if(bsx_choice(2, "neg")) a = -a;
  W hi = std::numeric_limits<T>::max(); internal::__FixedBits<T> ba = { a }, bb = { k }; Fixed<D, T> x(ba), y(bb); Fixed<D - 2, T> z(bb);
  if(bsx_choice(2, "div")) { if(k == 0 || sizeof(T) == 8) return; W q = ((W)a << D) / k; ASSUME(q <= hi && q >= -hi); CHECKM(bitsOf(x / y) == (T)q, "quotient"); x /= y; CHECK(bitsOf(x) == (T)q); }
  else { W p = ((W)a * k) >> D; ASSUME(p <= hi && p >= -hi); CHECKM(bitsOf(x * y) == (T)p, "product"); CHECKM(bitsOf(y * x) == (T)p, "product commutes"); W p2 = ((W)a * k) >> (D - 2); if(p2 <= hi && p2 >= -hi) CHECK(bitsOf(x * z) == (T)p2); x *= y; CHECK(bitsOf(x) == (T)p); }
}
static int gcd(int a, int b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while(b) { int t = a % b; a = b; b = t; } return a; }
template<class T> static void is(const Rational<T>& r, int n, int d) { CHECKM(r.D() > 0 && gcd((int)r.N(), (int)r.D()) == 1, "kept in lowest terms with a positive denominator"); CHECKM((int)r.N() * d == n * (int)r.D(), "exact value"); }
template<class T> static void rat() {
  int a = (int)bsx_choice(2 * RN + 1, "a") - RN, b = bsx_choice(2 * RN, "b"); b = b < RN ? b + 1 : RN - b - 1; int c = (int)bsx_choice(2 * RN + 1, "c") - RN, d = bsx_choice(RN, "d") + 1;
  Rational<T> x(a, b), y(c, d); is(x, a, b); is(y, c, d); int sb = b < 0 ? -1 : 1; int l = a * d * sb, r = c * b * sb;
  is(x + y, a * d + c * b, b * d); is(x - y, a * d - c * b, b * d); is(x * y, a * c, b * d); if(c) is(x / y, a * d, b * c);
  CHECKM((x < y) == (l < r) && (x > y) == (l > r) && (x <= y) == (l <= r) && (x >= y) == (l >= r) && (x == y) == (l == r) && (x != y) == (l != r), "order");
  is(x + (T)c, a + c * b, b); is(x - (T)c, a - c * b, b); is(x * (T)c, a * c, b); if(c) is(x / (T)c, a, b * c); is((T)c + x, c * b + a, b); is((T)c - x, c * b - a, b); is((T)c * x, c * a, b); if(a) is((T)c / x, c * b, a);
  int m = a * sb, n = c * b * sb; CHECKM((x < (T)c) == (m < n) && (x > (T)c) == (m > n) && (x <= (T)c) == (m <= n) && (x >= (T)c) == (m >= n) && (x == (T)c) == (m == n) && (x != (T)c) == (m != n), "order against integers"); CHECK(((T)c < x) == (n < m)); CHECK(((T)c >= x) == (n >= m)); CHECK(((T)c > x) == (n > m)); CHECK(((T)c <= x) == (n <= m)); CHECK(((T)c == x) == (n == m)); CHECK(((T)c != x) == (n != m)); CHECK((float)y == (float)((double)c / d));
  Rational<T> s(x); s += s; is(s, 2 * a, b); s -= s; is(s, 0, 1); Rational<T> q(x); ++q; is(q, a + b, b); --q; --q; is(q, a - b, b); is(x.Abs(), a < 0 ? -a : a, b < 0 ? -b : b); CHECK(x.Truncate() == a / b); CHECK(!x == (a == 0)); q.SetFraction(c * 2, b * 2); is(q, c, b); q = (T)a; is(q, a, 1); CHECK((double)y == (double)c / d);
}
static void big() { static const int of[] = { 0, 253, 254, 255 }; static const int bs[] = { 2147483392, -2147483647, 1 << 30, 77 }; static const int ds[] = { 2147483647, 2147483646, 2147483645, 3 }; Rational<int> x, y; x._n = bs[bsx_choice(4, "bn")] + of[bsx_choice(4, "n")]; x._d = ds[bsx_choice(4, "bd")]; y._n = bs[bsx_choice(4, "cn")] + of[bsx_choice(4, "m")]; y._d = ds[bsx_choice(4, "cd")];
  int64_t l = (int64_t)x._n * y._d, r = (int64_t)y._n * x._d; CHECKM((x < y) == (l < r), "order of large fractions"); CHECK((x > y) == (l > r)); CHECK((x <= y) == (l <= r)); CHECK((x >= y) == (l >= r)); }
template<class FL> static void mix() {
  static const FL ks[] = { (FL)0.5, (FL)-1.25, 2, (FL)3.75, (FL)-0.0625, 7 }; static const int kb[] = { 2048, -5120, 8192, 15360, -256, 28672 }; int q = bsx_choice(6, "k"); FL k = ks[q]; int b = kb[q]; int16_t a = sym<int16_t>("a"); internal::__FixedBits<int> ba = { a }; typedef Fixed<12, int32_t> X; X x(ba); X y(x);
  switch(bsx_choice(7, "op")) {
    case 0: CHECKM((x + k).Bits() == a + b, "sum with a floating point number"); CHECK((k + x).Bits() == a + b); y += k; CHECK(y.Bits() == a + b); break;
    case 1: CHECKM((x - k).Bits() == a - b, "difference with a floating point number"); CHECK((k - x).Bits() == b - a); y -= k; CHECK(y.Bits() == a - b); break;
    case 2: { int p = (int)(((int64_t)a * b) >> 12); CHECKM((x * k).Bits() == p, "product with a floating point number"); CHECK((k * x).Bits() == p); y *= k; CHECK(y.Bits() == p); break; }
    case 3: { int p = (int)(((int64_t)a * 4096) / b); CHECKM((x / k).Bits() == p, "quotient by a floating point number"); y /= k; CHECK(y.Bits() == p); break; }
    case 4: { static const int as[] = { 4096, -2048, 12288, -512 }; int i = bsx_choice(4, "a"); internal::__FixedBits<int> bi = { as[i] }; X z(bi); CHECKM((k / z).Bits() == (int)(((int64_t)b * 4096) / as[i]), "quotient of a floating point number"); FL f = k; f += z; CHECK(f == k + (FL)as[i] / 4096); f = k; f -= z; CHECK(f == k - (FL)as[i] / 4096); f = k; f *= z; CHECK(f == k * ((FL)as[i] / 4096)); f = k; f /= z; CHECK(f == k / ((FL)as[i] / 4096)); break; }
    case 5: { internal::__FixedBits<int> bb = { b }; X z(bb); CHECKM((x % z).Bits() == a % b, "remainder"); y %= z; CHECK(y.Bits() == a % b); y = x; CHECK(y == x); break; }
    case 6: { int s = bsx_choice(13, "s"); CHECKM((x << s).Bits() == (int)((int64_t)a * (1 << s)), "shift left"); CHECKM((x >> s).Bits() == (a >> s), "shift right rounds down"); y <<= s; y >>= s; CHECK(y == x); Fixed<10, int32_t> z(ba); int p = a - a * 4; CHECK((x - z).Bits() == p); break; }
  }
}
int main() {
#if VARIANT == 0
  if(bsx_choice(2, "f")) fx<12, int32_t, int64_t>(); else fx<20, int32_t, int64_t>();
#elif VARIANT == 1
  fx<23, int64_t, __int128>();
#elif VARIANT == 2
  if(bsx_choice(2, "f")) fm<12, int32_t, int64_t>(); else fm<20, int32_t, int64_t>();
#elif VARIANT == 3
  fm<23, int64_t, __int128>();
#elif VARIANT == 4
  { int64_t a = sym<int64_t>("a"); internal::__FixedBits<int64_t> b = { a }; Fixed<40, int64_t> x(b); ASSUME((a >> 28) <= 0x7fffffffll && (a >> 28) >= -0x80000000ll); Fixed<12, int32_t> y(x); CHECKM((int64_t)y.Bits() == (a >> 28), "conversion to a narrower format keeps a value that fits"); int32_t c = sym<int32_t>("c"); internal::__FixedBits<int32_t> d = { c }; Fixed<12, int32_t> z(d); ASSUME(c < (1 << 22) && c > -(1 << 22)); Fixed<40, int64_t> w(z); CHECKM(w.Bits() == ((int64_t)c << 28), "conversion to a wider format keeps the value"); w = z; CHECK(w.Bits() == ((int64_t)c << 28)); z = x; CHECK(z.Bits() == y.Bits()); }
#elif VARIANT == 5
  { int16_t a = sym<int16_t>("a"); int sh = bsx_choice(3, "sh") * 7; internal::__FixedBits<int32_t> b = { (int32_t)a << sh }; Fixed<12> x(b); double v = (double)((int32_t)a * (1 << sh)) / 4096.0; CHECKM((double)x == v && (float)x == (float)v, "conversion to floating point is exact"); Fixed<12> y((double)x), z((float)x); CHECKM(y.Bits() == b.bits && z.Bits() == b.bits, "and converts back"); }
#elif VARIANT == 6
  { int t = bsx_choice(3, "t"); if(t == 2) big(); else if(t) rat<int>(); else rat<int64_t>(); }
#elif VARIANT == 7
  { int u[3], v[3]; for(int i = 0; i < 3; ++i) { u[i] = sym<int8_t>("u") >> 5; v[i] = sym<int8_t>("v") >> 5; } typedef Dual<int, 2> D2; D2 x(u[0], Dual<int, 1>(u[1], u[2])), y(v[0], Dual<int, 1>(v[1], v[2]));
    D2 s = x + y, d = x - y, p = x * y, n = -x, k = x * 3, l = 5 - x, a = x.Abs(); for(int i = 0; i < 3; ++i) { CHECK(x(i) == u[i]); CHECKM(s(i) == u[i] + v[i] && d(i) == u[i] - v[i] && n(i) == -u[i], "sum rule"); CHECK(k(i) == 3 * u[i]); CHECK(l(i) == (i ? -u[i] : 5 - u[0])); if(u[0] != 0) CHECKM(a(i) == (u[0] < 0 ? -u[i] : u[i]), "absolute value"); }
    CHECKM(p(0) == u[0] * v[0] && p(1) == u[1] * v[0] + u[0] * v[1] && p(2) == u[2] * v[0] + 2 * u[1] * v[1] + u[0] * v[2], "product rule"); }
#elif VARIANT == 8
  { int u[3], v[3]; for(int i = 0; i < 3; ++i) { u[i] = bsx_choice(i < 2 ? FE : 3, "u"); v[i] = bsx_choice(i < 2 ? FE : 3, "v"); } if(v[0] == 0) v[0] = 1; typedef Dual<F, 2> D2; D2 x{F(u[0]), Dual<F, 1>{F(u[1]), Dual<F, 0>{F(u[2])}}}, y{F(v[0]), Dual<F, 1>{F(v[1]), Dual<F, 0>{F(v[2])}}}; D2 q = x / y, b = q * y; for(int i = 0; i < 3; ++i) CHECKM(b(i) == F(u[i]), "quotient rule"); }
#elif VARIANT == 9
  int u[3]; int w = bsx_choice(3, "fn");
  if(w == 0) { for(int i = 0; i < 3; ++i) u[i] = sym<int8_t>("u") >> 5; at = u[0]; vS = sym<int8_t>("S") >> 5; vC = sym<int8_t>("C") >> 5; vE = sym<int8_t>("E") >> 5; typedef Dual<R, 2> D2; D2 x{R(u[0]), Dual<R, 1>{R(u[1]), Dual<R, 0>{R(u[2])}}};
    D2 s = x.sin(), c = D2::cos(x), e = x.exp(); CHECKM(s(0) == R(vS) && s(1) == R(u[1] * vC) && s(2) == R(u[2] * vC - u[1] * u[1] * vS), "derivatives of the sine"); CHECKM(c(0) == R(vC) && c(1) == R(-u[1] * vS) && c(2) == R(-u[2] * vS - u[1] * u[1] * vC), "derivatives of the cosine"); CHECKM(e(0) == R(vE) && e(1) == R(u[1] * vE) && e(2) == R(vE * (u[2] + u[1] * u[1])), "derivatives of the exponential"); }
  else if(w == 1) { for(int i = 0; i < 3; ++i) u[i] = bsx_choice(FE, "u"); if(u[0] == 0) u[0] = 1; at = u[0]; vL = bsx_choice(FE, "L"); typedef Dual<F, 2> D2; D2 x{F(u[0]), Dual<F, 1>{F(u[1]), Dual<F, 0>{F(u[2])}}}; D2 l = x.log(); F i = F(1) / F(u[0]); CHECKM(l(0) == F(vL) && l(1) == F(u[1]) * i && l(2) == F(u[2]) * i - F(u[1]) * F(u[1]) * i * i, "derivatives of the logarithm"); }
  else { for(int i = 0; i < 3; ++i) u[i] = (int)bsx_choice(7, "u") - 3; if(u[0] == 0) u[0] = 4; int k = 1 + bsx_choice(4, "k"); typedef Dual<double, 2> D2; D2 x((double)u[0], Dual<double, 1>((double)u[1], Dual<double, 0>((double)u[2]))); D2 p = x ^ (double)k; double a = 1, b = 1, c = k > 1 ? 1 : 0; for(int i = 0; i < k; ++i) a *= u[0]; for(int i = 0; i < k - 1; ++i) b *= u[0]; for(int i = 0; i < k - 2; ++i) c *= u[0]; CHECKM(p(0) == a && p(1) == k * b * u[1] && p(2) == k * b * u[2] + k * (k - 1) * c * u[1] * u[1], "power rule");
    D2 y = 2.0 + x, z = x + 2.0, q = x - 2.0, h = x / 2.0, m = 2.0 * x, r = 8.0 / x; for(int i = 0; i < 3; ++i) CHECKM(y(i) == u[i] + (i ? 0 : 2) && z(i) == y(i) && q(i) == u[i] - (i ? 0 : 2) && h(i) == u[i] / 2.0 && m(i) == 2.0 * u[i], "mixed with plain numbers"); CHECK(r(0) == 8.0 / u[0]); }
#elif VARIANT == 10
  if(bsx_choice(2, "f")) mix<float>(); else mix<double>();
#endif
  COVER(1);
}
