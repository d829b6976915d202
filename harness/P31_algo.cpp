//BSX property=P31 covers=1 variants=0,1,2,3,4,5,6 def.quick=B64=7,NODES=6,SH=4 def.thorough=B64=10,NODES=8,SH=6
//BSX bounds: base-64 of every byte string up to B64 bytes, decoding of every text up to B64 characters; every binary tree shape up to NODES nodes; every choice of the generator when shuffling SH items; curve formulas as polynomial identities over the field of 31 elements (every parameter value, every basis vector of control points); running variance of 4 values; FNV-1a hashes of texts up to 3 characters with 4 symbolic bits each on 3 bases
#include "bsx.h"
#include "bss-util/algo.h"
#include <stdlib.h>
#include <string.h>
using namespace bss;
struct F { int v; F(double d = 0) : v((((int)d % 31) + 31) % 31) {} F(int x) : v(((x % 31) + 31) % 31) {}
  friend F operator+(F a, F b) { return F(a.v + b.v); } friend F operator-(F a, F b) { return F(a.v - b.v); } friend F operator*(F a, F b) { return F(a.v * b.v); } F operator-() const { return F(-v); }
  friend F operator/(F a, F b) { for(int i = 1; i < 31; ++i) if((b.v * i) % 31 == 1) return F(a.v * i); CHECKM(0, "division by zero"); return F(0); } friend bool operator==(F a, F b) { return a.v == b.v; } };
struct Nd { Nd* c[2]; int d; int id; };
static int seen[16], order[16], cnt, stopAt;
static bool act(Nd* n) { order[cnt] = n->d; ++seen[n->id]; return ++cnt == stopAt; }
static Nd* lc(Nd* n) { return n->c[0]; } static Nd* rc(Nd* n) { return n->c[1]; }
struct Ch { typedef uint32_t result_type; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; } uint32_t operator()() { static const uint32_t ks[] = { 0, 0xffffffffu, 0x55555556u, 0x80000000u, 0x3fffffffu, 0xbfffffffu, 0xaaaaaaabu }; k = !k; return k ? 0xffffffffu : ks[bsx_choice(SH < 5 ? 5 : 7, "rnd")]; } bool k = false; };
int main() {
#if VARIANT == 0
  { int n = bsx_choice(B64 + 1, "n"); uint8_t* s = (uint8_t*)malloc(n + 1); bsx_sym(s, n, "s"); size_t need = Base64Encode(s, n, 0); CHECKM(need == (size_t)((n * 8 + 5) / 6), "six bits per character"); char* t = (char*)malloc(need ? need : 1); CHECK(Base64Encode(s, n, t) == need);
    static const char* code = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"; for(size_t i = 0; i < need; ++i) { unsigned bit = i * 6, v = 0; for(int k = 0; k < 6; ++k) { unsigned b = bit + k; v = v * 2 + (b / 8 < (unsigned)n ? (s[b / 8] >> (7 - b % 8)) & 1 : 0); } CHECKM(t[i] == code[v], "url-safe base-64 alphabet, high bits first"); }
    CHECK((int)Base64Decode(t, need, 0) == n); uint8_t* d = (uint8_t*)malloc(n ? n : 1); CHECK((int)Base64Decode(t, need, d) == n); for(int i = 0; i < n; ++i) CHECKM(d[i] == s[i], "decoding gives back what was encoded"); free(s); free(t); free(d); }
#elif VARIANT == 1
  { int n = bsx_choice(B64 + 1, "n"); char* t = (char*)malloc(n ? n : 1); bsx_sym(t, n, "t"); size_t need = Base64Decode(t, n, 0); CHECK(n % 4 != 1 || need == 0); CHECK(need <= (size_t)n * 3 / 4); uint8_t* d = (uint8_t*)malloc(need ? need : 1); CHECKM(Base64Decode(t, n, d) == need, "decoding any text stays within the promised size"); free(t); free(d); }
#elif VARIANT == 2
  { int n = bsx_choice(NODES, "n") + 1; Nd a[NODES]; for(int i = 0; i < n; ++i) { a[i].c[0] = a[i].c[1] = 0; a[i].id = i; a[i].d = 0; seen[i] = 0; if(i) { int p = bsx_choice(i, "parent"), s = bsx_choice(2, "side"); if(a[p].c[s]) return 0; a[p].c[s] = a + i; a[i].d = a[p].d + 1; } } stopAt = bsx_choice(n + 1, "stop"); cnt = 0; BreadthFirstTree<Nd, act, lc, rc>(a, n);
    CHECKM(cnt == (stopAt ? stopAt : n), "visits every node, or as many as asked"); for(int i = 0; i < n; ++i) CHECKM(seen[i] <= 1, "no node twice"); for(int i = 1; i < cnt; ++i) CHECKM(order[i - 1] <= order[i], "in order of depth"); CHECK(order[0] == 0); }
#elif VARIANT == 3
  { Ch e; int n = bsx_choice(SH + 1, "n"); int v[SH], o[SH]; for(int i = 0; i < n; ++i) o[i] = v[i] = i; Shuffle<int, int, Ch>(v, n, e); for(int i = 0; i < n; ++i) { int c = 0; for(int j = 0; j < n; ++j) c += (int)(v[j] == o[i]); CHECKM(c == 1, "a shuffle is a permutation"); } int r = bssrand<int, Ch>(-3, 4, e); CHECKM(r >= -3 && r < 4, "random numbers lie in the range"); int64_t q = bssrand<int64_t, Ch>(10, 11, e); CHECK(q == 10); }
#elif VARIANT == 4
  { int k = bsx_choice(4, "k"), tt = bsx_choice(31, "t"); F t(tt), p[4] = { F(k == 0), F(k == 1), F(k == 2), F(k == 3) }; F t2 = t * t, t3 = t2 * t;
    static const int ub[4][4] = { { -1, 3, -3, 1 }, { 3, -6, 3, 0 }, { -3, 0, 3, 0 }, { 1, 4, 1, 0 } }, cb[4][4] = { { -1, 3, -3, 1 }, { 2, -5, 4, -1 }, { -1, 0, 1, 0 }, { 0, 2, 0, 0 } }, bz[4][4] = { { -1, 3, -3, 1 }, { 3, -6, 3, 0 }, { -3, 3, 0, 0 }, { 1, 0, 0, 0 } };
    auto ev = [&](const int (&m)[4][4], int d) { return (t3 * F(m[0][k]) + t2 * F(m[1][k]) + t * F(m[2][k]) + F(m[3][k])) / F(d); };
    CHECKM((UniformCubicBSpline<F, F>(t, p[0], p[1], p[2], p[3]) == ev(ub, 6)), "uniform cubic b-spline"); CHECKM((CubicBSpline<F, F>(t, p[0], p[1], p[2], p[3]) == ev(cb, 2)), "cubic interpolation");
    F s = F(1) - t; F q3[3] = { s * s, F(2) * s * t, t2 }; if(k < 3) CHECKM((QuadraticBezierCurve<F, F>(t, p[0], p[1], p[2]) == q3[k]), "quadratic bezier curve"); static const int uq[3][3] = { { 1, -2, 1 }, { -2, 2, 0 }, { 1, 1, 0 } }; if(k < 3) CHECKM((UniformQuadraticBSpline<F, F>(t, p[0], p[1], p[2]) == (t2 * F(uq[0][k]) + t * F(uq[1][k]) + F(uq[2][k])) / F(2)), "uniform quadratic b-spline");
    F u((int)bsx_choice(31, "u")); auto bez = [](F a, F b, F c, F d, F w) { F x = F(1) - w; return x * x * x * a + F(3) * x * x * w * b + F(3) * x * w * w * c + w * w * w * d; }; F P[4][1] = { { p[0] }, { p[1] }, { p[2] }, { p[3] } }, N1[1], N2[1], N3[1], R1[1], R2[1]; SplitCubic<F, 1>(t, P[0], P[1], P[2], P[3], N1, N2, N3, R1, R2);
    CHECKM(bez(p[0], N1[0], N2[0], N3[0], u) == bez(p[0], p[1], p[2], p[3], u * t), "first half of a split cubic follows the original curve"); CHECKM(bez(N3[0], R1[0], R2[0], p[3], u) == bez(p[0], p[1], p[2], p[3], t + u * s), "second half of a split cubic follows the original curve");
    if(k < 3) { SplitQuadratic<F, 1>(t, P[0], P[1], P[2], N1, N2, R1); CHECK((QuadraticBezierCurve<F, F>(u, p[0], N1[0], N2[0]) == QuadraticBezierCurve<F, F>(u * t, p[0], p[1], p[2]))); CHECK((QuadraticBezierCurve<F, F>(u, N2[0], R1[0], p[2]) == QuadraticBezierCurve<F, F>(t + u * s, p[0], p[1], p[2]))); } }
#elif VARIANT == 5
  { double var = 0, avg = 0; int n = bsx_choice(4, "n") + 1; int x[4], sum = 0; static const int ks[] = { 0, 12, -24, 36, 120 }; for(int i = 0; i < n; ++i) { x[i] = ks[bsx_choice(5, "x")]; sum += x[i]; bssVariance<double, int>(var, avg, x[i], i + 1); double d = avg * (i + 1) - sum; CHECKM(d < 1e-6 && d > -1e-6, "running average"); } double s2 = 0; for(int i = 0; i < n; ++i) s2 += (x[i] - (double)sum / n) * (x[i] - (double)sum / n); double d = var - s2; CHECKM(d < 1e-6 && d > -1e-6, "running sum of squared deviations"); }
#elif VARIANT == 6
  { int n = bsx_choice(4, "n"); char s[5]; static const char ks[] = { 0x10, 0x60, 0x70 }; for(int i = 0; i < n; ++i) s[i] = (char)(ks[bsx_choice(3, "h")] | (sym<uint8_t>("s") & 15)); s[n] = 0; uint32_t h = 0x811c9dc5u; uint64_t g = 0xcbf29ce484222325ull; for(int i = 0; i < n; ++i) { h = (h ^ (uint8_t)s[i]) * 0x1000193u; g = (g ^ (uint8_t)s[i]) * 0x100000001b3ull; } CHECKM(hash_fnv1a(s) == h, "32-bit FNV-1a"); CHECKM(hash64_fnv1a(s) == g, "64-bit FNV-1a"); CHECK(hash_fnv1a("") == 0x811c9dc5u && hash64_fnv1a("foobar") == 0x85944171f73967e8ull && hash_fnv1a("foobar") == 0xbf9cf968u); }
#endif
  COVER(1);
}
