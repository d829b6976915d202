//BSX property=P27 covers=1 variants=0,1,2,3,4,5,6,7,8,9,10,11 def.quick=LIM=2,SYR=1 def.thorough=LIM=5,SYR=2
//BSX bounds: vectors of 2, 3, 4 and 5 components and matrices 2x2, 3x3, 4x4, 2x3, 3x2, 4x3 over symbolic small integers (exact ring arithmetic, every 8-bit component value for vectors); determinants and inverses of 2x2, 3x3 and 4x4 matrices over the integers modulo 8 (division by units) with every entry of 2x2 and SYR rows at every position of 3x3 and 4x4 symbolic, the other rows fixed; rotations with symbolic sine and cosine; quaternions and splines over small values; the four-component 32-bit integer and float code on small integer values (floats -1..2, one symbolic row for determinants); vector.h as the clang configuration compiles it (SSE wrappers in their portable form: the raw-intrinsic 4x4 float inverse is outside)
#include "bsx.h"
// numbers whose sine and cosine are symbolic
struct R { int8_t v; R() = default; R(int x) : v((int8_t)x) {} R operator+(R o) const { return R(v + o.v); } R operator-(R o) const { return R(v - o.v); } R operator*(R o) const { return R(v * o.v); } R operator-() const { return R(-v); } R& operator+=(R o) { v = (int8_t)(v + o.v); return *this; } bool operator==(R o) const { return v == o.v; } bool operator!=(R o) const { return v != o.v; } };
static int8_t at, vS, vC; static R cos(R x) { CHECKM(x.v == at, "cosine of the angle given"); return R(vC); } static R sin(R x) { CHECKM(x.v == at, "sine of the angle given"); return R(vS); }
#include "bss-util/vector.h"
using namespace bss;
// the integers modulo 8: every odd number is its own inverse, so division by an odd number is exact
struct F { uint8_t v; F() = default; F(int x) : v((uint8_t)(x & 7)) {}
  F operator+(F o) const { return F(v + o.v); } F operator-(F o) const { return F(v - o.v); } F operator*(F o) const { return F(v * o.v); } F operator-() const { return F(-v); }
  F operator/(F o) const { CHECKM(o.v & 1, "divides by an invertible value only"); return *this * o; } F& operator+=(F o) { return *this = *this + o; } F& operator-=(F o) { return *this = *this - o; } F& operator*=(F o) { return *this = *this * o; } F& operator/=(F o) { return *this = *this / o; }
  friend F operator/(int a, F b) { return F(a) / b; } friend F operator*(int a, F b) { return F(a) * b; } bool operator==(F o) const { return v == o.v; } bool operator!=(F o) const { return v != o.v; } };
template<class T, int K> static void vecs() {
  T a[K], b[K]; for(int i = 0; i < K; ++i) { a[i] = sym<int8_t>("a"); b[i] = sym<int8_t>("b"); } T s = sym<int8_t>("s");
  Vector<T, K> x(a), y(b);
  switch(bsx_choice(9, "op")) {
  case 8: { Vector<T, K> n = -x; for(int i = 0; i < K; ++i) { CHECKM(n.v[i] == (T)-a[i], "negation"); CHECK(x.v[i] == a[i]); } if constexpr(K == 5) { Vector<T, 3> w = x.template Swizzle<4, 0, 2>(); CHECKM(w.x == a[4] && w.y == a[0] && w.z == a[2], "swizzle"); } break; }
  case 0: { Vector<T, K> p = x + y, q = x - y, r = x * y; for(int i = 0; i < K; ++i) { CHECKM(p.v[i] == (T)(a[i] + b[i]), "sum"); CHECKM(q.v[i] == (T)(a[i] - b[i]), "difference"); CHECKM(r.v[i] == (T)(a[i] * b[i]), "product"); CHECKM(x.v[i] == a[i] && y.v[i] == b[i], "operands unchanged"); } p = x; p += y; CHECK(p.v[K - 1] == (T)(a[K - 1] + b[K - 1])); p -= y; for(int i = 0; i < K; ++i) CHECK(p.v[i] == a[i]); break; }
  case 1: { Vector<T, K> p = x + s, q = x - s, r = x * s, u = s + x, v = s - x, w = s * x; for(int i = 0; i < K; ++i) { CHECK(p.v[i] == (T)(a[i] + s)); CHECK(q.v[i] == (T)(a[i] - s)); CHECK(r.v[i] == (T)(a[i] * s)); CHECK(u.v[i] == (T)(a[i] + s)); CHECKM(v.v[i] == (T)(s - a[i]), "scalar minus vector"); CHECK(w.v[i] == (T)(a[i] * s)); } break; }
  case 2: { for(int i = 0; i < K; ++i) ASSUME(a[i] >= -LIM && a[i] <= LIM && b[i] >= -LIM && b[i] <= LIM); T d = 0, e = 0; for(int i = 0; i < K; ++i) { d = (T)(d + a[i] * b[i]); T t = (T)(a[i] - b[i]); e = (T)(e + t * t); } CHECKM(x.Dot(y) == d, "dot product"); CHECKM(x.DistanceSq(y) == e, "squared distance"); break; }
  case 3: { bool eq = true, ne = false; for(int i = 0; i < K; ++i) { eq = eq & (a[i] == b[i]); ne = ne | (a[i] != b[i]); } CHECKM((x == y) == eq, "equality"); CHECKM((x != y) == ne, "inequality"); eq = true; ne = false; for(int i = 0; i < K; ++i) { eq = eq & (a[i] == s); ne = ne | (a[i] != s); } CHECK((x == s) == eq); CHECK((x != s) == ne); break; }
  case 4: { int c = 0; for(int i = 0; i < K; ++i) { if(a[i] < b[i]) { c = -1; break; } if(b[i] < a[i]) { c = 1; break; } } CHECKM((x < y) == (c < 0), "lexicographic less"); CHECKM((x > y) == (c > 0), "lexicographic greater"); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); break; }
  case 5: { bool l = true, g = true, le = true, ge = true; for(int i = 0; i < K; ++i) { l = l & (a[i] < s); g = g & (a[i] > s); le = le & (a[i] <= s); ge = ge & (a[i] >= s); } CHECK((x < s) == l); CHECK((x > s) == g); CHECK((x <= s) == le); CHECK((x >= s) == ge); break; }
  case 6: { Vector<T, K> p = x.Abs(); for(int i = 0; i < K; ++i) CHECKM(p.v[i] == (a[i] < 0 ? (T)-a[i] : a[i]), "absolute value"); Vector<int64_t, K> c(x); Vector<T, K> d(s); Vector<T, K> e({ a[1], a[0] }); d = c; for(int i = 0; i < K; ++i) { CHECK(c.v[i] == a[i]); CHECKM(d.v[i] == a[i], "conversion"); } CHECK(e.v[0] == a[1] && e.v[1] == a[0]); Vector<T, K> f(s); for(int i = 0; i < K; ++i) CHECK(f.v[i] == s); break; }
  case 7: { T m[K][2]; T z[2] = { b[0], s }; Vector<T, 2> w(z); x.Outer(w, m); for(int i = 0; i < K; ++i) for(int j = 0; j < 2; ++j) CHECKM(m[i][j] == (T)(a[i] * z[j]), "outer product"); break; }
  }
}
template<class T, int M, int P> static void small(T(&m)[M][P], int lim) { for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { int8_t x = sym<int8_t>("m"); if(lim) ASSUME(x >= -lim && x <= lim); m[i][j] = x; } }
template<class T, int M, int P> static void comp() {
  T a[M][P], b[M][P]; small(a, 0); small(b, 0); T s = sym<int8_t>("s"); Matrix<T, M, P> x(a), y(b);
  switch(bsx_choice(5, "op")) {
  case 0: { Matrix<T, M, P> p = x + y, q = x - y, r = x ^ y; for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { CHECKM(p.v[i][j] == (T)(a[i][j] + b[i][j]), "sum"); CHECK(q.v[i][j] == (T)(a[i][j] - b[i][j])); CHECK(r.v[i][j] == (T)(a[i][j] * b[i][j])); } break; }
  case 1: { Matrix<T, M, P> p = x + s, q = x - s, r = x * s, u = s + x, v = s - x, w = s * x, n = -x; for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { CHECK(p.v[i][j] == (T)(a[i][j] + s)); CHECK(q.v[i][j] == (T)(a[i][j] - s)); CHECK(r.v[i][j] == (T)(a[i][j] * s)); CHECK(u.v[i][j] == (T)(a[i][j] + s)); CHECK(v.v[i][j] == (T)(s - a[i][j])); CHECK(w.v[i][j] == (T)(a[i][j] * s)); CHECKM(n.v[i][j] == (T)-a[i][j], "negation"); } break; }
  case 2: { bool eq = true, es = true; for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { eq = eq & (a[i][j] == b[i][j]); es = es & (a[i][j] == s); } CHECKM((x == y) == eq, "equality"); CHECK((x != y) == !eq); CHECK((x == s) == es); CHECK((x != s) == !es); break; }
  case 3: { T t[P][M]; x.Transpose(t); for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) CHECKM(t[j][i] == a[i][j], "transpose"); if constexpr(M == P) { Matrix<T, M, P> u = x.Transpose(); for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) CHECK(u.v[j][i] == a[i][j]); Matrix<T, M, P> w; x.Transpose(w); CHECK(w == u); x.Transpose(x); CHECKM(x == u, "transpose in place"); } break; }
  case 4: { const int L = M < P ? M : P; T d[L]; for(int i = 0; i < L; ++i) d[i] = b[i][i]; Matrix<T, M, P> m = Matrix<T, M, P>::Diagonal(d), I = Matrix<T, M, P>::Identity(); for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { CHECKM(m.v[i][j] == (i == j ? d[i] : (T)0), "diagonal"); CHECKM(I.v[i][j] == (i == j), "identity"); } Matrix<T, M, P> z; z = x; CHECK(z == x); Matrix<int64_t, M, P> cv(x); for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) CHECKM(cv.v[i][j] == a[i][j], "conversion"); z = y; z = cv; CHECK(z == x); Matrix<T, P, M> tt = ~x; for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) CHECKM(tt.v[j][i] == a[i][j], "transpose operator"); break; }
  }
}
template<class T, int A, int B, int C> static void mul() {
  T a[A][B], b[B][C], e[A][C]; const int lim = sizeof(T) == 4 ? 1 : LIM; small(a, lim); small(b, lim); for(int i = 0; i < A; ++i) for(int j = 0; j < C; ++j) { e[i][j] = 0; for(int k = 0; k < B; ++k) e[i][j] = (T)(e[i][j] + a[i][k] * b[k][j]); }
  Matrix<T, A, B> x(a); Matrix<T, B, C> y(b); Matrix<T, A, C> p = x * y; for(int i = 0; i < A; ++i) for(int j = 0; j < C; ++j) CHECKM(p.v[i][j] == e[i][j], "matrix product");
  if constexpr(B == C) { x *= y; for(int i = 0; i < A; ++i) for(int j = 0; j < C; ++j) CHECKM(x.v[i][j] == e[i][j], "product in place"); if constexpr(A == B) { Matrix<T, A, B> z(a); MatrixMultiply<T, A, B, C>(z.v, y.v, y.v); CHECKM(y == p, "product written over the right operand"); Matrix<T, A, B> q = z * z; z *= z; CHECKM(z == q, "square in place"); } }
  Vector<T, B> v; for(int i = 0; i < B; ++i) v.v[i] = b[i][0]; Matrix<T, A, B> xx(a); Vector<T, A> w = xx * v; for(int i = 0; i < A; ++i) CHECKM(w.v[i] == e[i][0], "matrix times column");
  Vector<T, B> r; for(int i = 0; i < B; ++i) r.v[i] = a[0][i]; Matrix<T, B, C> yy(b); Vector<T, C> u = r * yy; for(int i = 0; i < C; ++i) CHECKM(u.v[i] == e[0][i], "row times matrix"); if constexpr(B == C) { r *= yy; CHECKM(r == u, "row times matrix in place"); }
}
static F det(int n, const F(&m)[4][4], int row, int used) { F r(0); int sg = 0; for(int j = 0; j < n; ++j) if(!(used & (1 << j))) { F t = m[row][j]; if(row + 1 < n) t = t * det(n, m, row + 1, used | (1 << j)); r = (sg & 1) ? r - t : r + t; ++sg; } return r; }
template<int K, int SR> static void inv() { // SR rows symbolic, the others from a table of constants
  static const uint8_t fix[3][4] = { { 1, 2, 3, 5 }, { 4, 1, 7, 3 }, { 6, 3, 0, 1 } };
  F g[4][4]; Matrix<F, K, K> m; int r0 = bsx_choice(K, "row"), r1 = -1; if(SR == 2) { r1 = r0 + 1; if(r1 == K) ASSUME(0); } int f = 0; for(int i = 0; i < K; ++i) { if(SR >= K || i == r0 || i == r1) for(int j = 0; j < K; ++j) { uint8_t x = sym<uint8_t>("m"); ASSUME(x < 8); g[i][j].v = x; } else { for(int j = 0; j < K; ++j) g[i][j] = F(fix[f][(j + 0) % 4]); ++f; } for(int j = 0; j < K; ++j) m.v[i][j] = g[i][j]; }
  F d = det(K, g, 0, 0); CHECKM(m.Determinant() == d, "determinant"); ASSUME(d.v & 1); Matrix<F, K, K> q = m.Inverse(); Matrix<F, K, K> p = m * q; for(int i = 0; i < K; ++i) for(int j = 0; j < K; ++j) CHECKM(p.v[i][j].v == (i == j), "a matrix times its inverse is the identity");
  m.Inverse(m); for(int i = 0; i < K; ++i) for(int j = 0; j < K; ++j) CHECKM(m.v[i][j] == q.v[i][j], "inverse in place");
}
template<int K> static bool eqm(const R(&a)[K][K], const int(&b)[K][K], bool tp) { bool r = true; for(int i = 0; i < K; ++i) for(int j = 0; j < K; ++j) r = r & (a[i][j].v == (int8_t)(tp ? b[j][i] : b[i][j])); return r; }
static int8_t tiny() { int8_t x = sym<int8_t>("t"); ASSUME(x >= -LIM && x <= LIM); return x; }
static int8_t tiny1() { int8_t x = sym<int8_t>("t"); ASSUME(x >= -1 && x <= 2); return x; }
static void rots() {
  at = 77; vS = tiny(); vC = tiny(); int8_t c = vC, s = vS, x = tiny(), y = tiny(), z = tiny(), cx = tiny(), cy = tiny(); R r(77);
  typedef Matrix<R, 2, 2> M2; typedef Matrix<R, 3, 3> M3; typedef Matrix<R, 4, 4> M4; M2 m2; M3 m3; M4 m4;
  int r2[2][2] = { { c, -s }, { s, c } }, X3[3][3] = { { 1, 0, 0 }, { 0, c, -s }, { 0, s, c } }, Y3[3][3] = { { c, 0, s }, { 0, 1, 0 }, { -s, 0, c } }, Z3[3][3] = { { c, -s, 0 }, { s, c, 0 }, { 0, 0, 1 } };
  int T3[3][3] = { { 1, 0, x }, { 0, 1, y }, { 0, 0, 1 } }, T4[4][4] = { { 1, 0, 0, x }, { 0, 1, 0, y }, { 0, 0, 1, z }, { 0, 0, 0, 1 } }; int S3[3][3] = { { x, 0, 0 }, { 0, y, 0 }, { 0, 0, 1 } }, S4[4][4] = { { x, 0, 0, 0 }, { 0, y, 0, 0 }, { 0, 0, z, 0 }, { 0, 0, 0, 1 } };
  int X4[4][4], Y4[4][4], Z4[4][4]; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { bool in = i < 3 && j < 3; X4[i][j] = in ? X3[i][j] : i == j; Y4[i][j] = in ? Y3[i][j] : i == j; Z4[i][j] = in ? Z3[i][j] : i == j; }
  int A3[3][3] = { { c, -s, x + cx - c * cx + s * cy }, { s, c, y + cy - c * cy - s * cx }, { 0, 0, 1 } }, A4[4][4] = { { c, -s, 0, x + cx - c * cx + s * cy }, { s, c, 0, y + cy - c * cy - s * cx }, { 0, 0, 1, z }, { 0, 0, 0, 1 } };
  switch(bsx_choice(5, "op")) {
  case 0: M2::Rotation(r, m2); CHECKM(eqm(m2.v, r2, false), "2D rotation"); M2::Rotation_T(r, m2); CHECK(eqm(m2.v, r2, true)); break;
  case 1: M3::RotationX(r, m3); CHECKM(eqm(m3.v, X3, false), "rotation about x"); M3::RotationX_T(r, m3); CHECK(eqm(m3.v, X3, true)); M3::RotationY(r, m3); CHECKM(eqm(m3.v, Y3, false), "rotation about y"); M3::RotationY_T(r, m3); CHECK(eqm(m3.v, Y3, true)); M3::RotationZ(r, m3); CHECKM(eqm(m3.v, Z3, false), "rotation about z"); M3::RotationZ_T(r, m3); CHECK(eqm(m3.v, Z3, true)); M3::AffineRotation(r, m3); CHECK(eqm(m3.v, Z3, false)); M3::AffineRotation_T(r, m3); CHECK(eqm(m3.v, Z3, true)); break;
  case 2: M4::AffineRotationX(r, m4); CHECKM(eqm(m4.v, X4, false), "rotation about x"); M4::AffineRotationX_T(r, m4); CHECK(eqm(m4.v, X4, true)); M4::AffineRotationY(r, m4); CHECK(eqm(m4.v, Y4, false)); M4::AffineRotationY_T(r, m4); CHECK(eqm(m4.v, Y4, true)); M4::AffineRotationZ(r, m4); CHECK(eqm(m4.v, Z4, false)); M4::AffineRotationZ_T(r, m4); CHECK(eqm(m4.v, Z4, true)); break;
  case 3: M3::Translation(x, y, m3); CHECKM(eqm(m3.v, T3, false), "translation"); M3::Translation_T(x, y, m3); CHECK(eqm(m3.v, T3, true)); M4::Translation(x, y, z, m4); CHECK(eqm(m4.v, T4, false)); M4::Translation_T(x, y, z, m4); CHECK(eqm(m4.v, T4, true)); M3::AffineScaling(x, y, m3); CHECKM(eqm(m3.v, S3, false), "scaling"); M4::AffineScaling(x, y, z, m4); CHECK(eqm(m4.v, S4, false)); break;
  case 4: M3::AffineTransform(x, y, r, cx, cy, m3); CHECKM(eqm(m3.v, A3, false), "rotation about a centre, then translation"); M3::AffineTransform_T(x, y, r, cx, cy, m3); CHECK(eqm(m3.v, A3, true)); M4::AffineTransform(x, y, z, r, cx, cy, m4); CHECK(eqm(m4.v, A4, false)); M4::AffineTransform_T(x, y, z, r, cx, cy, m4); CHECK(eqm(m4.v, A4, true)); break;
  }
}
static int idet(int n, const int(&m)[4][4], int row, int used) { int r = 0, sg = 0; for(int j = 0; j < n; ++j) if(!(used & (1 << j))) { int t = m[row][j]; if(row + 1 < n) t = t * idet(n, m, row + 1, used | (1 << j)); r = (sg & 1) ? r - t : r + t; ++sg; } return r; }
static void quat() {
  int8_t x = tiny(), y = tiny(), z = tiny(), w = tiny(); int e[3][3] = { { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w) }, { 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w) }, { 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y) } };
  int8_t q[4] = { x, y, z, w }, o[3][3]; FromQuaternion<int8_t, 3>(q, o); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) CHECKM(o[i][j] == (int8_t)e[i][j], "rotation of a quaternion");
}
static void quatf() {
  int8_t x = tiny1(), y = tiny1(), z = tiny1(), w = tiny1(); int e[4][4] = { { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 0 }, { 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 0 }, { 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y), 0 }, { 0, 0, 0, 1 } };
  alignas(16) float q[4] = { (float)x, (float)y, (float)z, (float)w }; alignas(16) float o[4][4]; FromQuaternion<float, 4>(q, o); int i = bsx_choice(4, "i"); for(int j = 0; j < 4; ++j) CHECKM(o[i][j] == (float)e[i][j], "rotation of a quaternion");
}
static void spline() {
  int ti = bsx_choice(3, "t"); float t = (float)ti; alignas(16) float m[4][4], p[4]; int pw[4] = { ti * ti * ti, ti * ti, ti, 1 }, e = 0; int8_t x[4]; for(int k = 0; k < 4; ++k) { x[k] = tiny1(); p[k] = (float)x[k]; } for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { int c = (i * 3 + j * 5 + i * j) % 7 - 2; m[i][j] = (float)c; e += pw[i] * c * x[j]; }
  CHECKM(GenericBSpline(t, p, m) == (float)e, "spline value");
}
static void flt() { // the float code: exact on small integers
  static const int fx[3][4] = { { 1, 2, -1, 3 }, { 0, -2, 1, 1 }, { 2, 1, 3, -1 } }; int op = bsx_choice(5, "op");
  if(op < 2) { int K = op ? 4 : 3, r = bsx_choice(K, "row"), f = 0, g[4][4] = { { 0 } }; int8_t x[4]; for(int i = 0; i < 4; ++i) x[i] = tiny1(); for(int i = 0; i < K; ++i) { for(int j = 0; j < K; ++j) g[i][j] = i == r ? x[j] : fx[f][j]; if(i != r) ++f; } int d = idet(K, g, 0, 0); alignas(16) float m3[3][3], m4[4][4]; for(int i = 0; i < K; ++i) for(int j = 0; j < K; ++j) { if(K == 3) m3[i][j] = (float)g[i][j]; else m4[i][j] = (float)g[i][j]; } float e = K == 3 ? MatrixDeterminant<float, 3>(m3) : MatrixDeterminant<float, 4>(m4); CHECKM(e == (float)d, "determinant"); return; }
  Vector<float, 4> a, b; int8_t x[4], y[4]; for(int i = 0; i < 4; ++i) { x[i] = tiny1(); y[i] = tiny1(); a.v[i] = (float)x[i]; b.v[i] = (float)y[i]; }
  if(op == 2) { int d = 0; for(int i = 0; i < 4; ++i) d += x[i] * y[i]; CHECKM(a.Dot(b) == (float)d, "dot product"); return; }
  if(op == 3) { int i = bsx_choice(4, "i"); Vector<float, 4> s = a + b, t = a - b, u = a * b, v = a + 3.0f, w = a - 3.0f, z = a * 3.0f; CHECK(s.v[i] == (float)(x[i] + y[i])); CHECK(t.v[i] == (float)(x[i] - y[i])); CHECK(u.v[i] == (float)(x[i] * y[i])); CHECK(v.v[i] == (float)(x[i] + 3)); CHECK(w.v[i] == (float)(x[i] - 3)); CHECK(z.v[i] == (float)(x[i] * 3)); Vector<float, 4> h = a / 2.0f; CHECKM(h.v[i] * 2.0f == a.v[i], "quotient"); return; }
  Matrix<float, 4, 4> m; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) m.v[i][j] = (float)((i * 3 + j * 5 + i * j) % 7 - 2); Vector<float, 4> l = a * m; int j = bsx_choice(4, "j"), e = 0; for(int i = 0; i < 4; ++i) e += x[i] * ((i * 3 + j * 5 + i * j) % 7 - 2); CHECKM(l.v[j] == (float)e, "row times matrix"); Vector<float, 4> c = m * a; e = 0; for(int i = 0; i < 4; ++i) e += x[i] * ((j * 3 + i * 5 + i * j) % 7 - 2); CHECKM(c.v[j] == (float)e, "matrix times column");
}
static void len() { int c[3]; for(int i = 0; i < 3; ++i) c[i] = bsx_choice(5, "c") * (i + 1) - 4; Vector<int, 3> v(c); Vector<int, 2> u(c[0], c[1]); int l = v.Length(), d = v.Dot(v); CHECKM(l * l <= d && (l + 1) * (l + 1) > d, "length"); l = u.Length(); d = u.Dot(u); CHECK(l * l <= d && (l + 1) * (l + 1) > d); Vector<int, 3> o(c[2], c[0], c[1]); l = v.Distance(o); d = v.DistanceSq(o); CHECKM(l * l <= d && (l + 1) * (l + 1) > d, "distance"); }
static void swz() {
  int16_t a = tiny(), b = tiny(), c = tiny(), d = tiny(); Vector<int16_t, 3> v(a, b, c); Vector<int16_t, 4> q(a, b, c, d); Vector<int16_t, 2> p(a, b);
  auto yx = p.yx(); CHECK(yx.x == b && yx.y == a);
#define S2(v, f, A, B) { auto t = v.f(); CHECKM(t.x == A && t.y == B, "swizzle " #f); }
#define S3(v, f, A, B, C) { auto t = v.f(); CHECKM(t.x == A && t.y == B && t.z == C, "swizzle " #f); }
#define S4(f, A, B, C, D) { auto t = q.f(); CHECKM(t.x == A && t.y == B && t.z == C && t.w == D, "swizzle " #f); }
  S2(v, xz, a, c) S2(v, zx, c, a) S2(v, zy, c, b) S2(v, yz, b, c) S2(v, yx, b, a) S3(v, xzy, a, c, b) S3(v, zxy, c, a, b) S3(v, zyx, c, b, a) S3(v, yzx, b, c, a) S3(v, yxz, b, a, c)
  S2(q, xz, a, c) S2(q, xw, a, d) S2(q, zx, c, a) S2(q, zy, c, b) S2(q, zw, c, d) S2(q, yz, b, c) S2(q, yx, b, a) S2(q, yw, b, d)
  S3(q, xyw, a, b, d) S3(q, xzy, a, c, b) S3(q, xzw, a, c, d) S3(q, xwy, a, d, b) S3(q, xwz, a, d, c) S3(q, zxy, c, a, b) S3(q, zxw, c, a, d) S3(q, zyx, c, b, a) S3(q, zyw, c, b, d) S3(q, zwx, c, d, a) S3(q, zwy, c, d, b) S3(q, wxy, d, a, b) S3(q, wxz, d, a, c) S3(q, wyx, d, b, a) S3(q, wyz, d, b, c) S3(q, wzx, d, c, a) S3(q, wzy, d, c, b)
  S4(xywz, a, b, d, c) S4(xzyw, a, c, b, d) S4(xzwy, a, c, d, b) S4(xwyz, a, d, b, c) S4(xwzy, a, d, c, b) S4(zxyw, c, a, b, d) S4(zxwy, c, a, d, b) S4(zyxw, c, b, a, d) S4(zywx, c, b, d, a) S4(zwxy, c, d, a, b) S4(zwyx, c, d, b, a) S4(wxyz, d, a, b, c) S4(wxzy, d, a, c, b) S4(wyxz, d, b, a, c) S4(wyzx, d, b, c, a) S4(wzxy, d, c, a, b) S4(wzyx, d, c, b, a)
  Vector<int16_t, 3> o = v.Cross(Vector<int16_t, 3>(b, d, a)); CHECKM(o.x == (int16_t)b * a - (int16_t)c * d && o.y == (int16_t)c * b - (int16_t)a * a && o.z == (int16_t)a * d - (int16_t)b * b, "cross product");
  Vector<int16_t, 2> e(a, b), g(c, d); int16_t x2 = e.Cross(g), dt = (int16_t)(a * d - b * c); CHECKM(x2 == dt || x2 == -dt, "2D cross product"); CHECK(e.Cross(c, d) == x2); CHECK(g.Cross(e) == (int16_t)-x2);
}
int main() {
#if VARIANT == 0
  switch(bsx_choice(4, "n")) { case 0: vecs<int32_t, 2>(); break; case 1: vecs<int32_t, 3>(); break; case 2: vecs<int16_t, 4>(); break; case 3: vecs<int32_t, 5>(); break; }
#elif VARIANT == 1
  switch(bsx_choice(6, "n")) { case 0: comp<int32_t, 2, 2>(); break; case 1: comp<int32_t, 3, 3>(); break; case 2: comp<int16_t, 4, 4>(); break; case 3: comp<int32_t, 2, 3>(); break; case 4: comp<int32_t, 3, 2>(); break; case 5: comp<int16_t, 4, 3>(); break; }
#elif VARIANT == 2
  switch(bsx_choice(6, "n")) { case 0: mul<int16_t, 2, 2, 2>(); break; case 1: mul<int16_t, 3, 3, 3>(); break; case 2: mul<int16_t, 4, 4, 4>(); break; case 3: mul<int16_t, 2, 3, 4>(); break; case 4: mul<int16_t, 3, 2, 2>(); break; case 5: mul<int16_t, 4, 3, 3>(); break; }
#elif VARIANT == 3
  switch(bsx_choice(3, "n")) { case 0: inv<2, 2>(); break; case 1: inv<3, SYR>(); break; case 2: inv<4, SYR>(); break; }
#elif VARIANT == 4
  rots();
#elif VARIANT == 5
  swz();
#elif VARIANT == 6
  vecs<int32_t, 4>();
#elif VARIANT == 7
  if(bsx_choice(2, "f")) quat(); else quatf();
#elif VARIANT == 8
  spline();
#elif VARIANT == 9
  len();
#elif VARIANT == 10
  flt();
#elif VARIANT == 11
  switch(bsx_choice(4, "n")) { case 0: mul<int32_t, 4, 4, 4>(); break; case 1: mul<int32_t, 3, 4, 4>(); break; case 2: mul<int32_t, 1, 4, 4>(); break; case 3: mul<int32_t, 2, 4, 4>(); break; }
#endif
  COVER(1);
}
