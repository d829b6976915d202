//BSX property=P01 covers=1,2,3,4,5 variants=0,1,2
//BSX bounds: construction and assignment of the exact-size and growable arrays from slices, lists and each other for sources of 0 to 4 elements and destinations of 0 to 3, const and rvalue insertion at every position; stack arrays of 0 to 3 elements; multi-dimensional indexing with dimensions 1 to 4; raw bytes of bit arrays of 0 to 17 bits
#include "bsx.h"
#include "model.h"
#include "bss-util/DynArray.h"
#include "bss-util/CompactArray.h"
using namespace bss;
#if VARIANT == 0
typedef int E; typedef Array<int> A; typedef DynArray<int> D; typedef size_t C;
#elif VARIANT == 1
typedef Own E; typedef Array<Own, size_t, ARRAY_CONSTRUCT> A; typedef DynArray<Own, size_t, ARRAY_CONSTRUCT> D; typedef size_t C;
#else
typedef Pin E; typedef Array<Pin, uint32_t, ARRAY_SAFE> A; typedef DynArray<Pin, uint32_t, ARRAY_SAFE> D; typedef uint32_t C;
#endif
typedef Seq<int, 24> S;
static void same(const A& a, S& s) { CHECKM((int)a.Capacity() == s.n, "length"); int k = 0; for(const E& e : a) { CHECKM(getv(e) == s[k], "holds the described sequence"); ++k; } CHECK(k == s.n); }
static void same(const D& a, S& s) { CHECKM((int)a.Length() == s.n, "length"); int k = 0; for(const E& e : a) { CHECKM(getv(e) == s[k], "holds the described sequence"); ++k; } CHECK(k == s.n); if(s.n) CHECK(getv(a.Front()) == s[0] && getv(a.Back()) == s[s.n - 1]); }
template<class X> static void muts(X& a, S& s) {
  if(s.n) { int v = sym<int>("f"); a.Front() = E(v); s[0] = v; v = sym<int>("b"); a.Back() = E(v); s[s.n - 1] = v; same(a, s); *(a.end() - 1) = E(3); s[s.n - 1] = 3; same(a, s); }
  { int v = sym<int>("v"); const E e(v); CHECK((int)a.Add(e) == s.n); s.add(v); CHECK(getv(e) == v); }
  { int v = sym<int>("v"); int i = bsx_choice(s.n + 1, "i"); if(bsx_choice(2, "rv")) a.Insert(E(v), (C)i); else { const E e(v); a.Insert(e, (C)i); CHECK(getv(e) == v); } s.insert(i, v); }
  same(a, s);
}
int main() {
  size_t l0 = bsx_live();
  {
    S s; E src[4] = { E(0), E(0), E(0), E(0) }; int n = bsx_choice(5, "n"); for(int i = 0; i < n; ++i) { int v = sym<int>("v"); src[i] = E(v); s.add(v); }
    Slice<const E, C> sl(src, (C)n); if(n) CHECK(getv(sl.Front()) == s[0]);
    int pre = bsx_choice(3, "pre");
    switch(bsx_choice(7, "what")) {
    case 0: { A a(sl); same(a, s); muts(a, s); COVER(1); break; }
    case 1: { D a(sl); same(a, s); muts(a, s); break; }
    case 2: { A a((C)pre); for(int i = 0; i < pre; ++i) a[i] = E(9); if(bsx_choice(2, "set")) a.Set(sl); else a = sl; same(a, s); muts(a, s); break; }
    case 3: { D a; for(int i = 0; i < pre; ++i) a.Add(E(9)); if(bsx_choice(2, "set")) a.Set(sl); else a = sl; same(a, s); muts(a, s); break; }
    case 4: { D a(sl); { D b; for(int i = 0; i < pre; ++i) b.Add(E(9)); b = Slice<const E, C>(a.begin(), a.Length()); same(b, s); } same(a, s); muts(a, s); COVER(2); break; }
#if VARIANT != 2
    case 5: { int x = sym<int>("x"), y = sym<int>("y"), z = sym<int>("z"); s.n = 0; s.add(x); s.add(y); s.add(z); if(bsx_choice(2, "dyn")) { D a({ E(x), E(y), E(z) }); same(a, s); muts(a, s); } else { A a({ E(x), E(y), E(z) }); same(a, s); muts(a, s); } COVER(3); break; }
#else
    case 5: COVER(3); break;
#endif
    case 6: {
      COVER(4);
#if VARIANT == 0
      int w = bsx_choice(3, "part");
      if(w == 0) { int z = 1 + bsx_choice(3, "z"), y = 1 + bsx_choice(3, "y"), x = 1 + bsx_choice(4, "x"); static int cells[64]; for(int i = 0; i < 64; ++i) cells[i] = 0; ArrayMultiRef<int, int, int, int> r(cells, z, y, x); CHECK((int*)r == cells && !!r); int c = 0;
        for(int a = 0; a < z; ++a) for(int b = 0; b < y; ++b) for(int d = 0; d < x; ++d) { CHECKM(r.GetIndice(a, b, d) == (a * y + b) * x + d, "the last axis is contiguous"); r(a, b, d) = ++c; } for(int i = 0; i < z * y * x; ++i) CHECK(cells[i] == i + 1); 
        ArrayMultiRef<int, int, int> r2(cells, y, x); for(int b = 0; b < y; ++b) for(int d = 0; d < x; ++d) CHECK(&r2(b, d) == cells + b * x + d); ArrayMultiRef<int, int, int> r3(r2); CHECK((int*)r3 == cells); }
      else if(w == 1) { int m = bsx_choice(4, "m"); VARARRAY(int, va, m); CHECK((int)va.Length() == m); for(int i = 0; i < m; ++i) va[i] = sym<int>("e"); const auto& cv = va; CHECK(va.end() - va.begin() == m && cv.end() - cv.begin() == m); if(m) { CHECK(&va.Front() == va.begin() && &va.Back() == va.end() - 1 && &cv.Front() == &va[0] && &cv.Back() == &va[m - 1]); CHECK(*va == va[0]); } CHECK((int)va.GetSlice().length == m); 
        VARARRAY(Own, vo, m); for(int i = 0; i < m; ++i) vo[i] = Own(i + 4); for(int i = 0; i < m; ++i) CHECK(getv(vo[i]) == i + 4); { internal::VariableArray<Own> h(m, nullptr); CHECK((int)h.Length() == m); for(int i = 0; i < m; ++i) h[i] = Own(i); for(int i = 0; i < m; ++i) CHECK(getv(h[i]) == i); } }
      else { static const int ln[] = { 0, 1, 7, 8, 9, 15, 16, 17 }; int m = ln[bsx_choice(8, "m")]; uint32_t bits = sym<uint32_t>("bits"); DynArray<bool> b; if(bsx_choice(2, "cap")) b.SetCapacity(40); for(int i = 0; i < m; ++i) b.Add((bits >> i) & 1); int nb = (int)b.Capacity() / 8; for(int i = 0; i < nb; ++i) { uint32_t e = i < 3 ? ((bits & ((1u << m) - 1)) >> (8 * i)) & 255 : 0; CHECKM(b.GetRawByte(i) == e, "a raw byte shows the bits in use and zero elsewhere"); }
        if(m) { b.Front() = true; b.Back() = false; CHECK(b[(size_t)m - 1] == false); if(m > 1) CHECK(b[(size_t)0] == true); int k = 0; for(auto it = b.begin(); it != b.end(); ++it) { *it = (k & 1) != 0; ++k; } CHECK(k == m); for(k = 0; k < m; ++k) CHECK(b[(size_t)k] == ((k & 1) != 0)); b.Flip(); for(k = 0; k < m; ++k) CHECK(b[(size_t)k] == ((k & 1) == 0)); CHECK((int)b.Length() == m); }
        DynArray<bool> l({ true, false, (bits & 1) != 0 }); CHECK(l.Length() == 3 && l[(size_t)0] && !l[(size_t)1] && l[(size_t)2] == ((bits & 1) != 0)); }
#endif
      break; }
    }
#if VARIANT == 0
    { CompactArray<int, 2> c(sl); CHECK((int)c.Length() == n); CompactArray<int, 2> d; d.Add(3); d = sl; CHECK((int)d.Length() == n); for(int i = 0; i < n; ++i) CHECK(c[i] == src[i] && d[i] == src[i]); if(n) { const auto& cc = c; CHECK(cc.Front() == src[0]); c.Back() = 8; CHECK(c[n - 1] == 8 && d[n - 1] == src[n - 1]); } }
#endif
    COVER(5);
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
