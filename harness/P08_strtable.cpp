//BSX property=P08 covers=1,2,3,4,5 variants=0,1 def.quick=NW=3,OPS=2 def.thorough=NW=4,OPS=3
//BSX bounds: tables of up to NW strings of up to 3 symbolic characters (8 and 32 bit), OPS symbolic operations (append, concatenate, copy, move, assign)
#include "bsx.h"
#include "model.h"
#include "bss-util/StringTable.h"
using namespace bss;
#if VARIANT == 0
typedef char C;
#else
typedef wchar_t C;
#endif
typedef StringTable<C, uint32_t> ST;
struct W { C c[4]; };
struct S { W a[24]; int n = 0; };
static void same(const ST& t, const S& s) {
  CHECK((int)t.Length() == s.n); uint32_t tot = 0;
  for(int i = 0; i < s.n; ++i) { const C* g = t.GetString(i); CHECK(g == (const C*)((ST&)t)[i]); int k = 0; for(;; ++k) { CHECKM(g[k] == s.a[i].c[k], "string i is the i-th string put in"); if(!s.a[i].c[k]) break; } tot += k + 1; }
  CHECK(t.TotalWordCapacity() == tot);
}
static W word() { W w; int l = bsx_choice(4, "len"); bsx_sym(w.c, l * sizeof(C), "ch"); for(int i = 0; i < l; ++i) ASSUME(w.c[i] != 0); w.c[l] = 0; return w; }
static S cat(const S& a, const S& b) { S r = a; for(int i = 0; i < b.n; ++i) r.a[r.n++] = b.a[i]; return r; }
static const W ab = { { 'a', 'b', 0 } }, em = { { 0 } };
int main() {
  size_t l0 = bsx_live();
  {
    S s; s.n = bsx_choice(NW + 1, "n"); const C* p[NW + 1]; for(int i = 0; i < s.n; ++i) { s.a[i] = word(); p[i] = s.a[i].c; }
    ST t(p, s.n); same(t, s); COVER(1);
    S s2; s2.a[0] = ab; s2.a[1] = em; s2.n = 2; const C* p2[2] = { ab.c, em.c }; ST t2(p2, 2); same(t2, s2);
    for(int op = 0; op < OPS; ++op) { switch(bsx_choice(6, "op")) {
      case 0: { 
#if VARIANT == 0
        W w = word(); if(bsx_choice(2, "how")) t.AppendString(w.c); else t += w.c; s.a[s.n++] = w;
#endif
        COVER(2); break; }
      case 1: t += t2; s = cat(s, s2); COVER(3); break;
      case 2: { ST u = t + t2; same(u, cat(s, s2)); same(t2, s2); u = t2 + t; same(u, cat(s2, s)); break; }
      case 3: { ST c(t); same(c, s); c += t2; same(t, s); c = t; same(c, s); ST& r = c; c = r; same(c, s); COVER(4); break; }
      case 4: { ST c(std::move(t)); same(c, s); t = std::move(c); same(t, s); COVER(5); break; }
      case 5: if(s.n) { t += t; s = cat(s, s); } break;
    } same(t, s); }
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
