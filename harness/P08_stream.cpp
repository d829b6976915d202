//BSX property=P08 covers=1 variants=0,1 shim=1 def.quick=NW=3 def.thorough=NW=4
//BSX bounds: tables of 1 to NW strings of up to 2 symbolic characters (8 and 32 bit), dumped to a stream and read back with the exact size or a larger one, then extended
#include "bsx.h"
#include <sstream>
#include "bss-util/StringTable.h"
using namespace bss;
#if VARIANT == 0
typedef char C;
#else
typedef wchar_t C;
#endif
typedef StringTable<C, uint32_t> ST; struct W { C c[3]; };
int main() {
  size_t l0 = bsx_live();
  { int n = 1 + bsx_choice(NW, "n"); W w[NW]; const C* p[NW]; uint32_t tot = 0; for(int i = 0; i < n; ++i) { int l = bsx_choice(3, "len"); bsx_sym(w[i].c, l * sizeof(C), "ch"); for(int j = 0; j < l; ++j) ASSUME(w[i].c[j] != 0); w[i].c[l] = 0; p[i] = w[i].c; tot += l + 1; }
    ST t(p, n); CHECK(t.TotalWordCapacity() == tot); const uint32_t* ix = t.GetIndices(); for(int i = 0; i < n; ++i) CHECK(t.GetString(i) == t.GetString(0) + (ix[i] - ix[0]));
    std::stringstream ss; 
#if VARIANT == 0
    t.DumpToStream(&ss);
#else
    ss.write((const char*)t.GetString(0), tot * sizeof(C));
#endif
    ST u(&ss, (uint32_t)(tot * sizeof(C)) + (bsx_choice(2, "more") ? 8 : 0));
    CHECKM((int)u.Length() == n, "as many strings as were dumped"); CHECK(u.TotalWordCapacity() == tot); for(int i = 0; i < n; ++i) { const C* g = u.GetString(i); for(int k = 0;; ++k) { CHECKM(g[k] == w[i].c[k], "a table read from a stream returns the strings dumped"); if(!w[i].c[k]) break; } }
    u += t; CHECK((int)u.Length() == 2 * n); for(int i = 0; i < 2 * n; ++i) { const C* g = u.GetString(i); for(int k = 0;; ++k) { CHECK(g[k] == w[i % n].c[k]); if(!g[k]) break; } }
    ST e((std::istream*)0, 5), e2(&ss, 0); CHECK(e.Length() == 0 && e2.Length() == 0); COVER(1); }
  CHECK(bsx_live() == l0);
}
