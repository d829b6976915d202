//BSX property=P02 covers=1,2,3,4,5,6 def.quick=NI=3,OPS=2 def.thorough=NI=4,OPS=3
//BSX bounds: NI symbolic distinct keys with symbolic data, then OPS symbolic operations, then lookups with a symbolic key
#include "bsx.h"
#include "model.h"
#include "bss-util/Map.h"
using namespace bss;
typedef Map<int, short> M;
struct KV { int k; short v; };
typedef Seq<KV, 12> S;
static void fresh(S& s, int k, int but = -1) { for(int i = 0; i < s.n; ++i) if(i != but) bsx_assume(s[i].k != k); }
static void missing(S& s, int k) { for(int i = 0; i < s.n; ++i) CHECK(s[i].k != k); }
static void same(M& m, S& s) {
  CHECK((int)m.Length() == s.n);
  for(int i = 0; i < s.n; ++i) { CHECK(m.KeyIndex(i) == s[i].k); CHECK(m.DataIndex(i) == s[i].v); CHECK(m(i) == s[i].v); }
  for(int i = 1; i < s.n; ++i) CHECK(s[i - 1].k < s[i].k);
}
int main() {
  size_t l0 = bsx_live();
  {
    M m; S s;
    auto insert = [&] { int k = sym<int>("k"); short v = sym<short>("v"); fresh(s, k); size_t r = m.Insert(k, v); CHECK((int)r <= s.n); s.insert((int)r, KV{ k, v }); };
    for(int i = 0; i < NI; ++i) insert();
    same(m, s);
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(6, "op")) {
      case 0: insert(); COVER(1); break;
      case 1: { int k = sym<int>("k"); size_t r = m.Remove(k); if(r == (size_t)-1) missing(s, k); else { CHECK((int)r < s.n); CHECK(s[(int)r].k == k); s.remove((int)r); COVER(2); } break; }
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"); short v = sym<short>("v"); size_t r = m.Set(s[i].k, v); CHECK((int)r == i); s[i].v = v; COVER(3); break; }
      case 3: { if(!s.n) break; int i = bsx_choice(s.n, "i"), k = sym<int>("k"); short v = s[i].v; fresh(s, k, i); s.remove(i); size_t r = m.ReplaceKey(i, k); CHECK((int)r <= s.n); s.insert((int)r, KV{ k, v }); COVER(4); break; }
      case 4: { if(!s.n) break; int i = bsx_choice(s.n, "i"); CHECK(m.RemoveIndex(i)); s.remove(i); break; }
      case 5: { if(!s.n) break; int i = bsx_choice(s.n, "i"), k = sym<int>("k"); short v = sym<short>("v"); fresh(s, k, i); s.remove(i); size_t r = m.Replace(i, k, v); CHECK((int)r <= s.n); s.insert((int)r, KV{ k, v }); break; }
    }
    same(m, s);
    int x = sym<int>("x"); size_t g = m.Get(x);
    if(g == (size_t)-1) { missing(s, x); COVER(5); } else { CHECK((int)g < s.n); CHECK(s[(int)g].k == x); CHECK(m.GetData(x) == s[(int)g].v); COVER(6); }
    size_t b = m.GetNear(x, true), c = m.GetNear(x, false);
    if(b == (size_t)-1) { if(s.n) CHECK(s[0].k > x); } else { CHECK((int)b < s.n); CHECK(s[(int)b].k <= x); if((int)b + 1 < s.n) CHECK(s[(int)b + 1].k > x); }
    if(c == (size_t)-1) { if(s.n) CHECK(s[s.n - 1].k < x); } else { CHECK((int)c < s.n); CHECK(s[(int)c].k >= x); if((int)c > 0) CHECK(s[(int)c - 1].k < x); }
    M d(m); same(d, s); if(d.Length()) d.RemoveIndex(0); same(m, s); M e; e = m; same(e, s);
    bsx_out(g); bsx_out(m.Length());
  }
  CHECK(bsx_live() == l0);
}
