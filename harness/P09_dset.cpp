//BSX property=P09 covers=1,2,3,4,5,6 variants=0,1 def.quick=NE=4,OPS=3,EDGES=3 def.thorough=NE=5,OPS=4,EDGES=4
//BSX bounds: disjoint sets of up to NE elements, OPS symbolic operations (union of any two indices, find with path compression, add elements, copy, move, reset); spanning forests of all edge lists of up to EDGES edges over NE vertices
#include "bsx.h"
#include "model.h"
#include "bss-util/DisjointSet.h"
using namespace bss;
#if VARIANT == 0
typedef size_t IX;
#else
typedef uint16_t IX;
#endif
typedef DisjointSet<IX> D;
struct M { int c[16]; int n; int sets() const { int r = 0; for(int i = 0; i < n; ++i) { int f = 1; for(int k = 0; k < i; ++k) if(c[k] == c[i]) f = 0; r += f; } return r; } int size(int x) const { int r = 0; for(int i = 0; i < n; ++i) r += c[i] == c[x]; return r; } void uni(int a, int b) { int x = c[a], y = c[b]; for(int i = 0; i < n; ++i) if(c[i] == y) c[i] = x; } };
static void same(D d, const M& m) { // by value: finding compresses paths
  CHECK((int)d.Length() == m.n); CHECK((int)d.NumSets() == m.sets());
  for(int i = 0; i < m.n; ++i) {
    auto r = d.Find(i); CHECK(r >= 0 && (int)r < m.n); CHECKM(d.IsSetName(r), "find returns a set name"); CHECKM(m.c[r] == m.c[i], "an element belongs to the set that was united with it");
    CHECK((int)d.NumElements(i) == m.size(i)); for(int k = 0; k < i; ++k) CHECKM((d.Find(k) == r) == (m.c[k] == m.c[i]), "two elements share a set name exactly when they were united");
    IX t[16]; CHECK((int)d.GetElements(i, t) == m.size(i)); int j = 0; for(int k = 0; k < m.n; ++k) if(m.c[k] == m.c[i]) CHECK((int)t[j++] == k);
  }
  CHECK((int)d.NumElements(m.n) == -1); CHECK(!d.IsSetName(m.n));
}
int main() {
  size_t l0 = bsx_live();
  if(bsx_choice(2, "what") == 0) {
    int n = bsx_choice(NE, "n") + 1; D d((IX)n); M m; m.n = n; for(int i = 0; i < n; ++i) m.c[i] = i; same(d, m);
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(op + 1 < OPS ? 3 : 7, "op")) {
      case 0: { IX a = bsx_choice(m.n + 1, "a"), b = bsx_choice(m.n + 1, "b"); bool va = d.IsSetName(a), vb = d.IsSetName(b); bool r = d.Union(a, b); CHECKM(r == (va && vb), "union reports whether both were set names"); if(r) m.uni(a, b); COVER(1); break; }
      case 1: { IX a = bsx_choice(m.n, "a"), b = bsx_choice(m.n, "b"); CHECK(d.Union(d.Find(a), d.Find(b))); m.uni(a, b); COVER(2); break; }
      case 2: d.Find(bsx_choice(m.n, "a")); COVER(3); break;
      case 3: d.AddSets(2); for(int i = 0; i < 2; ++i) { m.c[m.n] = 100 + i; ++m.n; } COVER(4); break;
      case 4: { D c(d); c.Union(c.Find(0), c.Find(m.n - 1)); same(d, m); c = d; same(c, m); D& r = c; c = r; same(c, m); D e(std::move(c)); same(e, m); CHECK(c.NumSets() == 0 && c.Length() == 0); D f((IX)3); f = std::move(e); same(f, m); CHECK(e.NumSets() == 0); COVER(5); break; }
      case 5: d.Reset(); for(int i = 0; i < m.n; ++i) m.c[i] = i; break;
      case 6: { int x = bsx_choice(m.n, "x"); auto p = d.GetElements(x); int j = 0; for(int k = 0; k < m.n; ++k) if(m.c[k] == m.c[x]) CHECK((int)p[j++] == k); break; }
    }
    same(d, m);
  } else {
    // Kruskal: an edge is kept exactly when it joins two components of the kept edges before it
    int n = bsx_choice(NE, "n") + 1, ne = bsx_choice(EDGES + 1, "edges"); std::pair<IX, IX> e[EDGES + 1]; for(int i = 0; i < ne; ++i) e[i] = { (IX)bsx_choice(n, "a"), (IX)bsx_choice(n, "b") };
    auto r = D::MinSpanningTree((IX)n, e, e + ne); M m; m.n = n; for(int i = 0; i < n; ++i) m.c[i] = i; int k = 0;
    for(int i = 0; i < ne; ++i) if(m.c[e[i].first] != m.c[e[i].second]) { CHECK(k < (int)r.Capacity()); CHECKM(r[k] == e[i], "the spanning forest keeps the first edge that joins two components"); ++k; m.uni(e[i].first, e[i].second); }
    CHECK(k == (int)r.Capacity()); COVER(6);
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
