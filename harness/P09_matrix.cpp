//BSX property=P09 covers=1,2 variants=0,1 def.quick=NN=3 def.thorough=NN=4
//BSX bounds: graphs built from every adjacency matrix of up to NN vertices, edge and vertex values symbolic, then one vertex removed, exported again and walked in order
#include "bsx.h"
#include "bss-util/Graph.h"
using namespace bss;
#if VARIANT == 0
typedef Graph<int, int, uint16_t, StandardAllocator<Edge<int, uint16_t>>> G; static bool isEdge(const int* e) { return *e != 0; }
#else
typedef Graph<void, int, uint16_t, StandardAllocator<Edge<void, uint16_t>>> G;
#endif
int main() {
  size_t l0 = bsx_live(); {
  int n = bsx_choice(NN + 1, "n"); int v[NN]; for(int i = 0; i < n; ++i) v[i] = sym<int>("v");
#if VARIANT == 0
  int m[NN * NN]; int ne = 0; for(int i = 0; i < n * n; ++i) { m[i] = 0; if(bsx_choice(2, "e")) { int d = sym<int>("d"); ASSUME(d != 0); m[i] = d; ++ne; } }
  G g; int base = bsx_choice(2, "before"); if(base) { int x = 77; g.AddNode(&x); } g.FromMatrix<isEdge>(n, m, v);
  int out[(NN + 1) * (NN + 1)] = {}, vo[NN + 1] = {};
#else
  char m[NN * NN]; int ne = 0; for(int i = 0; i < n * n; ++i) { m[i] = 0; if(bsx_choice(2, "e")) { m[i] = bsx_choice(2, "neg") ? -1 : 2; ++ne; } } int base = 0;
  G g(n, m, v); char out[(NN + 1) * (NN + 1)] = {}; int vo[NN + 1] = {};
#endif
  int t = n + base; CHECKM(g.NumNodes() == t, "one vertex per row"); CHECKM(g.NumEdges() == ne, "one edge per entry"); int k = g.ToMatrix(out, vo); CHECK(k == t); if(base) CHECK(vo[0] == 77);
  for(int i = 0; i < n; ++i) { CHECKM(vo[i + base] == v[i], "vertices keep their values"); for(int j = 0; j < n; ++j)
#if VARIANT == 0
    CHECKM(out[(i + base) * t + j + base] == m[i * n + j], "export returns the matrix the graph was made from");
#else
    CHECKM((out[i * t + j] != 0) == (m[i * n + j] != 0), "export returns the matrix the graph was made from");
#endif
  } COVER(1);
  const G& cg = g; int c = 0; for(auto i = cg.begin(); i != cg.end(); ++i) { CHECK((*i).data == (c < base ? 77 : v[c - base])); ++c; } CHECKM(c == t, "iteration visits every vertex in order"); c = 0; for(auto i = g.begin(); i != g.end(); ++i) ++c; CHECK(c == t);
  if(n) { CHECK(g.Back() == t - 1); int r = bsx_choice(n, "r"); g.RemoveNode(r + base); int left = 0; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) left += i != r && j != r && m[i * n + j]; CHECK(g.NumNodes() == t - 1); CHECKM(g.NumEdges() == left, "a removed vertex takes exactly its edges along"); for(int i = 0; i < n; ++i) if(i != r) CHECK(cg[i + base].data == v[i]); }
  { G a(n, v), b(n); CHECK(a.NumNodes() == n && b.NumNodes() == n && a.NumEdges() == 0 && b.NumEdges() == 0); for(int i = 0; i < n; ++i) { CHECK(a[i].data == v[i] && !a[i].to && !a[i].from); CHECK(!b[i].to && !b[i].from); } }
  COVER(2); }
  CHECK(bsx_live() == l0);
}
