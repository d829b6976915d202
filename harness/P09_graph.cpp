//BSX property=P09 covers=1,2,3,4,5,6,7 variants=0,1 def.quick=NN=3,PRE=2,OPS=2 def.thorough=NN=3,PRE=4,OPS=3
//BSX bounds: directed multigraphs of NN vertices and PRE arbitrary edges (self-loops and parallel edges included), then OPS symbolic operations (add/remove vertex or edge, move), then matrix export and breadth-first search from every vertex
#include "bsx.h"
#include "bss-util/Graph.h"
using namespace bss;
#if VARIANT == 0
typedef Graph<int, int, uint16_t, StandardAllocator<Edge<int, uint16_t>>> G;
#else
typedef Graph<int, int, uint16_t> G;
#endif
typedef Edge<int, uint16_t> ED;
struct M { int nn = 0, ne = 0; int id[12], val[12]; struct { int f, t, d; ED* p; } e[16]; void rmEdge(int i) { for(; i + 1 < ne; ++i) e[i] = e[i + 1]; --ne; } int pos(int x) { for(int i = 0; i < nn; ++i) if(id[i] == x) return i; return -1; } };
static int nv;
static void addNode(G& g, M& m) { int v = sym<int>("v"); int r = g.AddNode(&v); CHECKM(m.pos(r) < 0, "a new vertex gets an unused id"); m.id[m.nn] = r; m.val[m.nn++] = v; }
static void addEdge(G& g, M& m) { int a = bsx_choice(m.nn, "from"), b = bsx_choice(m.nn, "to"); int d = sym<int>("d"); ED* p = g.AddEdge(m.id[a], m.id[b], &d); m.e[m.ne++] = { m.id[a], m.id[b], d, p }; }
static void same(G& g, M& m) {
  CHECK(g.NumNodes() == m.nn); CHECK(g.NumEdges() == m.ne);
  int c = 0; for(int i = g.Front(); i != 0xffff; ) { CHECK(m.pos(i) >= 0); ++c; uint16_t k = i; g.GetNodes().Next(k); i = k; } CHECK(c == m.nn);
  for(int i = 0; i < m.nn; ++i) { CHECK(g[m.id[i]].data == m.val[i]); int out = 0, in = 0; 
    for(ED* e = g[m.id[i]].to; e; e = e->next) { bool f = false; for(int k = 0; k < m.ne; ++k) if(m.e[k].p == e) { f = true; CHECK(m.e[k].f == m.id[i] && e->from == m.e[k].f && e->to == m.e[k].t && e->data == m.e[k].d); } CHECKM(f, "a vertex lists only edges that are in the graph"); CHECK(++out <= m.ne); }
    for(ED* e = g[m.id[i]].from; e; e = e->alt.next) { bool f = false; for(int k = 0; k < m.ne; ++k) if(m.e[k].p == e) { f = true; CHECK(m.e[k].t == m.id[i]); } CHECK(f); CHECK(++in <= m.ne); }
    int wo = 0, wi = 0; for(int k = 0; k < m.ne; ++k) { wo += m.e[k].f == m.id[i]; wi += m.e[k].t == m.id[i]; } CHECK(wo == out && wi == in);
  }
}
static int vis[32], nvis, stopat; static bool act(uint16_t i) { CHECKM(nvis < 16, "breadth-first search visits each vertex once"); vis[nvis++] = i; return nvis == stopat; }
static void bfs(G& g, M& m, int r) {
  int dist[12]; for(int i = 0; i < m.nn; ++i) dist[i] = i == r ? 0 : 99; for(int it = 0; it < m.nn; ++it) for(int k = 0; k < m.ne; ++k) { int a = m.pos(m.e[k].f), b = m.pos(m.e[k].t); if(dist[a] + 1 < dist[b]) dist[b] = dist[a] + 1; }
  int reach = 0; for(int i = 0; i < m.nn; ++i) reach += dist[i] < 99;
  nvis = 0; stopat = 0; BreadthFirstGraph<G, act>(g, m.id[r]); CHECKM(nvis == reach, "breadth-first search visits exactly the reachable vertices"); int last = 0;
  for(int i = 0; i < nvis; ++i) { int p = m.pos(vis[i]); CHECK(p >= 0 && dist[p] < 99); CHECKM(dist[p] >= last, "vertices are visited in order of distance"); last = dist[p]; for(int k = 0; k < i; ++k) CHECKM(vis[k] != vis[i], "no vertex is visited twice"); }
  int all = nvis; for(int s = 1; s <= all; ++s) { nvis = 0; stopat = s; BreadthFirstGraph<G, act>(g, m.id[r]); CHECKM(nvis == s, "the search stops when told to"); }
}
static bool isedge(const int* e) { return *e != 0; }
int main() {
  size_t l0 = bsx_live();
  {
#if VARIANT == 0
    G g;
#else
    BlockPolicy<ED> pol(4); G g(&pol);
#endif
    M m; for(int i = 0; i < NN; ++i) addNode(g, m); int pre = bsx_choice(PRE + 1, "pre"); for(int i = 0; i < pre; ++i) addEdge(g, m); COVER(1);
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(6, "op")) {
      case 0: addNode(g, m); COVER(2); break;
      case 1: if(m.nn && m.ne < 12) { addEdge(g, m); COVER(3); } break;
      case 2: if(m.ne) { int i = bsx_choice(m.ne, "i"); g.RemoveEdge(m.e[i].p); m.rmEdge(i); COVER(4); } break;
      case 3: if(m.nn) { int i = bsx_choice(m.nn, "i"); int id = m.id[i]; g.RemoveNode(id); for(int k = m.ne; k-- > 0;) if(m.e[k].f == id || m.e[k].t == id) m.rmEdge(k); for(int k = i; k + 1 < m.nn; ++k) { m.id[k] = m.id[k + 1]; m.val[k] = m.val[k + 1]; } --m.nn; COVER(5); } break;
      case 4: { G c(std::move(g)); same(c, m); CHECK(g.NumNodes() == 0 && g.NumEdges() == 0);
#if VARIANT == 0
        G d; uint16_t x = d.AddNode(), y = d.AddNode(); int q = 5; d.AddEdge(x, y, &q); d = std::move(c); same(d, m); g = std::move(d);
#else
        g = std::move(c);
#endif
        COVER(6); break; }
      case 5: { int len = g.ToMatrix(0, 0); CHECK(len == m.nn); int mat[36] = {}, vert[6] = {}, want[36] = {}; g.ToMatrix(mat, vert);
        int ord[12], c = 0; for(uint16_t i = g.Front(); i != 0xffff; g.GetNodes().Next(i)) { int p = m.pos(i); ord[p] = c; CHECKM(vert[c] == m.val[p], "the exported vertex list matches the matrix order"); ++c; }
        for(int a = 0; a < m.nn; ++a) for(int b = 0; b < m.nn; ++b) { bool any = false, hit = false; for(int k = 0; k < m.ne; ++k) if(m.e[k].f == m.id[a] && m.e[k].t == m.id[b]) { any = true; hit |= mat[ord[a] * len + ord[b]] == m.e[k].d; } CHECKM(any ? hit : mat[ord[a] * len + ord[b]] == 0, "the exported matrix has exactly the edges"); }
        COVER(7); break; }
    }
    same(g, m); for(int r = 0; r < m.nn; ++r) bfs(g, m, r);
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
