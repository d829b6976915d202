//BSX property=P09 covers=1,2 variants=0,1,2 def.quick=CAPMAX=3,EXTRA=0 def.thorough=CAPMAX=5,EXTRA=1
//BSX bounds: flow networks of 2 to 4 vertices with parallel and antiparallel edges (and edges out of the sink and into the source), every capacity symbolic in [0,CAPMAX]; the flow value is compared with the minimum cut over all cuts
#include "bsx.h"
#include "bss-util/Graph.h"
using namespace bss;
typedef internal::__edge_MaxFlow<void> ED; typedef Graph<ED, void, uint16_t> G;
#if VARIANT == 0
static const int NV = 4, NEDGE = 6 + EXTRA; static const int ed[][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 3 }, { 2, 3 }, { 2, 1 }, { 0, 3 } };
#elif VARIANT == 1
static const int NV = 4, NEDGE = 6 + EXTRA; static const int ed[][2] = { { 0, 1 }, { 0, 1 }, { 1, 3 }, { 3, 2 }, { 1, 2 }, { 1, 0 }, { 2, 3 } };
#else
static const int NV = 3, NEDGE = 5 + EXTRA; static const int ed[][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 1, 2 }, { 2, 1 }, { 0, 1 } };
#endif
int main() {
  size_t l0 = bsx_live();
  { BlockPolicy<Edge<ED, uint16_t>> pol(8); G g(&pol); for(int i = 0; i < NV; ++i) g.AddNode(); Edge<ED, uint16_t>* e[8]; int cap[8]; const int s = 0, t = NV - 1;
    for(int i = 0; i < NEDGE; ++i) { cap[i] = symRange<int>("cap", 0, CAPMAX); ED d; d.flow = 0; d.capacity = cap[i]; e[i] = g.AddEdge(ed[i][0], ed[i][1], &d); }
    MaxFlow_PushRelabel(g, (uint16_t)s, (uint16_t)t); COVER(1);
    int net[NV] = {}; bool ok = true; for(int i = 0; i < NEDGE; ++i) { int f = e[i]->data.flow; ok &= (f >= 0) & (f <= cap[i]) & (e[i]->data.capacity == cap[i]); net[ed[i][0]] -= f; net[ed[i][1]] += f; }
    CHECKM(ok, "every flow is between zero and its capacity");
    for(int i = 0; i < NV; ++i) if(i != s && i != t) CHECKM(net[i] == 0, "flow is conserved");
    CHECKM(net[s] == -net[t], "flow is conserved");
    bool le = true, eq = false; for(int m = 0; m < (1 << (NV - 2)); ++m) { int cut = 0; for(int i = 0; i < NEDGE; ++i) { auto side = [&](int v) { return v == s ? 1 : v == t ? 0 : (m >> (v - 1)) & 1; }; if(side(ed[i][0]) && !side(ed[i][1])) cut += cap[i]; } le &= net[t] <= cut; eq |= net[t] == cut; }
    CHECKM(le & eq, "the flow value equals the minimum cut"); COVER(2);
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
