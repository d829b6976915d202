//BSX property=P09 covers=1,2,3 def.quick=NEDGE=3 def.thorough=NEDGE=4
//BSX bounds: circulations with lower bounds on 3 vertices and NEDGE edges (a cycle and a chord), lower bounds 0 or 1, capacities up to 2, demands -1, 0 and 1, including unbalanced ones; feasibility compared with all integral flows
#include "bsx.h"
#include "bss-util/Graph.h"
using namespace bss;
typedef internal::__edge_LowerBound<void> LB; typedef internal::__edge_MaxFlow<LB> ED; typedef internal::__vertex_Demand<void> VD; typedef Graph<ED, VD, uint16_t, StandardAllocator<Edge<ED, uint16_t>>> G;
static const int ed[][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 0, 2 } };
int main() {
  size_t l0 = bsx_live();
  { G g; int d[3], lo[4], cap[4], sum = 0, want = 0; Edge<ED, uint16_t>* e[4]; for(int i = 0; i < 3; ++i) { d[i] = (int)bsx_choice(3, "demand") - 1; sum += d[i]; VD v = {}; v.demand = d[i]; g.AddNode(&v); }
    for(int i = 0; i < NEDGE; ++i) { lo[i] = bsx_choice(2, "lower"); cap[i] = lo[i] + bsx_choice(3 - lo[i], "cap"); ED x = {}; x.flow = 0; x.capacity = cap[i]; x.d.data.lowerbound = lo[i]; e[i] = g.AddEdge(ed[i][0], ed[i][1], &x); }
    LowerBound_Circulation(g); int nd[3]; for(int i = 0; i < 3; ++i) nd[i] = d[i]; for(int i = 0; i < NEDGE; ++i) { nd[ed[i][0]] += lo[i]; nd[ed[i][1]] -= lo[i]; CHECKM(e[i]->data.capacity == cap[i] - lo[i] && e[i]->data.d.data.lowerbound == 0, "the lower bound is taken off the capacity"); } for(int i = 0; i < 3; ++i) { CHECKM(g[i].data.demand == nd[i], "the demands account for the lower bounds"); if(nd[i] > 0) want += nd[i]; } COVER(1);
    uint16_t s = 0, t = 0; int r = Circulation_MaxFlow(g, s, t); CHECKM(r == sum, "returns the demand left over"); CHECK(g.NumNodes() == 5 && s > 2 && t > 2 && s != t);
    bool feas = false; int f[4] = { 0, 0, 0, 0 }; for(int m = 0; m < 81; ++m) { int q = m, net[3] = {}; bool ok = true; for(int i = 0; i < NEDGE; ++i) { int v = q % 3; q /= 3; ok &= v >= lo[i] && v <= cap[i]; net[ed[i][0]] -= v; net[ed[i][1]] += v; } feas |= ok && net[0] == d[0] && net[1] == d[1] && net[2] == d[2]; }
    if(sum) { CHECK(!feas); return 0; }
    MaxFlow_PushRelabel(g, s, t); int val = 0; for(auto* x = g[s].to; x; x = x->next) val += x->data.flow; for(auto* x = g[s].from; x; x = x->alt.next) val -= x->data.flow;
    CHECKM((val == want) == feas, "a circulation exists exactly if the flow meets every demand"); COVER(2);
    if(feas) { int net[3] = {}; for(int i = 0; i < NEDGE; ++i) { int v = e[i]->data.flow + lo[i]; CHECKM(v >= lo[i] && v <= cap[i], "the flow found stays within the bounds"); net[ed[i][0]] -= v; net[ed[i][1]] += v; } for(int i = 0; i < 3; ++i) CHECKM(net[i] == d[i], "the flow found meets every demand"); COVER(3); } }
  CHECK(bsx_live() == l0);
}
