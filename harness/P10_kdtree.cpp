//BSX property=P10 covers=1,2,3,4 variants=0,1,2,3 def.quick=PRE=3,OPS=2,POOL=4,DEEP=0 def.thorough=PRE=4,OPS=2,POOL=9,DEEP=1
//BSX bounds: up to PRE+OPS rectangles, each any of POOL (nested, touching, far apart, degenerate), inserted, bulk-loaded and removed in every order with rebalancing thresholds 0 and 20; then every query through a corner or edge of any rectangle, a covering query and a symbolic float query point; variant 3: any four of six points inserted without or with rebalancing, one removed, one more inserted, then a rebalance of the whole tree
#include "bsx.h"
#include "bss-util/KDTree.h"
using namespace bss;
struct Item { float r[4]; LLBase<Item> l; KDNode<Item>* node; int seen; bool in; };
static const float* rect(Item* i) { return i->r; } static LLBase<Item>& list(Item* i) { return i->l; } static KDNode<Item>*& nodeof(Item* i) { return i->node; }
#if VARIANT == 1
typedef KDTree<Item, rect, list, nodeof, PolymorphicAllocator<KDNode<Item>, BlockPolicy>> KT;
#else
typedef KDTree<Item, rect, list, nodeof, StandardAllocator<KDNode<Item>>> KT;
#endif
static const float pool[][4] = { { 2, 3, 6, 3 }, { 0, 0, 1, 1 }, { 4, 4, 5, 5 }, { 0, 4, 1, 5 }, { -3, -3, 9, 9 }, { 2, 0, 2, 0 }, { 5, 1, 7, 4 }, { 100, -50, 101, -49 }, { 1, 1, 4, 4 }, { -8, 2, -7, 3 } };
static const float deep[][4] = { { 10, 5, 10, 5 }, { 0, 5, 0, 5 }, { 4, 1, 4, 1 }, { 3, 1, 3, 1 }, { 6, 9, 6, 9 }, { 5, 0, 9, 2 } };
static Item it[16]; static int n;
static void act(Item* i) { ++i->seen; }
static void query(const KT& t, float a, float b, float c, float d, bool conc) {
  float q[4] = { a, b, c, d }; for(int i = 0; i < n; ++i) it[i].seen = 0;
  t.Traverse<act>(q);
  for(int i = 0; i < n; ++i) { const float* r = it[i].r; bool ov = it[i].in && r[0] <= c && r[1] <= d && r[2] >= a && r[3] >= b; CHECKM(it[i].seen == (ov ? 1 : 0), "a query reports every overlapping item exactly once and no other"); }
  if(conc) { for(int i = 0; i < n; ++i) it[i].seen = 0; t.TraverseAction(q, [](Item* i) { ++i->seen; }); for(int i = 0; i < n; ++i) { const float* r = it[i].r; bool ov = it[i].in && r[0] <= c && r[1] <= d && r[2] >= a && r[3] >= b; CHECK(it[i].seen == (ov ? 1 : 0)); } }
}
static void all(const KT& t) { query(t, -1000, -1000, 1000, 1000, true); for(int k = 0; k < n; ++k) { const float* r = it[k].r; query(t, r[0], r[1], r[0], r[1], false); query(t, r[2], r[3], r[2], r[3], false); query(t, r[0], r[3], r[0], r[3], false); query(t, r[2], r[1], r[2], r[1], true); } }
static Item* fresh() { Item* i = it + n++; const float* p = VARIANT == 3 ? deep[bsx_choice(6, "rect")] : pool[bsx_choice(POOL, "rect")]; for(int k = 0; k < 4; ++k) i->r[k] = p[k]; i->in = true; i->node = 0; return i; }
static void rem(KT& t) { int i = bsx_choice(n, "i"); if(it[i].in) { t.Remove(it + i); it[i].in = false; COVER(2); } }
int main() {
  size_t l0 = bsx_live();
  {
    uint32_t rb = bsx_choice(2, "rb") * (VARIANT == 3 ? 1000 : 20);
    if(VARIANT == 3 && !rb) rb = 10;
#if VARIANT == 1
    BlockPolicy<KDNode<Item>> pol(4); KT t(rb, &pol);
#else
    KT t(rb);
#endif
    CHECK(t.GetRBThreshold() == rb);
#if VARIANT == 3
    for(int i = 0; i < 4; ++i) t.Insert(fresh());
    COVER(1); rem(t); if(DEEP) { t.Insert(fresh()); } COVER(3);
    if(bsx_choice(2, "reb")) t.Rebalance(t.GetRoot()); COVER(4);
#else
    for(int i = 0; i < PRE; ++i) {
#if VARIANT == 2
      t.InsertRoot(fresh());
#else
      t.Insert(fresh()); 
#endif
    } COVER(1);
#if VARIANT == 2
    if(bsx_choice(2, "solve")) t.Solve();
#endif
    for(int op = 0; op < OPS; ++op) switch(bsx_choice(op + 1 < OPS ? 2 : VARIANT == 2 ? 6 : 5, "op")) {
      case 0: t.Insert(fresh()); COVER(3); break;
      case 1: rem(t); break;
      case 2: if(t.GetRoot() && t.GetRoot()->num) t.Rebalance(t.GetRoot()); COVER(4); break;
      case 3: { KT m(std::move(t)); all(m); CHECK(t.GetRoot() == 0); t = std::move(m); COVER(5); break; }
      case 4: if(bsx_choice(2, "clear")) { t.Clear(); for(int i = 0; i < n; ++i) it[i].in = false; t.Insert(fresh()); } else { float x = sym<float>("x"), y = sym<float>("y"); query(t, x, y, x, y, false); } COVER(6); break;
      case 5: t.Solve(); break;
    }
#endif
    all(t);
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
