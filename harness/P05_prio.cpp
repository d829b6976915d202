//BSX property=P05 covers=1,2,3,4,5,6 variants=0,1,2 def.quick=NI=4,OPS=2 def.thorough=NI=5,OPS=3
//BSX bounds: up to NI symbolic priorities followed by OPS symbolic operations, then drained; PriorityQueue (max/min, owning data) and PriorityHeap (stable keys, growth of its key table)
#include "bsx.h"
#include "model.h"
#include "bss-util/PriorityQueue.h"
using namespace bss;
struct R { int k; int t; int key; }; typedef Seq<R, 24> S;
#if VARIANT == 0
typedef PriorityQueue<int, int> H; static const bool minh = false; typedef int DT;
#elif VARIANT == 1
typedef PriorityQueue<int, Own, CompTInv<int>, uint32_t, ARRAY_SAFE> H; static const bool minh = true; typedef Own DT;
#else
struct E { int k; int t; bool operator<(const E& r) const { return k < r.k; } bool operator>(const E& r) const { return k > r.k; } };
typedef PriorityHeap<E, uint32_t> H; static const bool minh = false;
#endif
static bool ge(int a, int b) { return minh ? a <= b : a >= b; }
static int byTag(S& s, int t) { for(int i = 0; i < s.n; ++i) if(s[i].t == t) return i; return -1; }
static int tag = 0;
static void push(H& h, S& s, int k) {
#if VARIANT == 2
  int key = h.Push(E{ k, tag }); for(int i = 0; i < s.n; ++i) CHECKM(s[i].key != key, "keys of live items are distinct"); s.add(R{ k, tag++, key });
#else
  if(bsx_choice(2, "mv")) h.Push(k, DT(tag)); else h.Push(std::move(k), DT(tag)); s.add(R{ k, tag++, 0 });
#endif
}
static int top(H& h, S& s) { // tag of the item in front; its priority must be extreme
#if VARIANT == 2
  const E& e = h.Peek(); int t = e.t, k = e.k;
#else
  auto& e = h.Peek(); int t = getv(e.second), k = e.first;
#endif
  int j = byTag(s, t); CHECK(j >= 0); CHECK(s[j].k == k); for(int i = 0; i < s.n; ++i) CHECKM(ge(k, s[i].k), "the item in front has the highest priority"); return t;
}
static void same(H& h, S& s) {
  CHECK((int)h.Length() == s.n); CHECK(h.Empty() == (s.n == 0)); if(s.n) top(h, s);
#if VARIANT == 2
  for(int i = 0; i < s.n; ++i) { const E& e = h.Get(s[i].key); CHECKM(e.t == s[i].t, "a key keeps naming its own item"); CHECK(e.k == s[i].k); }
#else
  bool seen[64] = {}; for(int i = 0; i < s.n; ++i) { auto& e = h.Get(i); int t = getv(e.second), j = byTag(s, t); CHECK(j >= 0); CHECK(!seen[t]); seen[t] = true; CHECK(s[j].k == e.first); }
#endif
}
static void pop(H& h, S& s) {
  int t = top(h, s);
  if(bsx_choice(2, "discard")) h.Discard(); else {
#if VARIANT == 2
    E e = h.Pop(); CHECK(e.t == t);
#else
    auto e = h.Pop(); CHECK(getv(e.second) == t);
#endif
  }
  s.remove(byTag(s, t));
}
int main() {
  size_t l0 = bsx_live();
  {
    H h; S s; tag = 0; int n = bsx_choice(NI + 1, "n");
    for(int i = 0; i < n; ++i) push(h, s, sym<int>("k"));
    same(h, s);
    for(int op = 0; op < OPS; ++op) { switch(bsx_choice(op ? 4 : 6, "op")) {
      case 0: push(h, s, sym<int>("k")); COVER(1); break;
      case 1: if(s.n) { pop(h, s); COVER(2); } break;
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i");
#if VARIANT == 2
        CHECK(h.Remove(s[i].key)); s.remove(i);
#else
        int t = getv(h.Get(i).second); CHECK(h.Remove(i)); CHECK(!h.Remove(s.n + 3)); s.remove(byTag(s, t));
#endif
        COVER(3); break; }
      case 3:
#if VARIANT == 2
        { if(!s.n) break; int i = bsx_choice(s.n, "i"); s[i].k = sym<int>("k"); E e{ s[i].k, s[i].t }; CHECK(bsx_choice(2, "mv") ? h.Set(s[i].key, e) : h.Set(s[i].key, std::move(e))); COVER(4); break; }
#else
        h.Clear(); s.n = 0; COVER(4); break;
#endif
      case 4: { H c(h); same(c, s); S z; S sc = s; push(c, sc, 5); same(c, sc); same(h, s); H d; d = h; same(d, s); H m(std::move(d)); same(m, s); same(d, z); push(d, z, 7); same(d, z); h = std::move(m); z.n = 0; same(m, z); push(m, z, 7); same(m, z); same(h, s); COVER(5); break; }
      case 5: { int last = 0; for(int i = 0; s.n; ++i) { int t = top(h, s), k = s[byTag(s, t)].k; if(i) CHECK(ge(last, k)); last = k; h.Discard(); s.remove(byTag(s, t)); } COVER(6); break; }
    } same(h, s); }
  }
  CHECKM(bsx_live() == l0, "all storage released, every element destroyed");
}
