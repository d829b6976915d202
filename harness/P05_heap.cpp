//BSX property=P05 covers=1,2,3,4,5,6,7 variants=0,1,2 def.quick=NI=5,OPS=2,BIG=6,SORT=5 def.thorough=NI=5,OPS=3,BIG=8,SORT=7
//BSX bounds: heaps of up to NI symbolic keys (all order types, ties included) followed by OPS symbolic operations, up to BIG keys followed by one; concrete heaps of 13 with one symbolic set; arrays of up to SORT symbolic keys heapified and sorted; max and min heaps, plain and owning elements
#include "bsx.h"
#include "model.h"
#include "bss-util/BinaryHeap.h"
using namespace bss;
struct Own2 { Own v; int t; Own2() : v(0), t(-1) {} Own2(int k, int tag) : v(k), t(tag) {} int key() const { return v.get(); } bool operator<(const Own2& r) const { return key() < r.key(); } bool operator>(const Own2& r) const { return key() > r.key(); } };
struct Plain { int k; int t; Plain() {} Plain(int kk, int tag) : k(kk), t(tag) {} int key() const { return k; } bool operator<(const Plain& r) const { return k < r.k; } bool operator>(const Plain& r) const { return k > r.k; } };
#if VARIANT == 0
typedef Plain E; typedef BinaryHeap<E> H; static const bool minh = false;
#elif VARIANT == 1
typedef Own2 E; typedef BinaryHeap<E, uint32_t, CompT<E>, ARRAY_SAFE> H; static const bool minh = false;
#else
typedef Plain E; typedef BinaryHeap<E, uint8_t, CompTInv<E>> H; static const bool minh = true;
#endif
static bool ge(int a, int b) { return minh ? a <= b : a >= b; }
struct R { int k; int t; }; typedef Seq<R, 24> S;
static int byTag(S& s, int t) { for(int i = 0; i < s.n; ++i) if(s[i].t == t) return i; return -1; }
static void same(H& h, S& s) {
  CHECK((int)h.Length() == s.n); CHECK(h.Empty() == (s.n == 0)); CHECK(h.end() - h.begin() == s.n);
  bool seen[64] = {};
  for(int i = 0; i < s.n; ++i) { const E& e = h.Get(i); int j = byTag(s, e.t); CHECK(j >= 0); CHECK(!seen[e.t]); seen[e.t] = true; CHECK(s[j].k == e.key()); if(i) CHECKM(ge(h.Get((i - 1) / 2).key(), e.key()), "a parent is ordered before its children"); CHECK(ge(h.Peek().key(), e.key())); }
}
int main() {
  size_t l0 = bsx_live();
  {
    H h; S s; int tag = 0; unsigned mode = bsx_choice(4, "mode");
    if(mode == 3) {
      E a[SORT]; int k[SORT]; int n = bsx_choice(SORT, "n") + 1; for(int i = 0; i < n; ++i) { k[i] = sym<int>("k"); a[i] = E(k[i], i); }
      if(bsx_choice(2, "what")) { H::HeapSort(a, n); for(int i = 1; i < n; ++i) CHECKM(ge(a[i].key(), a[i - 1].key()), "sorted"); COVER(6); }
      else { H g(a, n); for(int i = 0; i < n; ++i) s.add(R{ k[i], i }); same(g, s); H::Heapify(a, n); for(int i = 1; i < n; ++i) CHECK(ge(a[(i - 1) / 2].key(), a[i].key())); COVER(7); }
      bool seen[SORT] = {}; for(int i = 0; i < n; ++i) { int t = a[i].t; CHECK(t >= 0 && t < n); CHECK(!seen[t]); seen[t] = true; CHECK(a[i].key() == k[t]); }
    } else {
      int n = mode == 0 ? NI : mode == 1 ? BIG : 13, ops = mode == 0 ? OPS : 1; if(mode == 0) n = bsx_choice(n + 1, "n");
      for(int i = 0; i < n; ++i) { int k = mode == 2 ? (i * 5 % 13) * 10 : sym<int>("k"); s.add(R{ k, tag }); h.Insert(E(k, tag++)); }
      same(h, s);
      for(int op = 0; op < ops; ++op) { switch(bsx_choice(mode == 1 ? 2 : mode == 0 && op == 0 ? 7 : 4, "op")) {
        case 0: { int i = bsx_choice(s.n + 1, "i"); if(i == s.n) { CHECK(!h.Remove(i)); break; } int t = h.Get(i).t; CHECK(h.Remove(i)); s.remove(byTag(s, t)); COVER(1); break; }
        case 1: { if(!s.n) break; int t = h.Peek().t, k = h.Peek().key(); E e = h.Pop(); CHECK(e.t == t); CHECK(e.key() == k); s.remove(byTag(s, t)); COVER(2); break; }
        case 2: { int i = bsx_choice(s.n + 1, "i"), k = sym<int>("k"); if(i == s.n) { CHECK(!h.Set(i, E(k, tag))); break; } int t = h.Get(i).t; E e(k, t); CHECK(bsx_choice(2, "mv") ? h.Set(i, e) : h.Set(i, std::move(e))); s[byTag(s, t)].k = k; COVER(3); break; }
        case 3: { int k = sym<int>("k"); E e(k, tag); s.add(R{ k, tag++ }); h.Insert(e); COVER(4); break; }
        case 4: h.Clear(); s.n = 0; break;
        case 5: { H c(h); same(c, s); c.Insert(E(3, 50)); same(h, s); H d; d = h; same(d, s); H m(std::move(d)); same(m, s); CHECK(d.Length() == 0); h = std::move(m); CHECK(m.Length() == 0); COVER(5); break; }
        case 6: { int last = 0; for(int i = 0; s.n; ++i) { E e = h.Pop(); int j = byTag(s, e.t); CHECK(j >= 0); CHECK(s[j].k == e.key()); s.remove(j); if(i) CHECKM(ge(last, e.key()), "items come out in priority order"); last = e.key(); } break; }
      } same(h, s); }
    }
  }
  CHECKM(bsx_live() == l0, "all storage released, every element destroyed");
}
