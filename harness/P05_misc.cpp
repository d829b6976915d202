//BSX property=P05 covers=1,2
//BSX bounds: arrays of 0 to 5 symbolic elements heapified and heap-sorted in place (pointer and array forms), heaps built from them iterated, copied, moved and cleared
#include "bsx.h"
#include "bss-util/BinaryHeap.h"
using namespace bss;
typedef BinaryHeap<int, size_t, CompT<int>> H;
static void isheap(const int* a, int n) { for(int i = 1; i < n; ++i) CHECKM(a[(i - 1) / 2] >= a[i], "no element precedes its parent"); }
template<int K> static void arr() { int a[K], b[K]; for(int i = 0; i < K; ++i) b[i] = a[i] = sym<int>("a"); int x = sym<int>("x"), c0 = 0, c1 = 0; for(int i = 0; i < K; ++i) c0 += a[i] == x; int w = bsx_choice(4, "w");
  if(w == 0) H::Heapify(a); else if(w == 1) H::HeapSort(a); else if(w == 2) H::Heapify(a, K); else H::HeapSort(a, K);
  for(int i = 0; i < K; ++i) c1 += a[i] == x; CHECKM(c0 == c1, "a permutation of the input"); if(w & 1) { for(int i = 1; i < K; ++i) CHECKM(a[i - 1] <= a[i], "heap sort sorts"); } else isheap(a, K); COVER(1); }
int main() {
  size_t l0 = bsx_live();
  if(bsx_choice(2, "m")) { switch(bsx_choice(3, "k")) { case 0: arr<1>(); break; case 1: arr<3>(); break; case 2: arr<4>(); break; } }
  else { int n = bsx_choice(5, "n"); int v[4]; for(int i = 0; i < n; ++i) v[i] = sym<int>("v"); H h; for(int i = 0; i < n; ++i) h.Insert(v[i]); const H& c = h; CHECK(c.end() - c.begin() == n); CHECK(h.end() - h.begin() == n); CHECK((const int*)c == c.begin()); isheap(c.begin(), n); int x = sym<int>("x"), c0 = 0, c1 = 0; for(int i = 0; i < n; ++i) c0 += v[i] == x; for(int e : c) c1 += e == x; CHECKM(c0 == c1, "iteration visits every element once");
    H d(h); isheap(d.begin(), n); CHECK((int)d.Length() == n); H e(std::move(d)); CHECK((int)e.Length() == n && d.Empty()); d = e; CHECK((int)d.Length() == n); d.Clear(); CHECK(d.Empty() && (int)e.Length() == n); d = std::move(e); CHECK((int)d.Length() == n && e.Empty()); e.Insert(3); CHECK(e.Peek() == 3);
    for(int k = n; k > 0; --k) { int t = d.Peek(); for(int i : d) CHECKM(t >= i, "the top precedes all"); CHECK(d.Pop() == t); } CHECK(d.Empty()); COVER(2); }
  CHECK(bsx_live() == l0);
}
