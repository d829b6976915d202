//BSX property=P07 covers=1,2,3,4,5,6 variants=0,1,2,3,4,5 def.quick=OPS=4,PRE=6 def.thorough=OPS=5,PRE=8
//BSX bounds: queue / stack / random queue prefilled with 0..PRE items, then OPS symbolic operations with symbolic values (growth included); for the random queue the generator's output is symbolic; plain and owning elements
#include "bsx.h"
#include "model.h"
#include "bss-util/Queue.h"
#include "bss-util/Stack.h"
#include "bss-util/RandomQueue.h"
using namespace bss;
#if VARIANT % 2 == 0
typedef int E;
#else
typedef Own E;
#endif
#if VARIANT == 0
typedef Queue<int> A;
#elif VARIANT == 1
typedef Queue<Own, int, ARRAY_SAFE> A;
#elif VARIANT == 2
typedef Stack<int> A;
#elif VARIANT == 3
typedef Stack<Own, uint32_t, ARRAY_SAFE> A;
#elif VARIANT == 4
typedef RandomQueue<int> A;
#else
typedef RandomQueue<Own, uint32_t, ARRAY_SAFE> A;
#endif
struct Eng { typedef uint64_t result_type; int step = 0; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { static const uint64_t v[] = { 0, ~0ull, 0x8000000000000000ull, 0x5555555555555555ull, 0xfffffffffffff7ffull }; return v[bsx_choice(5, "rand")]; } };
typedef Seq<int, 40> S; // s[0] first in
static void same(A& a, S& s) {
  CHECK((int)a.Length() == s.n);
#if VARIANT < 2
  CHECK(a.Empty() == (s.n == 0)); CHECK(a.Capacity() >= a.Length()); if(s.n) { CHECK(getv(a.Peek()) == s[0]); CHECK(getv(((const A&)a).Peek()) == s[0]); }
#elif VARIANT < 4
  if(s.n) { CHECK(getv(a.Peek()) == s[s.n - 1]); CHECK(getv(((const A&)a).Peek()) == s[s.n - 1]); } for(int i = 0; i < s.n; ++i) { CHECK(getv(a[i]) == s[i]); CHECK(getv(((const A&)a)[i]) == s[i]); } CHECK(a.Capacity() >= a.Length());
#else
  CHECK(a.Empty() == (s.n == 0)); CHECK(a.end() - a.begin() == s.n);
  bool used[40] = {}; for(int i = 0; i < s.n; ++i) { int v = getv(((E*)a)[i]), f = 0; for(int j = 0; j < s.n; ++j) if(!used[j] && s[j] == v) { used[j] = true; f = 1; break; } CHECKM(f, "random queue holds an item that was not put in or loses one"); }
#endif
}
static int nv = 0;
static void push(A& a, S& s) {
#if VARIANT < 4
  int v = sym<int>("v");
#else
  int v = nv++;
#endif
  E e(v); if(bsx_choice(2, "mv")) a.Push(e); else a.Push(std::move(e)); s.add(v);
}
static void drop(S& s, int v) { for(int j = 0; j < s.n; ++j) if(s[j] == v) { s.remove(j); return; } CHECKM(0, "random queue returned an item that was not in it"); }
int main() {
  size_t l0 = bsx_live();
  {
    S s; nv = 500; A a(bsx_choice(2, "init") ? 3 : 0); int pre = bsx_choice(PRE + 1, "pre"), dr = bsx_choice(3, "drop"); for(int i = 0; i < pre; ++i) { a.Push(E(i)); s.add(i); }
#if VARIANT < 2
    for(int i = 0; i < dr && s.n; ++i) { a.Discard(); s.remove(0); }
#endif
    const int ops = VARIANT < 4 ? OPS : OPS - 1;
    for(int op = 0; op < ops; ++op) { switch(bsx_choice(op + 1 < ops ? 3 : 6, "op")) {
      case 0: push(a, s); COVER(1); break;
#if VARIANT < 2
      case 1: if(s.n) { E e = a.Pop(); CHECK(getv(e) == s[0]); s.remove(0); COVER(2); } break;
      case 2: if(s.n) { a.Discard(); s.remove(0); COVER(3); } break;
#elif VARIANT < 4
      case 1: if(s.n) { E e = a.Pop(); CHECK(getv(e) == s[s.n - 1]); s.remove(s.n - 1); COVER(2); } break;
      case 2: if(s.n) { a.Discard(); s.remove(s.n - 1); COVER(3); } break;
#else
      case 1: if(s.n) { Eng g; E e = a.Pop(g); drop(s, getv(e)); COVER(2); } break;
      case 2: if(s.n) { int i = bsx_choice(s.n, "i"); int v = getv(((E*)a)[i]); a.Remove(i); drop(s, v); COVER(3); } break;
#endif
      case 3: a.Clear(); s.n = 0; COVER(4); break;
      case 4: { A c(a); same(c, s); c.Push(E(9)); same(a, s); A d; d.Push(E(1)); d = a; same(d, s); A m(std::move(d)); same(m, s); CHECK(d.Length() == 0); d = std::move(m); same(d, s); CHECK(m.Length() == 0); A& r = a; a = r; COVER(5); break; }
      case 5:
#if VARIANT / 2 == 1
        { int n = bsx_choice(s.n + 1, "n"); a.SetLength(n); s.n = n; }
#elif VARIANT / 2 == 2
        { A b; b.Push(E(77)); a += b; s.add(77); A c = a + b; CHECK((int)c.Length() == s.n + 1); }
#endif
        COVER(6); break;
    } same(a, s); }
  }
  CHECKM(bsx_live() == l0, "all storage released, every element destroyed");
}
