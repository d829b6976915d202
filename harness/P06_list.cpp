//BSX property=P06 covers=1,2,3,4,5,6,7 variants=0,1,2,3 def.quick=OPS=4,PRE=3 def.thorough=OPS=5,PRE=4
//BSX bounds: lists prefilled with 0..PRE items, then OPS symbolic operations at every node with symbolic values; lists with and without tail and length, plain and owning items; Item lookups with symbolic values
#include "bsx.h"
#include "model.h"
#include "bss-util/LinkedList.h"
using namespace bss;
#if VARIANT % 2 == 0
typedef int E;
#else
struct E : Own { using Own::Own; E() {} bool operator!=(const E& r) const { return get() != r.get(); } };
#endif
#if VARIANT < 2
typedef LinkedList<E, StandardAllocator<LLNode<E>>, true, true> L; static const bool last = true;
#else
typedef LinkedList<E> L; static const bool last = false;
#endif
typedef Seq<int, 40> S;
static LLNode<E>* at(L& l, int i) { LLNode<E>* n = l.Front(); while(i--) n = n->next; return n; }
static void same(L& l, S& s) {
  LLNode<E>* p = 0; int i = 0;
  for(LLNode<E>* n = l.Front(); n; n = n->next) { CHECK(i < s.n); CHECK(getv(n->item) == s[i]); CHECKM(n->prev == p, "links agree in both directions"); p = n; ++i; }
  CHECK(i == s.n); i = 0; for(E& e : l) { CHECK(getv(e) == s[i]); ++i; } CHECK(i == s.n);
#if VARIANT < 2
  CHECK(l.Back() == p); CHECK((int)l.Length() == s.n);
#endif
}
static void add(L& l, S& s, int v) { LLNode<E>* n = l.Add(E(v)); CHECK(getv(n->item) == v); if(last) s.add(v); else s.insert(0, v); }
int main() {
  size_t l0 = bsx_live();
  {
    L l; S s; int pre = bsx_choice(PRE + 1, "pre"); for(int i = 0; i < pre; ++i) add(l, s, i);
    for(int op = 0; op < OPS; ++op) { switch(bsx_choice(op + 1 < OPS ? 4 : 9, "op")) {
      case 0: add(l, s, sym<int>("v")); COVER(1); break;
      case 1: { int i = bsx_choice(s.n + 1, "i"), v = sym<int>("v"); if(i == s.n) { LLNode<E>* n = l.Insert(E(v), 0); CHECK(getv(n->item) == v); if(last || !s.n) s.add(v); else s.insert(0, v); } else { l.Insert(E(v), at(l, i)); s.insert(i, v); } COVER(2); break; }
      case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"); if(bsx_choice(2, "it")) { LLIter<E> it(at(l, i)); l.Remove(it); } else l.Remove(at(l, i)); s.remove(i); COVER(3); break; }
      case 3: { int v = sym<int>("v"); l.Insert(E(v)); s.insert(0, v); break; }
      case 4: { if(!s.n) break; int i = bsx_choice(s.n, "i"); bool b = bsx_choice(2, "back"); LLNode<E>* n = at(l, i); LLNode<E>* want = b ? n->prev : n->next; CHECK(l.Remove(n, b) == want); s.remove(i); CHECK(l.Remove((LLNode<E>*)0, b) == 0); COVER(4); break; }
      case 5: l.Clear(); s.n = 0; same(l, s); add(l, s, 4); COVER(5); break;
      case 6: { L c(l); same(c, s); S t = s; add(c, t, 5); same(c, t); same(l, s); L d; d.Add(E(3)); d = l; same(d, s); L m(std::move(d)); same(m, s); S z; same(d, z); add(d, z, 8); same(d, z); d = std::move(m); same(d, s); z.n = 0; same(m, z); L& r = l; l = r; same(l, s);
        S ss = s; for(int i = 0; i < s.n; ++i) ss.add(s[i]); c = l; c += l; same(c, ss); d = l + l; same(d, ss); l += l; same(l, ss); s = ss; add(c, ss, 6); same(c, ss); COVER(6); break; }
      case 7: { int v = sym<int>("v"); int from = bsx_choice(s.n + 1, "from"); LLNode<E>* r = l.Item(E(v), from == s.n ? 0 : at(l, from)); int st = from == s.n ? 0 : from, want = -1; for(int k = 0; k < s.n; ++k) { int j = (st + k) % s.n; if(s[j] == v) { want = j; break; } } CHECK(r == (want < 0 ? 0 : at(l, want))); COVER(7); break; }
      case 8:
#if VARIANT < 2
        { if(!s.n) break; int v = sym<int>("v"); int st = bsx_choice(s.n, "from"); LLNode<E>* r = l.Item(E(v), at(l, st), true); int want = -1; for(int k = 0; k < s.n; ++k) { int j = (st - k + s.n) % s.n; if(s[j] == v) { want = j; break; } } CHECK(r == (want < 0 ? 0 : at(l, want))); }
#endif
        break;
    } same(l, s); }
  }
  CHECKM(bsx_live() == l0, "all storage released, every element destroyed");
}
