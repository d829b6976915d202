//BSX property=P06 covers=1,2,3,4,5,6,7 variants=0,1,2 def.quick=OPS=3,PRE=4 def.thorough=OPS=4,PRE=5
//BSX bounds: LinkedArray prefilled with 0..PRE items (optionally fragmented), then OPS symbolic operations at every position (growth and index reuse included); plain, owning items, 8-bit indices; intrusive lists (LLBase helpers, alternate links) of the same sizes in variant 2
#include "bsx.h"
#include "model.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/LLBase.h"
using namespace bss;
typedef Seq<int, 40> S;
#if VARIANT < 2
#if VARIANT == 0
typedef int E; typedef LinkedArray<int> L; typedef size_t CT;
#else
typedef Own E; typedef LinkedArray<Own, uint8_t, ARRAY_CONSTRUCT> L; typedef uint8_t CT;
#endif
static CT at(L& l, int i) { CT n = l.Front(); while(i--) l.Next(n); return n; }
struct M { Seq<int, 40> v; Seq<int, 40> id; int n() { return v.n; } void ins(int i, int x, int k) { for(int j = 0; j < id.n; ++j) CHECKM(id[j] != k, "an index handed out names no other live item"); v.insert(i, x); id.insert(i, k); } void del(int i) { v.remove(i); id.remove(i); } };
static void same(L& l, M& s) {
  CHECK(l.Length() == (CT)s.n()); CHECK(l.Capacity() >= l.Length()); int i = 0; CT p = (CT)-1;
  for(CT n = l.Front(); n != (CT)-1; l.Next(n)) { CHECK(i < s.n()); CHECK(n == (CT)s.id[i]); CHECK(getv(l[n]) == s.v[i]); CHECK(getv(*l.GetItemPtr(n)) == s.v[i]); CT b = n; l.Prev(b); CHECK(b == p); p = n; ++i; }
  CHECK(i == s.n()); CHECK(l.Back() == p); i = 0; for(E& e : l) { CHECK(i < s.n()); CHECK(getv(e) == s.v[i]); ++i; } CHECK(i == s.n()); i = 0; for(const E& e : (const L&)l) { CHECK(getv(e) == s.v[i]); ++i; } CHECK(i == s.n());
}
int main() {
  size_t l0 = bsx_live();
  {
    L l; M s; int pre = bsx_choice(PRE + 1, "pre"); for(int i = 0; i < pre; ++i) { CT r = l.Add(E(i)); s.ins(s.n(), i, r); }
    if(pre > 2 && bsx_choice(2, "frag")) { l.Remove(at(l, 1)); s.del(1); }
    for(int op = 0; op < OPS; ++op) { switch(bsx_choice(op + 1 < OPS ? 4 : 8, "op")) {
      case 0: { int v = sym<int>("v"); E e(v); CT r = bsx_choice(2, "mv") ? l.Add(e) : l.Add(std::move(e)); s.ins(s.n(), v, r); COVER(1); break; }
      case 1: { int i = bsx_choice(s.n() + 1, "i"), v = sym<int>("v"); CT r = l.InsertBefore(E(v), i == s.n() ? (CT)-1 : (CT)s.id[i]); s.ins(i, v, r); COVER(2); break; }
      case 2: { int i = bsx_choice(s.n() + 1, "i"), v = sym<int>("v"); CT r = l.InsertAfter(E(v), i == s.n() ? (CT)-1 : (CT)s.id[i]); s.ins(i == s.n() ? i : i + 1, v, r); COVER(3); break; }
      case 3: { if(!s.n()) break; int i = bsx_choice(s.n(), "i"); E e = l.Remove(s.id[i]); CHECK(getv(e) == s.v[i]); s.del(i); COVER(4); break; }
      case 4: { l.SetCapacity(l.Capacity() + bsx_choice(3, "cap")); COVER(5); break; }
      case 5: { l.Clear(); s = M(); same(l, s); CT r = l.Add(E(3)); s.ins(0, 3, r); break; }
      case 6: { L c(l); same(c, s); c.Add(E(4)); same(l, s); L d; d.Add(E(1)); d = l; same(d, s); L m(std::move(d)); same(m, s); M z; same(d, z); z.ins(0, 6, d.Add(E(6))); same(d, z); d = std::move(m); same(d, s); z = M(); same(m, z); L& r = l; l = r; COVER(6); break; }
      case 7: { auto it = l.begin(); int i = 0; while(it.IsValid()) { if(getv(*it) == 1) { (it++).Remove(); s.del(i); } else { ++it; ++i; } } COVER(7); break; }
    } same(l, s); }
  }
  CHECKM(bsx_live() == l0, "all storage released, every element destroyed");
}
#else
struct N2 : LLBase<N2> { int v; LLBase<N2> alt; };
static LLBase<N2>& galt(N2* n) { return n->alt; }
static void same(N2* root, N2* last, S& s, N2* pool, bool alt, bool useLast) {
  N2* p = 0; int i = 0; for(N2* n = root; n; n = alt ? n->alt.next : n->next) { CHECK(i < s.n); CHECK(n == pool + s[i]); CHECK((alt ? n->alt.prev : n->prev) == p); p = n; ++i; } CHECK(i == s.n); if(useLast) CHECK(last == p);
  if(!alt) { i = 0; for(LLIterator<N2> it(root); it.IsValid(); it++) { CHECK(*it == pool + s[i]); ++i; } CHECK(i == s.n); }
}
int main() {
  N2 pool[16]; for(int i = 0; i < 16; ++i) bsx_undef(&pool[i], sizeof(N2));
  S s; N2* root = 0; N2* last = 0; int nx = 0; bool alt = bsx_choice(2, "alt"), ul = !alt && bsx_choice(2, "ul"); int pre = bsx_choice(PRE + 1, "pre");
  for(int i = 0; i < pre; ++i) { if(alt) AltLLAdd<N2, galt>(pool + nx, root); else if(ul) LLAdd<N2>(pool + nx, root, last); else LLAdd<N2>(pool + nx, root); s.insert(0, nx++); }
  for(int op = 0; op < OPS; ++op) { int k = bsx_choice(alt ? 2 : 5, "op"); switch(k) {
    case 0: if(alt) AltLLAdd<N2, galt>(pool + nx, root); else if(ul) LLAdd<N2>(pool + nx, root, last); else LLAdd<N2>(pool + nx, root); s.insert(0, nx++); COVER(1); break;
    case 1: { if(!s.n) break; int i = bsx_choice(s.n, "i"); N2* n = pool + s[i]; if(alt) AltLLRemove<N2, galt>(n, root); else if(ul) LLRemove<N2>(n, root, last); else if(i && bsx_choice(2, "x")) LLRemove<N2>(n); else LLRemove<N2>(n, root); s.remove(i); COVER(2); break; }
    case 2: { if(!s.n) break; int i = bsx_choice(s.n, "i"); if(i && bsx_choice(2, "x")) LLInsert<N2>(pool + nx, pool + s[i]); else LLInsert<N2>(pool + nx, pool + s[i], root); s.insert(i, nx++); COVER(3); break; }
    case 3: { if(!s.n) break; int i = bsx_choice(s.n, "i"); if(ul) LLInsertAfter<N2>(pool + nx, pool + s[i], last); else LLInsertAfter<N2>(pool + nx, pool + s[i]); s.insert(i + 1, nx++); COVER(4); break; }
    case 4: { if(ul) { if(s.n && bsx_choice(2, "x")) last = LLAddAfter<N2>(pool + nx, last); else LLAddAfter<N2>(pool + nx, root, last); s.add(nx++); COVER(5); } else { COVER(6); COVER(7); } break; }
  } same(root, last, s, pool, alt, ul); }
}
#endif
