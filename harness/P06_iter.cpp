//BSX property=P06 covers=1,2 variants=0,1,2
//BSX bounds: linked lists (variant 0), linked arrays (variant 1) and intrusive lists (variant 2) of 0 to 4 symbolic items, walked forwards and backwards with prefix and postfix steps from every position, and removal through (i++)
#include "bsx.h"
#include "model.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
using namespace bss;
typedef Seq<int, 12> S;
template<class I> static void walk(I b, S& s, int n) { // b refers to element 0
  int p = bsx_choice(n, "p"); I i = b; for(int k = 0; k < p; ++k) { if(k & 1) { I o = i++; CHECK(*o == s[k]); } else ++i; } CHECKM(*i == s[p], "forward"); CHECK(i.operator->() == &*i); CHECK(i == i && !(i != i) && !!i && i.IsValid()); I j = i; for(int k = p; k > 0; --k) { CHECK(j != b && !(j == b)); if(k & 1) --j; else { I o = j--; CHECK(*o == s[k]); } CHECKM(*j == s[k - 1], "backward"); } CHECK(j == b && !(j != b)); for(int k = p; k < n; ++k) ++i; CHECKM(!i && !i.IsValid(), "the end"); COVER(1); }
struct Nd : LLBase<Nd> { int v; };
int main() {
  size_t l0 = bsx_live();
  { int n = bsx_choice(5, "n"); S s; for(int i = 0; i < n; ++i) s.add(sym<int>("v"));
#if VARIANT == 0
    LinkedList<int, StandardAllocator<LLNode<int>>, true> l; for(int i = 0; i < n; ++i) l.Add(s[i]); if(n) walk(l.begin(), s, n); CHECK(l.end() == LLIter<int>()); int k = 0; for(int& v : l) { CHECK(v == s[k]); v = k; s[k] = k; ++k; } CHECK(k == n); k = 0; for(int v : l) { CHECK(v == k); ++k; } COVER(2);
#elif VARIANT == 1
    LinkedArray<int> l; size_t ix[4]; for(int i = 0; i < n; ++i) ix[i] = l.Add(s[i]); if(n) walk(l.begin(), s, n); const auto& c = l; if(n) { auto i = c.begin(); CHECK(*i == s[0]); ++i; CHECK((i == c.end()) == (n == 1)); } int k = 0; for(const int& v : c) { CHECK(v == s[k]); ++k; } CHECK(k == n); CHECK(c.end() == c.end() && !c.end());
    int r = bsx_choice(n + 1, "r"); k = 0; for(auto i = l.begin(); i.IsValid(); ++k) { if(k == r) (i++).Remove(); else ++i; } if(r < n) s.remove(r); k = 0; for(int& v : l) { CHECK(v == s[k]); ++k; } CHECK(k == s.n && (int)l.Length() == s.n); const int item = sym<int>("it"); if(s.n) { l.InsertBefore(item, l.Front()); s.insert(0, item); CHECK(*l.GetItemPtr(l.Front()) == item); CHECK(l.GetItem(l.Back()) == s[s.n - 1]); CHECK(c.GetItem(c.Back()) == s[s.n - 1]); CHECK(c[c.Front()] == s[0]); } COVER(2);
#else
    Nd nd[4]; Nd* root = 0; Nd* last = 0; for(int i = 0; i < n; ++i) { nd[i].v = s[i]; nd[i].next = nd[i].prev = 0; if(last) { last->next = &nd[i]; nd[i].prev = last; } else root = &nd[i]; last = &nd[i]; }
    if(n) { int p = bsx_choice(n, "p"); LLIterator<Nd> i(root), b(root); for(int k = 0; k < p; ++k) { if(k & 1) { LLIterator<Nd> o = i++; CHECK(o->v == s[k]); } else ++i; } CHECK(i->v == s[p] && (*i)->v == s[p]); CHECK(!!i && i == i); LLIterator<Nd> j = i; for(int k = p; k > 0; --k) { CHECK(j != b); if(k & 1) --j; else { LLIterator<Nd> o = j--; CHECK(o->v == s[k]); } CHECK(j->v == s[k - 1]); } CHECK(j == b && !(j != b)); for(int k = p; k < n; ++k) ++i; CHECK(!i); } COVER(1); COVER(2);
#endif
  }
  CHECK(bsx_live() == l0);
}
