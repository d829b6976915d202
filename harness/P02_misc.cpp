//BSX property=P02 covers=1,2,3,4 variants=0,1
//BSX bounds: sorted arrays (variant 0) and maps (variant 1) of 0 to 4 symbolic keys; every accessor, iteration in both constnesses, copy, move, clear, discard, followed by insertions
#include "bsx.h"
#include "model.h"
#include "bss-util/Map.h"
#include "bss-util/ArraySort.h"
using namespace bss;
typedef ArraySort<int, CompT<int>> AS; typedef Map<int, Own, CompT<int>, size_t, ARRAY_SAFE> M; typedef Seq<int, 16> S;
static void ins(S& s, int v) { int i = 0; while(i < s.n && s[i] < v) ++i; s.insert(i, v); }
static void same(const AS& a, S& s) { CHECKM((int)a.Length() == s.n && a.Empty() == !s.n && a.Capacity() >= a.Length(), "length"); int k = 0; for(const int& v : a) { CHECKM(v == s[k], "sorted contents"); CHECK(a[k] == s[k]); ++k; } CHECK(k == s.n); if(s.n) { CHECK(a.Front() == s[0]); CHECK(a.Back() == s[s.n - 1]); } auto sl = a.GetSlice(); CHECK(sl.start == a.begin() && (int)sl.length == s.n && a.end() - a.begin() == s.n); }
int main() {
  size_t l0 = bsx_live();
  { int n = bsx_choice(5, "n"); S s;
#if VARIANT == 0
    AS a; for(int i = 0; i < n; ++i) { int v = sym<int>("v"); if(bsx_choice(2, "rv")) { int t = v; a.Insert(std::move(t)); } else a.Insert(v); ins(s, v); } same(a, s); COVER(1);
    { int* p = a.begin(); CHECK(a.end() - p == n); for(int i = 0; i < n; ++i) { CHECK(p[i] == s[i]); CHECK(&a[i] == p + i); } if(n) { CHECK(&a.Front() == p); CHECK(&a.Back() == p + n - 1); } }
    switch(bsx_choice(8, "op")) {
    case 0: a.Clear(); s.n = 0; break;
    case 1: { int k = bsx_choice(7, "k"); a.Discard(k); s.n = k > s.n ? 0 : s.n - k; break; }
    case 2: { AS b; b.Insert(5); b = std::move(a); same(b, s); CHECK(a.Length() == 0); a = std::move(b); break; }
    case 3: { AS b(a); same(b, s); AS c(std::move(b)); same(c, s); CHECK(b.Length() == 0); b = c; same(b, s); same(c, s); c.Clear(); same(b, s); a = b; break; }
    case 4: a.SetCapacity(9); CHECK(a.Capacity() >= 9); break;
    case 5: { Slice<const int, size_t> sl(a.begin(), (size_t)n); AS b(sl); same(b, s); AS c; c.Insert(1); c = sl; same(c, s); break; }
    case 6: { int i = bsx_choice(n + 2, "i"); CHECK(a.Remove(i) == (i < n)); if(i < n) s.remove(i); COVER(4); break; }
    case 7: { AS b(6); CHECK(b.Empty() && b.Capacity() >= 6); b = a; same(b, s); AS& self = b; b = self; same(b, s); break; }
    }
    same(a, s); int v = sym<int>("v"); a.Insert(v); ins(s, v); same(a, s); COVER(2); COVER(3); COVER(4);
#else
    M m; S d; auto put = [&](int k, int v, bool rv) { int i = 0; while(i < s.n && s[i] < k) ++i; if(rv) m.Insert(k, Own(v)); else { const Own o(v); m.Insert(k, o); CHECK(getv(o) == v); } s.insert(i, k); d.insert(i, v); };
    for(int i = 0; i < n; ++i) { int k = sym<int>("k"); for(int j = 0; j < s.n; ++j) ASSUME(s[j] != k); put(k, i + 1, bsx_choice(2, "rv")); } COVER(1);
    auto same = [&](const M& m) { CHECKM((int)m.Length() == s.n, "length"); int k = 0; for(auto& p : m) { CHECKM(std::get<0>(p) == s[k] && getv(std::get<1>(p)) == d[k], "pairs stay together and sorted"); CHECK(m.KeyIndex(k) == s[k]); CHECK(getv(m.DataIndex(k)) == d[k]); CHECK(getv(m(k)) == d[k]); CHECK(std::get<0>(m[k]) == s[k]); ++k; } CHECK(k == s.n); if(s.n) { CHECK(std::get<0>(m.Front()) == s[0]); CHECK(getv(std::get<1>(m.Back())) == d[s.n - 1]); } };
    same(m); 
    switch(bsx_choice(8, "op")) {
    case 0: m.Clear(); s.n = d.n = 0; break;
    case 1: { int k = bsx_choice(6, "k"); m.Discard(k); s.n = d.n = k > s.n ? 0 : s.n - k; break; }
    case 2: { M b; b.Insert(5, Own(9)); b = std::move(m); same(b); CHECK(m.Length() == 0); m = std::move(b); break; }
    case 3: { M b(m); same(b); M c(std::move(b)); same(c); CHECK(b.Length() == 0); b = c; same(b); same(c); c.Clear(); same(b); m = b; break; }
    case 4: { if(!n) break; int i = bsx_choice(n, "i"); int k = sym<int>("k2"); for(int j = 0; j < n; ++j) if(j != i) ASSUME(s[j] != k); int at; if(bsx_choice(2, "rv")) at = (int)m.Replace(i, k, Own(77)); else { const Own o(77); at = (int)m.Replace(i, k, o); } s.remove(i); d.remove(i); int j = 0; while(j < s.n && s[j] < k) ++j; s.insert(j, k); d.insert(j, 77); CHECKM(at == j, "reports where the replaced pair is now"); COVER(4); break; }
    case 5: { if(!n) break; int i = bsx_choice(n, "i"); m(i) = Own(55); d[i] = 55; if(i) { std::get<1>(m[0]) = Own(44); d[0] = 44; } std::get<1>(m.Back()) = Own(33); d[n - 1] = 33; std::get<1>(m.Front()) = Own(22); d[0] = 22; CHECK(&m.Front() == m.begin() && &m.Back() == m.end() - 1); break; }
    case 6: { int i = bsx_choice(n + 1, "i"); if(i < n) { int k = s[i]; CHECK((int)m.Remove(k) == i); s.remove(i); d.remove(i); } else { int k = sym<int>("k3"); for(int j = 0; j < n; ++j) ASSUME(s[j] != k); CHECKM(m.Remove(k) == (size_t)-1, "removing an absent key"); CHECK(m.Get(k) == (size_t)-1); } break; }
    case 7: { if(!n) break; int i = bsx_choice(n, "i"); const Own o(66); CHECK((int)m.Set(s[i], o) == i); d[i] = 66; CHECK((int)m.Get(s[i]) == i); CHECK(getv(m.GetData(s[i])) == 66); break; }
    }
    same(m); COVER(2); int k = sym<int>("kl"); for(int j = 0; j < s.n; ++j) ASSUME(s[j] != k); put(k, 99, true); same(m); COVER(3); COVER(4);
#endif
  }
  CHECK(bsx_live() == l0);
}
