//BSX property=P04 covers=1,2
//BSX bounds: hash maps and sets of 0 to 4 distinct integer keys out of six, one possibly removed again, walked forwards and backwards with prefix and postfix steps in both constnesses
#include "bsx.h"
#include "bss-util/Hash.h"
using namespace bss;
int main() {
  size_t l0 = bsx_live();
  { Hash<int, int> h; Hash<int> t; int val[6]; bool in[6] = {}; int cnt = 0; static const int K[] = { 0, 1, 5, -1, 64, 1 << 20 };
    int n = bsx_choice(5, "n"); for(int i = 0; i < n; ++i) { int k = bsx_choice(6, "k"); if(in[k]) ASSUME(0); in[k] = true; val[k] = sym<int>("v"); h.Insert(K[k], val[k]); t.Insert(K[k]); ++cnt; }
    if(n) { int k = bsx_choice(7, "rem"); if(k < 6) { if(!in[k]) ASSUME(0); CHECK(h.Remove(K[k])); CHECK(t.Remove(K[k])); in[k] = false; --cnt; } }
    const auto& c = h; const auto& u = t; int seen = 0; bool got[6] = {}; int order[6];
    for(auto it = h.begin(); it != h.end(); ) { auto [k, v] = *it; int x = -1; for(int j = 0; j < 6; ++j) if(K[j] == k) x = j; CHECKM(x >= 0 && in[x] && !got[x], "iteration yields each present key once"); got[x] = true; CHECKM(v == val[x], "with its value"); order[seen++] = k; if(seen & 1) { auto o = it++; CHECK(std::get<0>(*o) == k); } else ++it; } CHECKM(seen == cnt, "and every key"); COVER(1);
    int s2 = 0; for(auto [k, v] : c) { CHECK(k == order[s2]); ++s2; } CHECK(s2 == cnt); s2 = 0; bool g2[6] = {}; for(const int& k : u) { int x = -1; for(int j = 0; j < 6; ++j) if(K[j] == k) x = j; CHECK(x >= 0 && in[x] && !g2[x]); g2[x] = true; ++s2; } CHECK(s2 == cnt);
    if(cnt) { auto it = h.end(); for(int k = cnt; k > 0; --k) { if(k & 1) --it; else { auto o = it--; CHECK(o != it); } CHECKM(std::get<0>(*it) == order[k - 1], "backwards visits the same keys in reverse"); } CHECK(it == h.begin()); auto ci = c.end(); --ci; CHECK(std::get<0>(*ci) == order[cnt - 1]); }
    for(auto [k, v] : h) v = k + 1; for(int j = 0; j < 6; ++j) if(in[j]) CHECKM(h[K[j]] == K[j] + 1, "values can be changed through iteration"); COVER(2);
  }
  CHECK(bsx_live() == l0);
}
