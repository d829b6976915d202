//BSX property=P08 covers=1,2,3,4 variants=0,1,2,3 def.quick=NW=3,ML=2,QL=2,FW=2 def.thorough=NW=3,ML=2,QL=3,FW=3
//BSX bounds: tries of 1 to FW distinct words of up to ML full-range symbolic bytes or NW words over 3 letters (one non-ASCII), any symbolic query of up to QL bytes (null terminated and by length); a concrete 8-bit trie grown to 100..250 nodes
#include "bsx.h"
#include "bss-util/Trie.h"
using namespace bss;
#if VARIANT == 0
typedef Trie<uint8_t> TR; typedef uint8_t IX; static const bool IC = false;
#elif VARIANT == 1
typedef Trie<uint8_t, true> TR; typedef uint8_t IX; static const bool IC = true;
#elif VARIANT == 2
typedef Trie<uint16_t> TR; typedef uint16_t IX; static const bool IC = false;
#else
typedef Trie<uint8_t> TR; typedef uint8_t IX; static const bool IC = false;
#endif
static int low(int c) { return IC && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool eq(const char* a, const char* b) { for(;; ++a, ++b) { if(low((unsigned char)*a) != low((unsigned char)*b)) return false; if(!*a) return true; } }
static int idx(const char (*w)[16], int n, const char* q) { for(int i = 0; i < n; ++i) if(eq(w[i], q)) return i; return -1; }
static void probe(TR& t, const char (*w)[16], int n, const char* q, int ql) {
  int e = idx(w, n, q); IX want = e < 0 ? (IX)-1 : (IX)e;
  CHECKM(t.Get(q) == want, "lookup finds a word exactly when it is in the trie"); CHECK(t[q] == want);
  char b[24]; for(int i = 0; i < ql; ++i) b[i] = q[i]; CHECKM(t.Get(b, (IX)ql) == want, "lookup by length agrees");
}
int main() {
  size_t l0 = bsx_live();
  {
#if VARIANT < 3
    int n = bsx_choice(VARIANT == 2 ? NW : FW, "n") + 1; char w[NW][16]; const char* p[NW];
    for(int i = 0; i < n; ++i) { int l = bsx_choice(ML + 1, "len"); bsx_sym(w[i], l, "word"); for(int k = 0; k < l; ++k) {
#if VARIANT == 2
      ASSUME(w[i][k] == 'a' || w[i][k] == 'b' || w[i][k] == (char)0xe9);
#else
      ASSUME(w[i][k] != 0);
#endif
    } w[i][l] = 0; p[i] = w[i]; for(int k = 0; k < i; ++k) ASSUME(!eq(w[i], w[k])); }
    TR t((IX)n, p);
    CHECK(t.Length() == n);
    for(int i = 0; i < n; ++i) CHECKM(t.Get(w[i]) == i, "every word is found at its index"); COVER(1);
    char q[QL + 1]; int ql = bsx_choice(QL + 1, "qlen"); bsx_sym(q, ql, "query"); for(int k = 0; k < ql; ++k) ASSUME(q[k] != 0); q[ql] = 0;
    switch(bsx_choice(VARIANT == 2 ? 4 : 1, "copy")) {
    case 0: probe(t, w, n, q, ql); COVER(2); break;
    case 1: { TR c(t); probe(c, w, n, q, ql); probe(t, w, n, q, ql); break; }
    case 2: { TR c(std::move(t)); probe(c, w, n, q, ql); TR& r = c; c = r; probe(c, w, n, q, ql); break; }
    case 3: { static const char* o[] = { "x", "yy" }; TR c((IX)2, o); c = t; probe(c, w, n, q, ql); TR d((IX)2, o); d = std::move(c); probe(d, w, n, q, ql); TR v((IX)2, "ab", "a"); CHECK(v.Get("a") == 1 && v.Get("ab") == 0 && v.Get("b") == (IX)-1); break; }
    } COVER(3); COVER(4);
#else
    // n words of 9 letters sharing no prefix give 9n nodes and n terminal nodes
    static const int cn[] = { 1, 2, 14, 15, 25 }; int n = cn[bsx_choice(5, "n")]; char w[25][16]; const char* p[25];
    for(int i = 0; i < n; ++i) { w[i][0] = (char)(i & 1 ? 'A' + i : 0xd0 + i); for(int k = 1; k < 9; ++k) w[i][k] = (char)('a' + (i * 7 + k * 3) % 26); w[i][9] = 0; p[(i * 7) % n == 0 ? i : i] = w[i]; }
    TR t((IX)n, p); for(int i = 0; i < n; ++i) CHECKM(t.Get(w[i]) == i, "every word is found at its index");
    char q[16]; static const int ci[] = { 0, 1, 6, n - 1 }; int i = ci[bsx_choice(4, "which")] % n; for(int k = 0; k < 10; ++k) q[k] = w[i][k]; int k = 4 * bsx_choice(3, "pos"); q[k] = sym<char>("ch"); ASSUME(q[k] != 0); probe(t, w, n, q, 9);
    COVER(1); COVER(2); COVER(3); COVER(4);
#endif
  }
  CHECKM(bsx_live() == l0, "all storage released");
}
