//BSX property=P04 covers=1 variants=0,1,2,3,4,5,6,7,8,9,10 def.quick=OPS=2 def.thorough=OPS=3
//BSX bounds: hash maps from eleven kinds of key (8- and 64-bit integers, float, double, pointer, enumeration, tuple, pair with a string, std::string, wide string, Str to Str), started with 0, 1, 5 or 40 buckets and 0 to 4 entries; OPS operations (insert by copy or move, set, remove, clear, capacity change, copy, move) on a pool of four keys, then every key looked up in every form
#include "bsx.h"
#include <string.h>
#include <wchar.h>
#include "bss-util/Hash.h"
using namespace bss;
typedef int D; static D mk(int i) { return i; } static bool is(int g, int i) { return g == i; } static const D none = -1;
#if VARIANT == 0
typedef uint64_t K; typedef Hash<K, D> H; static K key(int i) { static const K k[] = { 0, ~0ull, 1ull << 32, 1 }; return k[i]; }
#elif VARIANT == 1
typedef int8_t K; typedef Hash<K, D> H; static K key(int i) { static const K k[] = { 0, -1, -128, 127 }; return k[i]; }
#elif VARIANT == 2
typedef float K; typedef Hash<K, D> H; static K key(int i) { static const K k[] = { 0, -1.5f, 1.5f, 1e30f }; return k[i]; }
#elif VARIANT == 3
typedef double K; typedef Hash<K, D> H; static K key(int i) { static const K k[] = { 0, -1.5, 1.5, 1e300 }; return k[i]; }
#elif VARIANT == 4
static int cell[4]; typedef int* K; typedef Hash<K, D> H; static K key(int i) { return i ? cell + i : 0; }
#elif VARIANT == 5
enum class E : short { A = 0, B = -1, C = 300, X = 4 }; typedef E K; typedef Hash<K, D> H; static K key(int i) { static const K k[] = { E::A, E::B, E::C, E::X }; return k[i]; }
#elif VARIANT == 6
typedef std::tuple<int, short, uint64_t> K; typedef Hash<K, D> H; static K key(int i) { return K(i & 1, (short)-(i >> 1), 5); }
#elif VARIANT == 7
typedef std::pair<Str, uint8_t> K; typedef Hash<K, D, ARRAY_SAFE> H; static K key(int i) { return K(i & 1 ? "x" : "", i >> 1); }
#elif VARIANT == 8
typedef std::string K; typedef Hash<K, D, ARRAY_SAFE> H; static K key(int i) { static const char* k[] = { "", "a", "A", "\xff" "b" }; return k[i]; }
#elif VARIANT == 9
typedef const wchar_t* K; typedef Hash<K, D> H; static K key(int i) { static wchar_t buf[4][3]; static const wchar_t* k[] = { L"", L"a", L"A", L"\x20ac" }; for(int j = 0; j < 2; ++j) buf[i][j] = k[i][0] && j == 0 ? k[i][0] : 0; return buf[i]; }
#else
typedef Str K; typedef Hash<Str, Str, ARRAY_SAFE> H; static K key(int i) { static const char* k[] = { "", "a", "A", "a string too long to be stored in place" }; return k[i]; }
#define STRV
#endif
#ifdef STRV
static Str mkv(int i) { char b[3] = { (char)('0' + i), 0, 0 }; return Str(b); } static bool isv(const char* g, int i) { return i < 0 ? !g : g && g[0] == '0' + i && !g[1]; } typedef Str V;
#else
static D mkv(int i) { return i; } static bool isv(D g, int i) { return i < 0 ? g == (D)~0 : g == i; } typedef D V;
#endif
static void same(H& h, const int* m) {
  int n = 0, c = 0; for(int i = 0; i < 4; ++i) { K k = key(i); CHECKM(h.Exists(k) == (m[i] >= 0) && h(k) == (m[i] >= 0), "exactly the keys inserted and not removed are found"); auto it = h.Iterator(k); CHECK(h.ExistsIter(it) == (m[i] >= 0)); CHECKM(isv(h.Get(k), m[i]) && isv(h[k], m[i]) && isv(h.GetValue(it), m[i]), "a key keeps the value last given to it"); V v = mkv(9); CHECK(h(k, v) == (m[i] >= 0)); CHECK(v == mkv(m[i] >= 0 ? m[i] : 9)); V* p = h.PointerValue(it); CHECK(!p == (m[i] < 0)); if(p) { CHECK(*p == mkv(m[i])); CHECK(&h.Value(it) == p); } n += m[i] >= 0; }
  CHECKM((int)h.Length() == n, "length"); for(auto i = h.Front(); i != h.Back(); ++i) c += h.ExistsIter(i); CHECKM(c == n, "iteration finds every entry once"); CHECK(h.Capacity() >= h.Length());
}
int main() {
  size_t l0 = bsx_live(); { static const int nb[] = { 0, 1, 5, 40 }; H h(nb[bsx_choice(4, "buckets")]); int m[4] = { -1, -1, -1, -1 };
  int pre = bsx_choice(5, "pre"); for(int i = 0; i < pre; ++i) { h.Insert(key(i), mkv(i + 4)); m[i] = i + 4; }
  for(int op = 0; op < OPS; ++op) { int w = bsx_choice(9, "op"); int i = w < 6 ? bsx_choice(4, "key") : 0; K k = key(i); V v = mkv(op);
    switch(w) {
      case 0: h.Insert(k, v); m[i] = op; break;
      case 1: h.Insert(std::move(k), std::move(v)); m[i] = op; break;
      case 2: { const V& cv = v; h.Insert(std::move(k), cv); m[i] = op; break; }
      case 3: CHECK(h.Set(k, v) == (m[i] >= 0)); if(m[i] >= 0) m[i] = op; break;
      case 4: CHECKM(h.Remove(k) == (m[i] >= 0), "removal reports whether the key was there"); m[i] = -1; break;
      case 5: { auto it = h.Iterator(k); CHECK(h.RemoveIter(it) == (m[i] >= 0)); m[i] = -1; break; }
      case 6: h.Clear(); for(int q = 0; q < 4; ++q) m[q] = -1; break;
      case 7: h.SetCapacity(64); break;
      case 8: { H c(h); H d(std::move(h)); same(c, m); same(d, m); h = d; d = std::move(c); same(d, m); break; }
    }
  }
  same(h, m); } COVER(1); CHECK(bsx_live() == l0);
}
