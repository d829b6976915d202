// Shared driver for search trees: a reference ordered multiset and concrete prefills of several shapes.
#pragma once
#include "model.h"
struct KV { int k; int v; };
template<int M> struct OSet : Seq<KV, M> {
  using Seq<KV, M>::n; using Seq<KV, M>::a;
  int find(int k) { for(int i = 0; i < n; ++i) if(a[i].k == k) return i; return -1; }
  int lower(int k) { int i = 0; while(i < n && a[i].k < k) ++i; return i; } // first not less
  int upper(int k) { int i = 0; while(i < n && a[i].k <= k) ++i; return i; } // first greater
  void ins(int k, int v) { Seq<KV, M>::insert(upper(k), KV{ k, v }); }
};
// the i-th of m keys of a prefill: ascending, descending, inside out, bit-reversed style, outside in
static inline int prekey(int shape, int i, int m) {
  int r;
  switch(shape) {
    case 0: r = i; break;
    case 1: r = m - 1 - i; break;
    case 2: r = (i & 1) ? m / 2 - 1 - i / 2 : m / 2 + i / 2; break;
    case 3: r = (i * 5) % m; break; // m must not be a multiple of 5
    default: r = (i & 1) ? m - 1 - i / 2 : i / 2; break;
  }
  return r * 10;
}
