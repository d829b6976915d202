//BSX property=P12 covers=1,2,3 variants=0,1,2,3,4,5,6,7,8,9 def.quick=OPS=5,MOVEAT=2 def.thorough=OPS=6,MOVEAT=3
//BSX bounds: every sequence of OPS operations (allocate any size of a pool, free any live block, clear, move-construct, move-assign) for each allocator with every combination of initial size and alignment; block contents symbolic
#include "bsx.h"
#include "bss-util/BlockAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/CacheAlloc.h"
using namespace bss;
struct Blk { unsigned char* p; size_t n; unsigned char tag; };
static Blk b[OPS + 2]; static int nb;
static void fill(Blk& x) { for(size_t i = 0; i < x.n; ++i) x.p[i] = (unsigned char)(x.tag + i); }
static void verify() {
  for(int i = 0; i < nb; ++i) { for(size_t k = 0; k < b[i].n; ++k) CHECKM(b[i].p[k] == (unsigned char)(b[i].tag + k), "a live block keeps its contents"); for(int j = 0; j < i; ++j) CHECKM(b[i].p + b[i].n <= b[j].p || b[j].p + b[j].n <= b[i].p, "live blocks are disjoint"); }
}
static void got(void* p, size_t n, size_t align) { CHECKM(p != 0, "allocation succeeds"); CHECKM((uintptr_t)p % align == 0, "aligned as requested"); b[nb].p = (unsigned char*)p; b[nb].n = n; b[nb].tag = sym<unsigned char>("tag"); fill(b[nb]); ++nb; COVER(1); }
static Blk pick() { int i = bsx_choice(nb, "blk"); Blk x = b[i]; b[i] = b[--nb]; return x; }
struct A16 { alignas(16) char c[32]; }; struct S24 { char c[24]; };
#if VARIANT == 0
typedef BlockAlloc AL; static size_t bs, al;
static void* get(AL& a, size_t& n) { n = bs; if(nb == 1) { n = bs - 1; return a.Alloc(n, 1); } return a.Alloc(); } static void rel(AL& a, Blk& x) { a.Dealloc(x.p); }
#define MAKE(nm) AL nm(bs, init, al)
#define CLEAR 1
#elif VARIANT == 1
typedef GreedyAlloc AL; static size_t al; static const size_t gs[] = { 1, 8, 13, 40 };
static void* get(AL& a, size_t& n) { n = gs[bsx_choice(4, "n")]; return a.Alloc(n); } static void rel(AL& a, Blk& x) { a.Dealloc(x.p); }
#define MAKE(nm) AL nm(init * 16, al)
#define CLEAR 1
#elif VARIANT == 2
typedef GreedyBlockPolicy<A16> AL; static const size_t al = 16;
static void* get(AL& a, size_t& n) { size_t k = 1 + bsx_choice(3, "n"); n = k * sizeof(A16); return a.allocate(k); } static void rel(AL& a, Blk& x) { a.deallocate(x.p); }
#define MAKE(nm) AL nm(init * 16)
#define CLEAR 1
#define NOASSIGN
#elif VARIANT == 3
typedef RingAllocVoid AL; static const size_t al = 1; static const size_t gs[] = { 1, 8, 30, 64 };
static void* get(AL& a, size_t& n) { n = gs[bsx_choice(4, "n")]; return a.Alloc(n); } static void rel(AL& a, Blk& x) { a.Dealloc(x.p); }
#define MAKE(nm) AL nm(init * 16)
#define CLEAR 1
#elif VARIANT == 4
typedef CacheAlloc AL; static size_t al; static const size_t gs[] = { 1, 8, 24, 40 };
static void* get(AL& a, size_t& n) { n = gs[bsx_choice(4, "n")]; return a.Alloc(n); } static void rel(AL& a, Blk& x) { a.Dealloc(x.p, x.n); }
#define MAKE(nm) AL nm(24, init * 16, al)
#define CLEAR 0
#elif VARIANT == 5
typedef LocklessBlockPolicy<S24> AL; static const size_t al = 1;
static void* get(AL& a, size_t& n) { n = 24; return a.allocate(1); } static void rel(AL& a, Blk& x) { a.deallocate((S24*)x.p, 1); }
#define MAKE(nm) AL nm(init)
#define CLEAR 0
#elif VARIANT == 6
typedef BlockPolicySize<32, 16> AL; static const size_t al = 16;
static void* get(AL& a, size_t& n) { if(bsx_choice(2, "t")) { n = 32; return a.allocate<A16>(1); } size_t k = 1 + bsx_choice(4, "n"); n = 8 * k; return a.allocate<uint64_t>(k); } static void rel(AL& a, Blk& x) { a.deallocate<unsigned char>(x.p); }
#define MAKE(nm) AL nm(init)
#define CLEAR 1
#endif
#if VARIANT == 9
struct S64 { alignas(64) char c[64]; };
typedef BlockPolicy<S64> AL; static const size_t al = 64;
static void* get(AL& a, size_t& n) { n = 64; return a.allocate(1); } static void rel(AL& a, Blk& x) { a.deallocate((S64*)x.p, 1); }
#define MAKE(nm) AL nm(init)
#define CLEAR 1
#endif
#if VARIANT <= 6 || VARIANT == 9
int main() {
  size_t l0 = bsx_live();
  {
    static const size_t cf[][3] = { { 1, 8, 8 }, { 4, 12, 1 }, { 1, 24, 16 }, { 4, 16, 16 }, { 2, 64, 64 }, { 3, 32, 32 } }; unsigned c = bsx_choice(6, "config"); size_t init = cf[c][0];
#if VARIANT == 0
    bs = cf[c][1]; al = cf[c][2];
#elif VARIANT == 1 || VARIANT == 4
    al = cf[c][2];
#else
    ASSUME(c < 2);
#endif
    MAKE(a);
    for(int op = 0; op < OPS; ++op) {
      switch(bsx_choice(op == MOVEAT ? 4 : 3, "op")) {
      case 0: { size_t n; void* p = get(a, n);
#if VARIANT == 0
        got(p, n, (n == bs) ? al : 1);
#elif VARIANT == 4
        got(p, n, n <= 24 ? al : 1);
#else
        got(p, n, al);
#endif
        break; }
      case 1: if(nb) { Blk x = pick(); rel(a, x); COVER(2); } break;
      case 2:
#if CLEAR
        a.Clear(); nb = 0;
#endif
        COVER(3); break;
      case 3: {
#ifdef NOASSIGN
        AL c(std::move(a)); size_t n; void* p = get(c, n); got(p, n, 16); verify(); while(nb) { Blk x = pick(); rel(c, x); } return 0;
#else
        AL c(std::move(a)); size_t n; void* p = get(c, n); got(p, n, 1); verify(); if(nb > 1) { Blk x = b[0]; rel(c, x); b[0] = b[--nb]; } if(bsx_choice(2, "used")) { MAKE(d); Blk y; y.p = (unsigned char*)get(d, y.n); if(VARIANT == 4) rel(d, y); d = std::move(c); if(nb) { Blk z = b[0]; rel(d, z); b[0] = b[--nb]; } verify(); a = std::move(d); } else a = std::move(c); break;
#endif
      }
      }
      verify();
    }
#if VARIANT == 4
    while(nb) { Blk x = b[--nb]; rel(a, x); }
#endif
  }
  CHECKM(bsx_live() == l0, "an allocator returns all its memory");
}
#else
// realloc-style policies: growing or shrinking keeps the common prefix
template<class P> static void grow(P& a, size_t al) {
  typedef uint64_t U; U* p = 0; size_t n = 0; U ref[8];
  for(int op = 0; op < OPS; ++op) {
    size_t m = 1 + bsx_choice(5, "m"); p = p ? a.allocate(m, p, n) : a.allocate(m); CHECK(p != 0); CHECK((uintptr_t)p % al == 0); COVER(1);
    for(size_t i = 0; i < m && i < n; ++i) CHECKM(p[i] == ref[i], "reallocation keeps the contents"); n = m; for(size_t i = 0; i < n; ++i) { ref[i] = sym<U>("v"); p[i] = ref[i]; }
    if(bsx_choice(2, "other")) { U* q = a.allocate(2); for(size_t i = 0; i < 2; ++i) q[i] = 7; CHECKM(q + 2 <= p || p + n <= q, "disjoint"); a.deallocate(q, 2); COVER(2); } for(size_t i = 0; i < n; ++i) CHECK(p[i] == ref[i]);
  }
  a.deallocate(p, n); COVER(3);
}
struct Al : AlignedAllocator<uint64_t> {};
int main() {
  size_t l0 = bsx_live();
#if VARIANT == 7
  if(bsx_choice(2, "pol")) { CachePolicy<uint64_t> p(32, 64, 8); grow(p, 8); } else { GreedyPolicy<uint64_t> p(16, 8); grow(p, 8); }
#else
  switch(bsx_choice(3, "al")) { case 0: { StandardAllocator<uint64_t> a; grow(a, 8); break; } case 1: { StandardAllocator<uint64_t, 32> a; grow(a, 32); break; } case 2: { AlignedAllocator<uint64_t> a; grow(a, 8); break; } }
#endif
  CHECKM(bsx_live() == l0, "all memory returned");
}
#endif
