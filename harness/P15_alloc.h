#include "bsx.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/CacheAlloc.h"
using namespace bss;
#define NOY __attribute__((section(".bsx_noyield"), noinline))
struct Blk { unsigned char* p; size_t n; unsigned char tag; }; static Blk live[12]; static int nl; static unsigned char nexttag = 1;
NOY static void reg(void* q, size_t n, size_t al) { unsigned char* p = (unsigned char*)q; CHECKM(p != 0, "allocation succeeds"); CHECKM((uintptr_t)p % al == 0, "aligned"); for(int i = 0; i < nl; ++i) CHECKM(p + n <= live[i].p || live[i].p + live[i].n <= p, "live blocks of all threads are disjoint"); live[nl].p = p; live[nl].n = n; live[nl].tag = nexttag; nexttag += 16; for(size_t i = 0; i < n; ++i) p[i] = (unsigned char)(live[nl].tag + i); ++nl; }
NOY static void unreg(void* p) { for(int i = 0; i < nl; ++i) if(live[i].p == p) { for(size_t k = 0; k < live[i].n; ++k) CHECKM(live[i].p[k] == (unsigned char)(live[i].tag + k), "a live block keeps its contents"); live[i] = live[--nl]; return; } CHECKM(false, "block known"); }
struct T24 { char c[24]; };
#define INIT (bsx_choice(2, "init") ? 64 : 16)
#if VARIANT == 0
typedef LocklessBlockPolicy<T24> A; static A* a; static void* get(size_t& n) { n = 24; return a->allocate(1); } static void rel(void* p, size_t n) { a->deallocate((T24*)p); }
#define MAKE new A(1 + bsx_choice(2, "init"))
#define ALN 8
#elif VARIANT == 1
typedef GreedyAlloc A; static A* a; static void* get(size_t& n) { return a->Alloc(n); } static void rel(void* p, size_t n) { a->Dealloc(p); }
#define MAKE new A(INIT, 8)
#define ALN 8
#elif VARIANT == 2
typedef RingAllocVoid A; static A* a; static void* get(size_t& n) { return a->Alloc(n); } static void rel(void* p, size_t n) { a->Dealloc(p); }
#define MAKE new A(INIT)
#define ALN 1
#elif VARIANT == 3
typedef CacheAlloc A; static A* a; static void* get(size_t& n) { return a->Alloc(n); } static void rel(void* p, size_t n) { a->Dealloc(p, n); }
#define MAKE new A(16, INIT, 8)
#define ALN 8
#endif
static void* pre[2]; static size_t pn[2];
static void* take(size_t n) { void* p = get(n); reg(p, n, ALN); return p; }
static void drop(void* p, size_t n) { unreg(p); rel(p, n); }
static void worker(void* arg) {
  int r = (int)(size_t)arg, me = r >> 4; size_t s1 = 8, s2 = (r & 8) ? 9 : 8; if(VARIANT == 0) s1 = s2 = 24;
  switch(r & 7) {
  case 0: { void* x = take(s1); void* y = take(s2); drop(x, s1); drop(y, s2); } break;
  case 1: { void* x = take(s1); drop(x, s1); void* y = take(s2); drop(y, s2); } break;
  case 3: { void* x = take(s1); drop(x, s1); } break;
  case 4: drop(pre[me], pn[me]); break;
  case 2: { drop(pre[me], pn[me]); void* x = take(s1); drop(x, s1); } break; // frees what another thread allocated
  }
}
int main() {
  size_t l0 = bsx_live(); a = MAKE; for(int k = 0; k < 2; ++k) { pn[k] = VARIANT == 0 ? 24 : 8; pre[k] = take(pn[k]); }
  
#ifdef SHORT
  unsigned r0 = 3 + bsx_choice(2, "r"), r1 = 3 + bsx_choice(r0 - 2, "r");
#else
  unsigned r0 = bsx_choice(3, "r"), r1 = bsx_choice(r0 + 1, "r");
#endif
  unsigned big = VARIANT == 0 ? 0 : bsx_choice(2, "s") * 8;
  int t0 = bsx_spawn(worker, (void*)(size_t)(r0 | big)), t1 = bsx_spawn(worker, (void*)(size_t)(r1 | 16)); bsx_join(t0); bsx_join(t1);
  if(r0 != 2 && r0 != 4) drop(pre[0], pn[0]); if(r1 != 2 && r1 != 4) drop(pre[1], pn[1]); CHECK(nl == 0);
  void* p[3]; size_t n[3]; for(int i = 0; i < 3; ++i) { n[i] = VARIANT == 0 ? 24 : 8 + i / 2; p[i] = take(n[i]); } COVER(1); drop(p[1], n[1]); n[1] = VARIANT == 0 ? 24 : 8; p[1] = take(n[1]); for(int i = 0; i < 3; ++i) drop(p[i], n[i]);
  delete a; CHECKM(bsx_live() == l0, "everything is released");
}
