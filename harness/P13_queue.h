#include "bsx.h"
#include "model.h"
#include "bss-util/LocklessQueue.h"
using namespace bss;
#if VARIANT == 1
typedef Own El; typedef LocklessQueue<El, size_t, StandardAllocator<internal::LQ_QNode<El>>> Q;
#elif VARIANT == 0
typedef int El; typedef LocklessQueue<El, size_t> Q;
#elif VARIANT == 5
typedef Own El; typedef MicroLockQueue<El, size_t, PolymorphicAllocator<internal::LQ_QNode<El>, LocklessBlockPolicy>> Q;
#else
typedef int El; typedef MicroLockQueue<El, size_t> Q;
#endif
static Q* q; static int val[2][8], out[2][8], nout[2];
struct Arg { int id, n; };
static void producer(void* p) { Arg* a = (Arg*)p; for(int i = 0; i < a->n; ++i) { if(i & 1) { El e(val[a->id][i]); q->Push(e); } else q->Push(El(val[a->id][i])); } }
static void consumer(void* p) { Arg* a = (Arg*)p; El e; for(int i = 0; i < a->n; ++i) if(q->Pop(e)) { out[a->id][nout[a->id]++] = getv(e); COVER(1); } }
int main() {
  size_t l0 = bsx_live(); for(int k = 0; k < 2; ++k) for(int i = 0; i < 8; ++i) val[k][i] = 0;
#if VARIANT <= 1
  { Q o; q = &o; int pre = bsx_choice(2, "pre"); for(int i = 0; i < ITEMS; ++i) { val[0][i] = sym<int>("v"); } for(int i = 0; i < pre; ++i) q->Push(El(val[0][i])); Arg rest = { 0, ITEMS - pre }; Arg c = { 0, ITEMS };
    // the producer continues after the items already there
    static int all[8]; for(int i = 0; i < ITEMS; ++i) all[i] = val[0][i]; for(int i = 0; i < rest.n; ++i) val[0][i] = all[i + pre];
    int t1 = bsx_spawn(producer, &rest), t2 = bsx_spawn(consumer, &c); bsx_join(t1); bsx_join(t2);
    CHECKM(q->Length() == (size_t)(ITEMS - nout[0]), "length"); CHECKM(q->Peek() == (nout[0] < ITEMS), "Peek tells whether there is an item");
    El e; while(nout[0] < ITEMS) { CHECKM(q->Pop(e), "no item is lost"); out[0][nout[0]++] = getv(e); } CHECKM(!q->Pop(e), "nothing is invented"); CHECK(!q->Peek()); for(int i = 0; i < ITEMS; ++i) CHECKM(out[0][i] == all[i], "first in, first out"); COVER(2);
#if VARIANT == 1
    q->Push(El(5)); Q m(std::move(o)); CHECK(m.Length() == 1); m.Push(El(6)); CHECK(m.Pop(e)); CHECK(getv(e) == 5); Q n; n.Push(El(9)); n = std::move(m); n.Push(El(7)); CHECK(n.Length() == 2); CHECK(n.Pop(e)); CHECK(getv(e) == 6); CHECK(n.Peek()); CHECKM(n.Pop(e), "a queue that was assigned to goes on taking items"); CHECK(getv(e) == 7); CHECK(!n.Pop(e)); CHECK(n.Length() == 0); n.Push(El(1));
#endif
  }
#elif VARIANT == 4
  { LocklessBlockPolicy<internal::LQ_QNode<int>> pol(1); Q o(&pol); q = &o;
#else
  { Q o; q = &o;
#endif
#if VARIANT >= 2
    int np = VARIANT == 2 ? 2 : 1, nc = VARIANT == 2 ? 1 : 2; if(VARIANT == 4) { np = 1; nc = 1; } int per = VARIANT == 4 ? ITEMS : MI, per1 = 1, tot = np == 2 ? per + per1 : per, pre = VARIANT == 2 ? 0 : 1; if(VARIANT == 5) { pre = 0; }
    for(int k = 0; k < np; ++k) for(int i = 0; i < per; ++i) val[k][i] = (sym<int>("v") & ~3) | k * 2; // low bits tell the producer
    int base[2] = { 0, 0 }; for(int i = 0; i < pre; ++i) q->Push(El(val[0][i]));
    static int all[2][8]; for(int k = 0; k < np; ++k) for(int i = 0; i < per; ++i) all[k][i] = val[k][i]; for(int i = 0; i + pre < per; ++i) val[0][i] = all[0][i + pre];
    Arg pa[2] = { { 0, per - pre }, { 1, per1 } }, ca[2] = { { 0, MI }, { 1, VARIANT == 5 ? 1 : MI } }; int th[4], nt = 0; for(int k = 0; k < np; ++k) th[nt++] = bsx_spawn(producer, pa + k); for(int k = 0; k < nc; ++k) th[nt++] = bsx_spawn(consumer, ca + k); for(int k = 0; k < nt; ++k) bsx_join(th[k]);
    int got = nout[0] + nout[1]; CHECK(got <= tot); CHECKM(q->Length() == (size_t)(tot - got), "length"); CHECK(q->Peek() == (got < tot));
    El e; int rest[8], nr = 0; while(got < tot) { CHECKM(q->Pop(e), "no item is lost"); rest[nr++] = getv(e); ++got; } CHECKM(!q->Pop(e), "nothing is invented"); COVER(2);
    // per producer, what a consumer sees is in order; and together every item exactly once: with one consumer the order is fully determined per producer
    if(nc == 1) { int ix[2] = { 0, 0 }; for(int i = 0; i < nout[0] + nr; ++i) { int v = i < nout[0] ? out[0][i] : rest[i - nout[0]]; int k = (v >> 1) & 1; CHECKM(k < np && ix[k] < (k ? per1 : per), "every item once"); CHECKM(v == all[k][ix[k]], "items of one producer stay in order"); ++ix[k]; } for(int k = 0; k < np; ++k) CHECK(ix[k] == (k ? per1 : per)); }
    else { // merge the two consumers' sequences: some interleaving equals the producer's order and the rest follows
      bool ok = false; for(unsigned m = 0; m < (1u << (nout[0] + nout[1])); ++m) { int a = 0, b = 0; bool g = true; for(int i = 0; i < nout[0] + nout[1] && g; ++i) { if((m >> i) & 1) { if(b >= nout[1]) { g = false; break; } g = out[1][b++] == all[0][i]; } else { if(a >= nout[0]) { g = false; break; } g = out[0][a++] == all[0][i]; } } if(g) ok = true; }
      CHECKM(ok, "consumers together take a prefix, each in order"); for(int i = 0; i < nr; ++i) CHECKM(rest[i] == all[0][nout[0] + nout[1] + i], "the rest follows in order"); }
#if VARIANT == 5
    q->Push(El(5)); Q m(std::move(o)); CHECK(m.Length() == 1); m.Push(El(6)); CHECK(m.Pop(e)); CHECK(getv(e) == 5); Q n; n.Push(El(9)); n = std::move(m); n.Push(El(7)); CHECK(n.Length() == 2); CHECK(n.Pop(e)); CHECK(getv(e) == 6); CHECK(n.Peek()); CHECKM(n.Pop(e), "a queue that was assigned to goes on taking items"); CHECK(getv(e) == 7); CHECK(!n.Pop(e)); CHECK(n.Length() == 0); n.Push(El(1));
#endif
  }
#endif
#if VARIANT == 1 || VARIANT == 4
  CHECKM(bsx_live() == l0, "all storage released");
#endif
}
