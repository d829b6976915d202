#include "bsx.h"
#include "bss-util/RWLock.h"
using namespace bss;
static RWLock lk; static int readers, writers, entered, dat[2];
#define NOY __attribute__((section(".bsx_noyield"), noinline))
NOY static void inR() { CHECKM(writers == 0, "no writer while a reader is inside"); ++readers; ++entered; } NOY static void outR() { --readers; }
NOY static void inW(int own) { CHECKM(writers == 0, "at most one writer"); CHECKM(readers == own, "no reader while a writer is inside"); writers = 1; ++entered; } NOY static void outW() { writers = 0; }
static void rd() { int a = dat[0], b = dat[1]; CHECKM(a == b, "a reader sees no half-made change"); }
static void wr() { ++dat[0]; ++dat[1]; }
static void role(void* p) {
  switch((int)(size_t)p) {
  case 0: lk.Lock(); inW(0); wr(); outW(); lk.Unlock(); break;
  case 1: lk.RLock(); inR(); rd(); outR(); lk.RUnlock(); break;
  case 2: if(lk.AttemptLock()) { inW(0); wr(); outW(); lk.Unlock(); COVER(2); } break;
  case 3: if(lk.AttemptStrictLock()) { inW(0); wr(); outW(); lk.Unlock(); COVER(3); } break;
  case 4: if(lk.AttemptRLock()) { inR(); rd(); outR(); lk.RUnlock(); COVER(4); } break;
  case 5: lk.RLock(); inR(); rd(); outR(); lk.Upgrade(); inW(0); wr(); outW(); lk.Downgrade(); inR(); rd(); outR(); lk.RUnlock(); COVER(5); break; // Upgrade may let another writer through first, so the read section ends before it
  case 6: lk.RLock(); inR(); rd(); { int v = dat[0]; if(lk.AttemptUpgrade()) { outR(); inW(0); CHECKM(dat[0] == v, "an attempted upgrade keeps the read section intact"); wr(); outW(); inR(); lk.Downgrade(); COVER(6); } } rd(); outR(); lk.RUnlock(); break;
  }
}
int main() {
  unsigned r[THR], t[THR]; r[0] = bsx_choice(7, "role"); for(int i = 1; i < THR; ++i) r[i] = bsx_choice(r[i - 1] + 1, "role");
  for(int i = 0; i < THR; ++i) t[i] = bsx_spawn(role, (void*)(size_t)r[i]); for(int i = 0; i < THR; ++i) bsx_join(t[i]);
  CHECKM(lk.IsFree(), "free once everybody left"); CHECK(lk.ReaderCount() == 0); CHECK(dat[0] == dat[1]); COVER(1);
  // a free lock is granted at once in every mode, a held one is refused
  CHECK(lk.AttemptStrictLock()); CHECK(!lk.AttemptLock()); CHECK(!lk.AttemptRLock()); CHECK(!lk.AttemptStrictLock()); lk.Unlock(); CHECK(lk.AttemptRLock()); CHECK(lk.ReaderCount() == 1); CHECK(!lk.AttemptStrictLock()); CHECK(lk.AttemptRLock()); CHECK(lk.ReaderCount() == 2); lk.RUnlock(); CHECK(lk.AttemptUpgrade()); CHECK(!lk.AttemptRLock()); lk.Downgrade(); CHECK(lk.AttemptRLock()); lk.RUnlock(); lk.RUnlock(); CHECK(lk.AttemptLock()); CHECK(!lk.AttemptRLock()); lk.Unlock(); CHECK(lk.IsFree());
}
