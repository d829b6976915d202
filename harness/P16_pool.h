#include "bsx.h"
#include <semaphore.h>
#include <thread>
#define NOY __attribute__((section(".bsx_noyield"), noinline))
// the operating system's threads and semaphores, on top of the checker's scheduler
extern "C" int sem_init(sem_t* s, int, unsigned v) noexcept { *(volatile int*)s = (int)v; return 0; }
extern "C" int sem_post(sem_t* s) noexcept { __atomic_fetch_add((int*)s, 1, __ATOMIC_SEQ_CST); return 0; }
extern "C" int sem_wait(sem_t* s) { for(;;) { int v = __atomic_load_n((int*)s, __ATOMIC_SEQ_CST); if(v > 0 && __atomic_compare_exchange_n((int*)s, &v, v - 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return 0; } }
extern "C" int pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) noexcept { return 1; }
struct ThrState { virtual ~ThrState() {} virtual void run() = 0; }; // same layout as std::thread::_State
static void runstate(void* p) { ThrState* s = (ThrState*)p; s->run(); delete s; }
std::thread::_State::~_State() {}
void std::thread::_M_start_thread(_State_ptr st, void (*)()) { *(uint64_t*)this = (uint64_t)bsx_spawn(runstate, st.release()); }
void std::thread::join() { bsx_join((int)*(uint64_t*)this); *(uint64_t*)this = 0; }
unsigned std::thread::hardware_concurrency() noexcept { return 2; }
#include "bss-util/ThreadPool.h"
using namespace bss;
static int hits[8], inside; static unsigned arg1; static short arg2;
NOY static void mark(int k) { ++hits[k]; }
static void task(void* p) { mark((int)(size_t)p); }
static int func(int k, unsigned a, short b) { if(a == arg1 && b == arg2) mark(k); return 0; }
int main() {
  arg1 = sym<unsigned>("a"); arg2 = sym<short>("b");
  int want[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
  { int w = WORKERS; ThreadPool& pool = *new ThreadPool((size_t)w); int prog = bsx_choice(PROGS, "prog");
    switch(prog) {
    case 0: pool.AddTask(&task, (void*)0); want[0] = 1; break;
    case 1: pool.AddTask(&task, (void*)0); pool.AddTask(&task, (void*)1); want[0] = want[1] = 1; break;
    case 2: pool.AddTask(&task, (void*)2, 2); want[2] = 2; break;
    case 3: pool.AddFunc(&func, 3, arg1, arg2); want[3] = 1; break;
    case 4: pool.AddTask(&task, (void*)4, 0); want[4] = w; break;
    case 5: pool.AddTask(&task, (void*)0); pool.Wait(); CHECKM(hits[0] == 1 && pool.Busy() == 0, "Wait returns when everything is done"); pool.AddTask(&task, (void*)1); want[0] = want[1] = 1; break;
    case 6: break;
    }
    if(bsx_choice(2, "wait")) { pool.Wait(); for(int i = 0; i < 8; ++i) CHECKM(hits[i] == want[i], "after Wait every task has run exactly once"); CHECK(pool.Busy() == 0); COVER(1); }
    delete &pool; }
  for(int i = 0; i < 8; ++i) CHECKM(hits[i] == want[i], "destroying the pool first runs every task exactly once"); COVER(2);
}
