// Harness API: in the symbolic engine these are built-ins; natively they are provided by bsx_native.cpp (replay).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void bsx_sym(void* p, size_t n, const char* name);            // n fresh symbolic bytes
unsigned bsx_choice(unsigned n, const char* name);            // symbolic selector < n, split by the solver into concrete cases
void bsx_assume(int c);
void bsx_check(int c, const char* msg);                       // the property: must hold for every value on this path
void bsx_cover(unsigned id);                                  // reachability witness
void bsx_out(uint64_t v);                                     // observable value, compared with the native run
size_t bsx_live(void);                                        // live heap blocks
uint64_t bsx_concrete(uint64_t v);                            // split by value
void bsx_undef(void* p, size_t n);                            // contents become arbitrary (uninitialised)
int bsx_spawn(void (*fn)(void*), void* arg); void bsx_join(int id); void bsx_relax(void); void bsx_progress(void); int bsx_tid(void);
#ifdef __cplusplus
}
#define BSX_STR2(x) #x
#define BSX_STR(x) BSX_STR2(x)
#define CHECK(c) bsx_check((c) ? 1 : 0, #c " @" BSX_STR(__LINE__))
#define CHECKM(c, m) bsx_check((c) ? 1 : 0, m " @" BSX_STR(__LINE__))
#define ASSUME(c) bsx_assume((c) ? 1 : 0)
#define COVER(n) bsx_cover(n)
template<class T> static inline T sym(const char* name) { T t; bsx_sym(&t, sizeof(T), name); return t; }
template<class T> static inline T symRange(const char* name, T lo, T hi) { T t; bsx_sym(&t, sizeof(T), name); bsx_assume(t >= lo); bsx_assume(t <= hi); return t; }
#endif
