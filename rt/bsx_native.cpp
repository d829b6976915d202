// Native replay runtime: feeds recorded solver values (and schedules) to a harness compiled against the real code.
#include "bsx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <new>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
static long g_live = 0; static int g_off = 1; static unsigned char g_fill = 0xCD;
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
static void* fill(void* p, size_t n) { if(p) memset(p, g_fill, n); return p; }
void* __wrap_malloc(size_t n) { ++g_live; return fill(__real_malloc(n), n); }
void __wrap_free(void* p) { if(p) --g_live; __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { ++g_live; return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { if(!p) { ++g_live; return fill(__real_malloc(n), n); } if(!n) { --g_live; __real_free(p); return 0; } void* q = __real_malloc(n); size_t o = malloc_usable_size(p); fill(q, n); memcpy(q, p, o < n ? o : n); __real_free(p); return q; }
void* __wrap_aligned_alloc(size_t a, size_t n) { ++g_live; return fill(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { ++g_live; int r = __real_posix_memalign(p, a, n); if(!r) fill(*p, n); return r; }
}
void* operator new(size_t n) { ++g_live; return fill(__real_malloc(n), n); }
void* operator new[](size_t n) { ++g_live; return fill(__real_malloc(n), n); }
void operator delete(void* p) noexcept { if(p) --g_live; __real_free(p); }
void operator delete[](void* p) noexcept { if(p) --g_live; __real_free(p); }
void operator delete(void* p, size_t) noexcept { if(p) --g_live; __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if(p) --g_live; __real_free(p); }

struct In { char name[96]; unsigned n; unsigned char b[16]; };
static In* g_in; static unsigned g_nin; static bool g_trace; struct Sw { unsigned long long y; int t; }; static Sw* g_sw; static unsigned g_nsw, g_swp; static unsigned g_pos;
static bool g_init; 
struct Occ { char name[96]; int n; }; static Occ g_occ[256]; static unsigned g_nocc;
static void say(const char* s) { (void)!write(1, s, strlen(s)); }
static void init() {
  if(g_init) return; g_init = true; const char* p = getenv("BSX_REPLAY"); g_trace = getenv("BSX_TRACE") != 0; if(const char* f = getenv("BSX_FILL")) g_fill = (unsigned char)strtol(f, 0, 16);
  g_in = (In*)__real_calloc(20000, sizeof(In)); g_sw = (Sw*)__real_calloc(20000, sizeof(Sw)); if(!p) return; FILE* f = fopen(p, "r"); if(!f) return; char nm[128], hex[256], k;
  while(fscanf(f, " %c", &k) == 1) { if(k == 'I') { if(fscanf(f, " %127s %255s", nm, hex) != 2) break; In& i = g_in[g_nin++]; strncpy(i.name, nm, 95); i.n = strlen(hex) / 2; for(unsigned j = 0; j < i.n && j < 16; ++j) { unsigned v; sscanf(hex + 2 * j, "%2x", &v); i.b[j] = v; } } else if(k == 'S') { if(fscanf(f, " %llu %d", &g_sw[g_nsw].y, &g_sw[g_nsw].t) != 2) break; ++g_nsw; } }
  fclose(f);
}
struct InitRunner { InitRunner() { init(); } }; static InitRunner g_ir;
static In& next(const char* name) {
  init(); unsigned k = 0; for(; k < g_nocc; ++k) if(!strcmp(g_occ[k].name, name)) break; if(k == g_nocc) { strncpy(g_occ[k].name, name, 95); g_occ[k].n = 0; ++g_nocc; }
  char full[128]; int o = g_occ[k].n++; if(o) snprintf(full, 128, "%s#%d", name, o); else snprintf(full, 128, "%s", name);
  if(g_pos >= g_nin || strcmp(g_in[g_pos].name, full)) { // tolerate end of the recording: remaining inputs are zero
    if(g_pos >= g_nin) { static In z; memset(&z, 0, sizeof z); return z; }
    say("BSX-DIVERGED input "); say(full); say(" expected "); say(g_in[g_pos].name); say("\n"); _exit(99); }
  return g_in[g_pos++];
}
extern "C" {
void bsx_sym(void* p, size_t n, const char* name) { if(n == 1 || n == 2 || n == 4 || n == 8) { memcpy(p, next(name).b, n); return; } char b[128]; for(size_t i = 0; i < n; ++i) { snprintf(b, 128, "%s[%zu]", name, i); ((unsigned char*)p)[i] = next(b).b[0]; } }
unsigned bsx_choice(unsigned n, const char* name) { unsigned v; memcpy(&v, next(name).b, 4); if(v >= n) { say("BSX-DIVERGED choice\n"); _exit(99); } return v; }
void bsx_assume(int c) { if(!c) { say("BSX-ASSUME\n"); _exit(98); } }
void bsx_check(int c, const char* m) { if(!c) { say("BSX-FAIL "); say(m); say("\n"); _exit(42); } }
void bsx_cover(unsigned) {}
void bsx_out(uint64_t v) { if(g_trace) { char b[64]; unsigned char* c = (unsigned char*)&v; int k = sprintf(b, "OUT "); for(int i = 0; i < 8; ++i) k += sprintf(b + k, "%02x", c[i]); b[k++] = '\n'; b[k] = 0; say(b); } }
size_t bsx_live(void) { return (size_t)g_live; }
uint64_t bsx_concrete(uint64_t v) { return v; }
void bsx_undef(void* p, size_t n) { memset(p, g_fill, n); }
int bsx_is_symbolic_run(void) { return 0; }
// ---- cooperative threads replaying a recorded schedule
struct Th { ucontext_t c; int status; int join; void (*fn)(void*); void* arg; unsigned long long spin; }; static Th g_th[16]; static int g_nth = 1, g_cur = 0; static unsigned long long g_y = 0, g_hang = 0;
static void sw(int to) { int from = g_cur; g_cur = to; if(from != to) swapcontext(&g_th[from].c, &g_th[to].c); }
static bool follow() { if(g_swp < g_nsw && g_sw[g_swp].y == g_y) { int t = g_sw[g_swp++].t; if(t >= g_nth || g_th[t].status == 1) { say("BSX-DIVERGED sched\n"); _exit(99); } sw(t); return true; } return false; }
static bool rr() { for(int k = 1; k <= g_nth; ++k) { int t = (g_cur + k) % g_nth; if(g_th[t].status == 2 && g_th[g_th[t].join].status == 1) g_th[t].status = 0; if(t != g_cur && g_th[t].status == 0) { sw(t); return true; } } return false; }
static void point(bool relax) { ++g_y; if(follow()) return; if(g_swp >= g_nsw) { if(++g_hang > 3000000ull) { say("BSX-FAIL livelock: no progress under a fair schedule\n"); _exit(42); } if(relax || ++g_th[g_cur].spin > 200) { g_th[g_cur].spin = 0; rr(); } } }
static void entry(int id) { g_th[id].fn(g_th[id].arg); g_th[id].status = 1; ++g_y; for(int i = 0; i < g_nth; ++i) if(g_th[i].status == 2 && g_th[g_th[i].join].status == 1) g_th[i].status = 0; if(!follow()) { if(g_swp < g_nsw || !rr()) { say("BSX-DIVERGED thread end\n"); _exit(99); } } abort(); }
int bsx_spawn(void (*fn)(void*), void* arg) { int id = g_nth++; Th& t = g_th[id]; getcontext(&t.c); size_t S = 1 << 18; t.c.uc_stack.ss_sp = __real_malloc(S); t.c.uc_stack.ss_size = S; t.c.uc_link = 0; t.fn = fn; t.arg = arg; t.status = 0; makecontext(&t.c, (void (*)())entry, 1, id); return id; }
void bsx_join(int id) { while(g_th[id].status != 1) { ++g_y; g_th[g_cur].status = 2; g_th[g_cur].join = id; if(!follow()) { if(g_swp < g_nsw || !rr()) { say("BSX-FAIL deadlock\n"); _exit(42); } } g_th[g_cur].status = 0; } }
void __bsx_yield(void*) { point(false); }
void bsx_relax(void) { point(true); }
void bsx_progress(void) { g_th[g_cur].spin = 0; }
int bsx_tid(void) { return g_cur; }
}
