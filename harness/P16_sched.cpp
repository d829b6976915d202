//BSX property=P16 covers=1,2,3 sources=HighPrecisionTimer.cpp def.quick=EV=2,UPD=2 def.thorough=EV=3,UPD=2
//BSX bounds: up to EV scheduled events with any due times out of 0 to 3 ms, each returning 0, a later time or adding another event, UPD updates with the clock advancing 0 to 2 ms or stepping back
#include "bsx.h"
#include "bss-util/Scheduler.h"
#include <functional>
#include <limits>
using namespace bss;
static long long nowns = 5000000000ll;
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = nowns / 1000000000; t->tv_nsec = nowns % 1000000000; return 0; }
struct S : Scheduler<std::function<double()>> { double now() const { return _time; } };
static S* s; static int runs[16], due[16], ret[16], nev, last, tms; static bool bad;
static void add(int t, int kind);
static double fire(int k, int kind) { ++runs[k]; if(due[k] > tms || due[k] < last) bad = true; last = due[k]; int r = 0; if(kind == 1) r = ret[k]; if(kind == 2) add(ret[k], 0); if(r) { due[k] = tms + r; if(due[k] <= tms) bad = true; } else due[k] = -1; return (double)r; }
static void add(int t, int kind) { int k = nev++; runs[k] = 0; due[k] = tms + t; ret[k] = kind == 1 ? 1 : 0; if(s->Length() & 1) { std::function<double()> f = [k, kind]() { return fire(k, kind); }; s->Add((double)t, f); } else s->Add((double)t, [k, kind]() { return fire(k, kind); }); }
int main() {
  size_t l0 = bsx_live(); s = new S(); long long start = nowns; s->Update(); CHECK(s->now() == 0.0); CHECK(s->Length() == 0);
  for(int u = 0; u < UPD; ++u) {
    int n = bsx_choice(u == 0 ? EV + 1 : 2, "n"); for(int i = 0; i < n; ++i) { int t = bsx_choice(4, "t"); int kind = bsx_choice(3, "kind"); add(t, kind); }
    int adv = bsx_choice(4, "adv"); if(adv == 3) { nowns -= 500000; } else { nowns += adv * 1000000; tms += adv; } last = -1; bad = false; int r0[16]; for(int i = 0; i < nev; ++i) r0[i] = runs[i];
    int nb = nev; s->Update(); if(adv == 3) nowns += 500000; CHECKM(s->now() == (double)tms, "time passes with the clock and never backwards"); CHECKM(!bad, "events fire when due, in order of due time");
    int left = 0; for(int i = 0; i < nev; ++i) { if(due[i] >= 0) { CHECKM(due[i] > tms, "nothing due is left waiting"); ++left; } CHECKM(runs[i] - (i < nb ? r0[i] : 0) <= 1, "an event fires once per due time"); if(due[i] < 0) COVER(1); } CHECKM(s->Length() == (size_t)left, "finished events are gone"); if(left) COVER(2); if(!left && nev) COVER(3);
  }
  { HighPrecisionTimer t; long long c = nowns; CHECK(t.GetTimeNS() == 0); CHECK(t.GetDelta() == 0.0); int w = bsx_choice(4, "warp"); nowns += 3000000; double warp = w == 0 ? 1.0 : w == 1 ? 0.5 : w == 2 ? 2.0 : std::numeric_limits<double>::infinity(); unsigned long long ex = w == 0 ? 3000000 : w == 1 ? 6000000 : w == 2 ? 1500000 : 0;
    double d = t.Update(warp); CHECK(d == t.GetDelta()); CHECKM(t.GetDeltaNS() == ex && t.GetDelta() == ex / 1000000.0, "warped time step"); CHECK(t.GetTimeNS() == ex); CHECK(t.GetTime() == ex / 1000000.0); nowns -= 1000; t.Update(); CHECKM(t.GetDeltaNS() == 0 && t.GetTimeNS() == ex, "time never runs backwards"); nowns += 1000;
    nowns += 2000; HighPrecisionTimer t2(t); t.Override((uint64_t)77); CHECK(t.GetTimeNS() == ex + 77); CHECK(t.GetDeltaNS() == 77); nowns += 5; t.Update(); CHECK(t.GetDeltaNS() == 5); CHECK(t.GetTimeNS() == ex + 82); t.ResetTime(); CHECK(t.GetTimeNS() == 0); CHECK(t.GetTime() == 0.0); CHECK(t.GetDeltaNS() == 5); t2.Update(); CHECK(t2.GetDeltaNS() == 2005); nowns += 9; t2.ResetDelta(); CHECK(t2.GetDeltaNS() == 0); nowns += 4; t2.Update(); CHECK(t2.GetDeltaNS() == 4); t2.Override(0.25); CHECK(t2.GetDeltaNS() == 250000); CHECK(t2.GetDelta() == 0.25); unsigned long long pr = HighPrecisionTimer::OpenProfiler(); nowns += 31; CHECK(HighPrecisionTimer::CloseProfiler(pr) == 31); CHECK(HighPrecisionTimer::NanosecondDiff(3000000000ull, 1000000000ull) == 2.0); }
  delete s; CHECKM(bsx_live() == l0, "everything released");
}
