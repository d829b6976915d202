//BSX property=P29 covers=1,2,3 def.quick=OPS=3,NV=2 def.thorough=OPS=3,NV=3
//BSX bounds: every sequence of OPS operations on NV variants over four alternatives (byte, owning, address-sensitive, 16-byte aligned), all values
#include "bsx.h"
#include "model.h"
#include "bss-util/bss_util.h"
#include "bss-util/Variant.h"
using namespace bss;
struct alignas(16) Al { double d[2]; }; // needs 16-byte alignment
typedef Variant<signed char, Own, Pin, Al> V;
struct Mo { int tag; int v; bool moved; }; static V* x[NV]; static Mo m[NV];
static void chk(V& v, const Mo& k) {
  CHECKM(v.tag() == k.tag, "remembers which alternative it holds"); CHECK(v.is<signed char>() == (k.tag == 0)); CHECK(v.is<Own>() == (k.tag == 1)); CHECK(v.is<Pin>() == (k.tag == 2)); CHECK(v.is<Al>() == (k.tag == 3)); const V& c = v;
  if(k.tag == 0) { CHECK(v.get<signed char>() == (signed char)k.v); CHECK(c.get<signed char>() == (signed char)k.v); }
  if(k.tag == 1) { if(k.moved) CHECK(v.get<Own>().p == 0); else { CHECK(v.get<Own>().get() == k.v); CHECK(c.get<Own>().get() == k.v); } }
  if(k.tag == 2) { v.get<Pin>().ok(); if(k.moved) CHECK(v.get<Pin>().p == 0); else CHECK(v.get<Pin>().get() == k.v); }
  if(k.tag == 3) { CHECKM((uintptr_t)&v.get<Al>() % alignof(Al) == 0, "storage is aligned for every alternative"); CHECK(v.get<Al>().d[0] == 1.5); CHECK(v.get<Al>().d[1] == (double)(k.v & 1)); }
}
static void verify() { for(int i = 0; i < NV; ++i) chk(*x[i], m[i]); }
static Al al(int v) { Al a; a.d[0] = 1.5; a.d[1] = (v & 1) ? 1.0 : 0.0; return a; }
static bool bad(int j) { return m[j].moved; } // do not read moved-from values
int main() {
  size_t l0 = bsx_live(); CHECK(V::contains<Own>()); CHECK(!V::contains<double>()); CHECK(V::type<Pin>() == 2); CHECK(V::type<double>() == -1); CHECK(V::Type<Al>::value == 3);
  for(int i = 0; i < NV; ++i) { int v = sym<int>("v"); int t = bsx_choice(i == 0 ? 5 : 2, "init"); m[i] = { t - 1, v, false }; if(i) m[i].tag = t ? 2 : -1;
    switch(m[i].tag) { case -1: x[i] = new V(); break; case 0: x[i] = new V((signed char)v); break; case 1: { Own e(v); x[i] = new V(e); } break; case 2: x[i] = new V(Pin(v)); break; case 3: { const Al e = al(v); x[i] = new V(e); } break; } }
  verify();
  for(int s = 0; s < OPS; ++s) {
    int a = bsx_choice(NV, "a");
    switch(bsx_choice(6, "op")) {
    case 0: { int v = sym<int>("v"), t = bsx_choice(4, "t"); bool rv = bsx_choice(2, "rv"); m[a] = { t, v, false }; switch(t) { case 0: { signed char c = (signed char)v; if(rv) *x[a] = (signed char)v; else *x[a] = c; } break; case 1: { Own e(v); if(rv) *x[a] = std::move(e); else *x[a] = e; } break; case 2: { Pin e(v); if(rv) *x[a] = std::move(e); else *x[a] = e; } break; case 3: { const Al e = al(v); if(rv) *x[a] = al(v); else *x[a] = e; } break; } COVER(1); } break;
    case 1: { int b = bsx_choice(NV, "b"); ASSUME(!bad(b)); m[a] = m[b]; if(bsx_choice(2, "c")) { const V& c = *x[b]; *x[a] = c; } else *x[a] = *x[b]; COVER(2); } break;
    case 2: { int b = bsx_choice(NV, "b"); ASSUME(!bad(b)); if(a != b) { m[a] = m[b]; if(m[b].tag == 1 || m[b].tag == 2) m[b].moved = true; } *x[a] = std::move(*x[b]); COVER(3); } break;
    case 3: { int b = bsx_choice(NV, "b"); ASSUME(!bad(b) && a != b); delete x[a]; m[a] = m[b]; switch(bsx_choice(3, "k")) { case 0: { const V& c = *x[b]; x[a] = new V(c); } break; case 1: x[a] = new V(*x[b]); break; case 2: x[a] = new V(std::move(*x[b])); if(m[b].tag == 1 || m[b].tag == 2) m[b].moved = true; break; } } break;
    case 4: { switch(bsx_choice(2, "t")) { case 0: x[a]->typeset<Own>(); m[a] = { 1, 0, false }; break; case 1: x[a]->typeset<Pin>(); m[a] = { 2, 0, false }; break; } } break;
    case 5: { int b = bsx_choice(NV, "b"); if(bad(b) || m[b].tag != 1 || a == b) ASSUME(0); m[a] = m[b]; *x[a] = x[b]->get<Own>(); } break;
    }
    verify();
  }
  for(int i = 0; i < NV; ++i) delete x[i]; CHECKM(bsx_live() == l0, "everything destroyed once");
  { typedef Variant<double, int, signed char> N; int v = sym<int>("n"); N n(v); struct P0 { int a; }; struct P1 : P0 { int b; }; struct P2 { int z; }; struct P3 : P2, P0 {}; Variant<P1, P3> pv; pv.typeset<P3>(); CHECK(pv.convertP<P0>() == static_cast<P0*>(&pv.get<P3>())); pv.typeset<P1>(); CHECK(pv.convertP<P0>() == static_cast<P0*>(&pv.get<P1>())); CHECK(n.convert<int64_t>() == (int64_t)v); CHECK(n.convert<signed char>() == (signed char)v); n = (signed char)v; CHECK(n.convert<int>() == (int)(signed char)v); n = 5.75; CHECK(n.convert<int>() == 5); CHECK(n.convert<double>() == 5.75); CHECK((uintptr_t)&n.get<double>() % alignof(double) == 0); }
}
