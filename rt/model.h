// Reference models and instrumented element types used by the harnesses (part of the oracle, not of the code under check).
#pragma once
#include "bsx.h"
#include <stdlib.h>
#include <new>
#include <utility>
// Element that owns a heap block: a missing destruction is a leak, a double one a double free, a use of a dead or never built element an invalid access.
struct Own {
  int* p;
  Own() : p((int*)malloc(4)) { *p = 0; }
  Own(int v) : p((int*)malloc(4)) { *p = v; }
  Own(const Own& c) : p((int*)malloc(4)) { *p = *c.p; }
  Own(Own&& m) : p(m.p) { m.p = 0; }
  ~Own() { if(p) free(p); p = (int*)1; }
  Own& operator=(const Own& c) { if(this != &c) { int v = *c.p; if(!p) p = (int*)malloc(4); *p = v; } return *this; }
  Own& operator=(Own&& m) { if(this != &m) { if(p) free(p); p = m.p; m.p = 0; } return *this; }
  int get() const { return *p; }
  bool operator<(const Own& r) const { return *p < *r.p; } bool operator>(const Own& r) const { return *p > *r.p; } bool operator==(const Own& r) const { return *p == *r.p; }
};
// As Own, but it also remembers its address, so that moving it bytewise is noticed.
struct Pin {
  int* p; Pin* self;
  Pin() : p((int*)malloc(4)), self(this) { *p = 0; }
  Pin(int v) : p((int*)malloc(4)), self(this) { *p = v; }
  Pin(const Pin& c) : p((int*)malloc(4)), self(this) { c.ok(); *p = *c.p; }
  Pin(Pin&& m) : p(m.p), self(this) { m.ok(); m.p = 0; }
  ~Pin() { ok(); if(p) free(p); p = (int*)1; self = 0; }
  Pin& operator=(const Pin& c) { ok(); c.ok(); if(this != &c) { int v = *c.p; if(!p) p = (int*)malloc(4); *p = v; } return *this; }
  Pin& operator=(Pin&& m) { ok(); m.ok(); if(this != &m) { if(p) free(p); p = m.p; m.p = 0; } return *this; }
  void ok() const { CHECKM(self == this, "element moved bytewise or used outside its lifetime"); }
  int get() const { ok(); return *p; }
  bool operator<(const Pin& r) const { return get() < r.get(); } bool operator>(const Pin& r) const { return get() > r.get(); } bool operator==(const Pin& r) const { return get() == r.get(); }
};
static inline int getv(int v) { return v; }
static inline int getv(const Own& v) { return v.get(); }
static inline int getv(const Pin& v) { return v.get(); }
// bounded reference sequence
template<class T, int N> struct Seq {
  T a[N]; int n = 0;
  void insert(int i, T v) { for(int k = n; k > i; --k) a[k] = a[k - 1]; a[i] = v; ++n; }
  void remove(int i) { for(int k = i; k + 1 < n; ++k) a[k] = a[k + 1]; --n; }
  void add(T v) { a[n++] = v; }
  T& operator[](int i) { return a[i]; }
};
