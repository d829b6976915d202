//BSX property=P29 covers=1,2
//BSX bounds: every kind of delegate, copied, assigned and stored, with symbolic arguments and object state
#include "bsx.h"
#include "bss-util/Delegate.h"
#include "bss-util/Singleton.h"
using namespace bss;
struct B { virtual int vf(int a, short b) { return a - b; } int pad; }; struct C { int k, calls; int add(int a, short b) { ++calls; k += a; return k ^ b; } int cadd(int a, short b) const { return k + 2 * a - b; } virtual ~C() {} virtual int vf(int a, short b) { return a * 2 + b; } };
struct D : B, C { int vf(int a, short b) override { return k + a + 3 * b; } };
static int fr(int a, short b) { return a + 7 * b; } static int fs(C* c, int a, short b) { return c->k - a + b; } static int fsc(const C* c, int a, short b) { return c->k + a + 5 * b; }
static int ncall, sum; static void note(int a, short b) { ++ncall; sum += a - b; } static int ref(int& x, const int& y) { x += y; return x; } static int three(char a, int64_t b, unsigned c) { return (int)(a + b * 3 + c * 5); }
struct S; template<> S* Singleton<S>::_instance; struct S : Singleton<S> { static S* I(); }; template<> S* Singleton<S>::_instance = 0; S* S::I() { return _instance; }
typedef Delegate<int, int, short> DG;
int main() {
  D d; d.k = sym<int>("k"); d.calls = 0; int k0 = d.k, a = sym<int>("a"); short b = sym<short>("b"); std::function<int(int, short)> fn = [&](int x, short y) { return x + y + k0; };
  int kind = bsx_choice(9, "kind"); DG g, e; CHECK(e.IsEmpty()); int want = 0;
  switch(kind) {
  case 0: g = DG::From<C, &C::add>(&d); want = (k0 + a) ^ b; break;
  case 1: g = DG::From<C, &C::cadd>(&d); want = k0 + 2 * a - b; break;
  case 2: g = DG::FromC<&fr>(); want = a + 7 * b; break;
  case 3: g = DG::FromC<C, &fs>(&d); want = k0 - a + b; break;
  case 4: g = DG::FromC<C, &fsc>((const C*)&d); want = k0 + a + 5 * b; break;
  case 5: g = DG(fn); want = a + b + k0; break;
  case 6: g = DG::From<C, &C::vf>(&d); want = k0 + a + 3 * b; break;
  case 7: g = DG::From<B, &B::vf>(&d); want = k0 + a + 3 * b; break;
  case 8: g = DG((void*)&fr, &DG::StubEmbed); want = a + 7 * b; break;
  }
  bool keep = kind != 0; DG c(g); e = c; CHECK(e.RawSource() == g.RawSource()); CHECK(e.RawFunc() == g.RawFunc()); if(kind != 2) CHECK(!e.IsEmpty());
  CHECKM(e(a, b) == want, "calls the bound function on the bound object with the given arguments"); if(kind == 0) { CHECK(d.calls == 1); CHECK(d.k == k0 + a); } else CHECK(d.k == k0); COVER(1);
  if(keep) { StoreDelegate<int, int, short> st(e, (int)a, (short)b); CHECK(st.Call() == want); CHECK(st() == want); }
  { StoreFunction<int, int, short> st(&fr, (int)a, (short)b); CHECK(st() == a + 7 * b); StoreFunction<int, int, short> s2(st); CHECK(s2.Call() == a + 7 * b); }
  { char x = sym<char>("x"); int64_t y = sym<int64_t>("y"); unsigned z = sym<unsigned>("z"); StoreFunction<int, char, int64_t, unsigned> st(&three, (char)x, (int64_t)y, (unsigned)z); CHECK(st() == (int)(x + y * 3 + z * 5)); Delegate<int, char, int64_t, unsigned> t = Delegate<int, char, int64_t, unsigned>::FromC<&three>(); CHECK(t(x, y, z) == (int)(x + y * 3 + z * 5)); }
  { int x = a; Delegate<int, int&, const int&> r = Delegate<int, int&, const int&>::FromC<&ref>(); CHECK(r(x, k0) == a + k0); CHECK(x == a + k0); }
  { auto df = defer(&note, (int)a, (short)b); CHECK(ncall == 0); } CHECKM(ncall == 1, "a deferred call happens once, at the end of the scope"); CHECK(sum == a - b);
  { auto df = defer(Delegate<void, int, short>::FromC<&note>(), (int)a, (short)b); CHECK(ncall == 1); } CHECK(ncall == 2); CHECK(sum == 2 * (a - b));
  { CHECK(S::I() == 0); S* s = new S(); CHECK(S::I() == s); S* t = new S(std::move(*s)); CHECK(S::I() == t); delete s; CHECK(S::I() == t); S u; CHECK(S::I() == &u); *t = std::move(u); CHECK(S::I() == t); delete t; CHECK(S::I() == 0); COVER(2); }
}
