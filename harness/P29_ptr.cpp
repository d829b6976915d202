//BSX property=P29 covers=1,2,3 variants=0,1 def.quick=OPS=5 def.thorough=OPS=6
//BSX bounds: every sequence of OPS operations over three pointers and three objects (copy, move and raw assignment including to itself, construction, release, following a link of the object just released)
#include "bsx.h"
#include "bss-util/RefCounter.h"
#include "bss-util/SmartPtr.h"
using namespace bss;
static int dead[3], born[3]; static const int NP = 3, NO = 3; static int used; static int pk(const char* n) { int c = used < NP ? used + 1 : NP, r = bsx_choice(c, n); if(r >= used) used = r + 1; return r; } // pointers not used yet are interchangeable
#if VARIANT == 0
struct Node : RefCounter { int id; ref_ptr<Node> next; Node(int i) : id(i) { ++born[i]; } ~Node() { ++dead[id]; } int refs() const { return _refs; } };
typedef ref_ptr<Node> P;
static P* p[NP]; static int m[NP], link[NO]; static Node* o[NO];
static int want(int k) { int c = 0; for(int i = 0; i < NP; ++i) if(p[i] && m[i] == k) ++c; for(int i = 0; i < NO; ++i) if(o[i] && link[i] == k) ++c; return c; }
static void settle() { for(int r = 0; r < NO; ++r) for(int k = 0; k < NO; ++k) if(o[k] && want(k) == 0) { o[k] = 0; link[k] = -1; } } // objects nobody refers to are gone
static void verify() {
  settle();
  for(int k = 0; k < NO; ++k) { CHECKM(dead[k] == born[k] - (o[k] ? 1 : 0), "an object lives exactly while referenced, and dies once"); if(o[k]) { CHECKM(o[k]->refs() == want(k), "reference count equals the number of references"); Node* nx = o[k]->next; CHECK(nx == (link[k] < 0 ? (Node*)0 : o[link[k]])); } }
  for(int i = 0; i < NP; ++i) if(p[i]) { const Node* w = m[i] < 0 ? (Node*)0 : o[m[i]]; CHECKM(*p[i] == w, "pointer refers to what was assigned"); CHECK(!(*p[i] != w)); CHECK(!*p[i] == (w == 0)); if(w) { CHECK((*p[i])->id == m[i]); CHECK((**p[i]).id == m[i]); const P& c = *p[i]; CHECK(c->id == m[i]); const Node* cn = c; CHECK(cn == w); } }
}
static Node* mk(int k) { if(!o[k]) { o[k] = new Node(k); link[k] = -1; } return o[k]; }
int main() {
  size_t l0 = bsx_live(); for(int i = 0; i < NP; ++i) { p[i] = new P(); m[i] = -1; } for(int k = 0; k < NO; ++k) link[k] = -1;
  for(int s = 0; s < OPS; ++s) {
    int a = pk("a");
    switch(bsx_choice(7, "op")) {
    case 0: { static int uo; int k = bsx_choice(uo < NO ? uo + 1 : NO, "o"); if(k >= uo) uo = k + 1; Node* n = mk(k); m[a] = k; *p[a] = n; } break; // raw pointer, possibly the one already held
    case 1: { int b = pk("b"); ASSUME(m[a] >= 0 || m[b] >= 0); m[a] = m[b]; *p[a] = *p[b]; COVER(1); } break;
    case 2: { int b = pk("b"); ASSUME(m[a] >= 0 || m[b] >= 0); if(a != b) { m[a] = m[b]; m[b] = -1; } *p[a] = std::move(*p[b]); } break;
    case 3: ASSUME(m[a] >= 0); m[a] = -1; *p[a] = (Node*)0; break;
    case 4: { int b = pk("b"); ASSUME(m[b] >= 0); if(a == b) { P t(*p[a]); CHECK(m[a] < 0 || t->refs() == want(m[a]) + 1); } else { delete p[a]; if(bsx_choice(2, "mv")) { m[a] = m[b]; m[b] = -1; p[a] = new P(std::move(*p[b])); } else { m[a] = m[b]; p[a] = new P(*p[b]); } } } break;
    case 5: { int k = m[a], b = pk("b"); if(k < 0 || m[b] <= k) ASSUME(0); link[k] = m[b]; o[k]->next = *p[b]; COVER(2); } break; // links only go up, so no cycles
    case 6: { int k = m[a]; if(k < 0) ASSUME(0); m[a] = link[k]; if(bsx_choice(2, "mv")) { Node* old = o[k]; link[k] = -1; *p[a] = std::move(old->next); } else *p[a] = o[k]->next; COVER(3); } break; // step along the list: the old head may die
    }
    verify();
  }
  for(int i = 0; i < NP; ++i) { delete p[i]; p[i] = 0; m[i] = -1; verify(); } for(int k = 0; k < NO; ++k) CHECK(dead[k] == born[k]);
  { Node* n = new Node(0); CHECK(n->Grab() == 1); CHECK(n->Grab(2) == 3); Node c(*n); CHECK(c.refs() == 0); c = *n; CHECK(c.refs() == 0); ++born[0]; CHECK(n->Drop() == 2); CHECK(n->Drop() == 1); int d = dead[0]; CHECK(n->Drop() == 0); CHECK(dead[0] == d + 1); }
  CHECKM(bsx_live() == l0, "all released");
}
#else
struct Obj { int id; Obj(int i) : id(i) { ++born[i]; } ~Obj() { ++dead[id]; } };
struct Del { void operator()(Obj* x) const { CHECKM(x == 0 || dead[x->id] == 0, "deleted once"); delete x; } };
typedef OwnerPtr<Obj, Del> P; static P* p[NP]; static int m[NP]; static bool own[NP]; static Obj* o[NO];
static bool safe(int a) { if(!own[a]) return true; for(int i = 0; i < NP; ++i) if(i != a && m[i] == m[a]) return false; return true; } // aliases of an owned object must be gone before the owner lets go
static void drop(int a) { if(own[a]) o[m[a]] = 0; own[a] = false; m[a] = -1; }
static void verify() {
  for(int k = 0; k < NO; ++k) { bool ow = false; for(int i = 0; i < NP; ++i) if(m[i] == k && own[i]) ow = true; if(born[k]) { CHECKM(dead[k] == (o[k] ? 0 : 1), "deleted exactly when its owner lets go"); CHECK(!o[k] || ow); } }
  for(int i = 0; i < NP; ++i) { const Obj* w = m[i] == -1 ? 0 : o[m[i]]; CHECKM(*p[i] == w, "points where assigned"); CHECK(!*p[i] == (w == 0)); CHECK(!(*p[i] != w)); const P& c = *p[i]; const Obj* cw = c; CHECK(cw == w); if(w) { CHECK((*p[i])->id == m[i]); CHECK((**p[i]).id == m[i]); } for(int j = 0; j < NP; ++j) CHECK((*p[i] == *p[j]) == (m[i] == m[j])); }
}
int main() {
  size_t l0 = bsx_live(); int nx = 0; for(int i = 0; i < NP; ++i) { p[i] = new P(); m[i] = -1; }
  for(int s = 0; s < OPS; ++s) {
    int a = pk("a");
    switch(bsx_choice(6, "op")) {
    case 0: ASSUME(nx < NO && safe(a)); { drop(a); Obj* n = new Obj(nx); if(bsx_choice(2, "ctor")) { delete p[a]; p[a] = new P(n); } else *p[a] = n; o[nx] = n; m[a] = nx++; own[a] = true; } break;
    case 1: { int b = pk("b"); ASSUME(m[a] >= 0 || m[b] >= 0); if(a != b && !safe(a)) ASSUME(0); if(a != b) { drop(a); m[a] = m[b]; } *p[a] = *p[b]; COVER(1); } break; // a copy only refers; copying onto itself changes nothing
    case 2: { int b = pk("b"); ASSUME(m[a] >= 0 || m[b] >= 0); if(a != b && !safe(a)) ASSUME(0); if(a != b) { drop(a); m[a] = m[b]; own[a] = own[b]; own[b] = false; } *p[a] = std::move(*p[b]); COVER(2); } break; // a move takes over ownership if there is any
    case 3: { int b = pk("b"); ASSUME(m[b] >= 0); if(a == b || !safe(a)) ASSUME(0); drop(a); delete p[a]; m[a] = m[b]; if(bsx_choice(2, "mv")) { own[a] = own[b]; own[b] = false; p[a] = new P(std::move(*p[b])); } else p[a] = new P(*p[b]); } break;
    case 4: { int b = pk("b"); if(a == b || m[b] < 0 || !safe(a)) ASSUME(0); drop(a); m[a] = m[b]; *p[a] = **p[b]; COVER(3); } break; // refer to an object without owning it
    case 5: ASSUME(safe(a) && m[a] >= 0); { drop(a); *p[a] = (Obj*)0; } break;
    }
    verify();
  }
  for(int i = 0; i < NP; ++i) if(!own[i]) { m[i] = -1; delete p[i]; p[i] = 0; } for(int i = 0; i < NP; ++i) if(p[i]) { drop(i); delete p[i]; } for(int k = 0; k < nx; ++k) CHECK(dead[k] == 1);
  CHECKM(bsx_live() == l0, "all released");
}
#endif
