//BSX property=P21 covers=1 variants=0,1,2,3,4,5 shim=1 sources=XML.cpp,ConvertUTF.c,bss_util_c.c def.quick=NBY=4,OPS=4,NTX=2,DOC=2 def.thorough=NBY=5,OPS=5,NTX=3,DOC=3
//BSX bounds: records with one field of each kind, plain and pretty (one-byte integers of every value, wider ones within 12 of 0 and of the limits of their width, 8 floating-point values of at most six digits, text of up to NTX arbitrary non-zero bytes), arrays of up to 2 elements; documents of up to DOC nodes with one symbolic text or attribute; all sequences of OPS additions, removals, copies and assignments of nodes and attributes over two names; every document of up to NBY bytes over the markup characters; numeric readings of attributes and texts of 12 forms with a symbolic digit, attributes given once or twice
#include "bsx.h"
#include "bss-util/XML.h"
using namespace bss;
enum E16 : short { E16A = 1 };
template<class V> struct Rec { V v; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<Rec>(GenPair("v", v), GenPair("after", after)); } };
struct In { short a; Str s; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<In>(GenPair("a", a), GenPair("s", s)); } };
static bool once; // one text of an array is symbolic, the others are fixed
static Str text(unsigned n) { Str s; for(unsigned i = 0; i < n; ++i) { char c = sym<char>("t"); ASSUME(c != 0); s += c; } return s; }
template<class V> static bool eq(const V& a, const V& b) { return !memcmp(&a, &b, sizeof(V)); }
static bool eq(const Str& a, const Str& b) { if(a.size() != b.size()) return false; bool r = true; for(size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static bool eq(const In& a, const In& b) { return a.a == b.a && eq(a.s, b.s); }
template<class V> static std::string ser(const V& r) { std::ostringstream o; { Serializer<XMLEngine> s; s.engine.pretty = bsx_choice(2, "pretty") != 0; s.template Serialize<V>(r, o, "rec"); } return o.str(); }
template<class V> static void par(V& r, const std::string& b) { std::istringstream i(b); Serializer<XMLEngine> s; s.template Parse<V>(r, i, "rec"); }
template<class V> static void one(const V& v, V init)
{
  Rec<V> a{ v, 77 }; std::string b = ser(a); Rec<V> c{ init, 0 }; par(c, b);
  CHECKM(eq(c.v, v), "a value comes back as it was written"); CHECKM(c.after == 77, "the field after it comes back"); bsx_out(b.size());
}
template<class V> static void num() { V v = sym<V>("v"); one<V>(v, (V)0); }
template<class V> static void wide() { typedef std::numeric_limits<V> L; signed char d = sym<signed char>("d"); ASSUME((d >= -3) & (d <= 12)); V v; switch(bsx_choice(3, "base")) { case 0: v = (V)d; break; case 1: ASSUME(d >= 0); v = L::min() + (V)d; break; default: ASSUME(d >= 0); v = L::max() - (V)d; break; } one<V>(v, (V)0); }
static const double DB[8] = { 0.0, 1.0, -1.5, 0.25, 1e6, 1e-5, 123456.0, -3.25e10 };
static void fields()
{
  switch(bsx_choice(14, "type"))
  {
  case 0: num<char>(); break; case 1: num<unsigned char>(); break; case 2: wide<short>(); break; case 3: wide<unsigned short>(); break;
  case 4: wide<int>(); break; case 5: wide<unsigned int>(); break; case 6: wide<int64_t>(); break; case 7: wide<uint64_t>(); break;
  case 8: { double v = DB[bsx_choice(8, "v")]; one<double>(v, 3.0); break; }
  case 9: { float v = (float)DB[bsx_choice(8, "v")]; one<float>(v, 3.0f); break; }
  case 10: { bool v = bsx_choice(2, "b") != 0; one<bool>(v, !v); break; }
  case 11: { unsigned n = bsx_choice(NTX + 1, "n"); one<Str>(text(n), Str("zz")); break; }
  case 12: { E16 v = (E16)(sym<signed char>("v") & 31); one<E16>(v, (E16)0); break; }
  case 13: { signed char a = sym<signed char>("a"); ASSUME((a >= -2) & (a <= 11)); In v{ a, text(bsx_choice(2, "n")) }; one<In>(v, In{ 0, Str() }); break; }
  }
}
template<class V> struct Mk { static V v() { signed char d = sym<signed char>("v"); ASSUME((d >= -2) & (d <= 11)); return (V)d; } };
template<> struct Mk<bool> { static bool v() { return bsx_choice(2, "v") != 0; } };
template<> struct Mk<double> { static double v() { return DB[bsx_choice(4, "v")]; } };
template<> struct Mk<Str> { static Str v() { if(once) return Str("<&"); once = true; return text(bsx_choice(2, "n")); } };
template<> struct Mk<In> { static In v() { short a = (short)(sym<signed char>("a") & 3); if(once) return In{ a, Str("<&") }; once = true; return In{ a, text(bsx_choice(2, "n")) }; } };
template<class V> static void vec() { unsigned n = bsx_choice(3, "len"); Rec<std::vector<V>> a; a.after = 9; for(unsigned i = 0; i < n; ++i) a.v.push_back(Mk<V>::v()); Rec<std::vector<V>> c; c.after = 0; par(c, ser(a)); CHECKM(c.v.size() == n, "an array keeps its length"); for(unsigned i = 0; i < n; ++i) CHECKM(eq(V(c.v[i]), V(a.v[i])), "an array keeps its elements"); CHECK(c.after == 9); }
template<class V, ARRAY_TYPE K> static void dyn() { unsigned n = bsx_choice(3, "len"); Rec<DynArray<V, size_t, K>> a; a.after = 9; for(unsigned i = 0; i < n; ++i) a.v.Add(Mk<V>::v()); Rec<DynArray<V, size_t, K>> c; c.after = 0; par(c, ser(a)); CHECKM(c.v.Length() == n, "an array keeps its length"); for(unsigned i = 0; i < n; ++i) { V x = c.v[i], y = a.v[i]; CHECKM(eq(x, y), "an array keeps its elements"); } CHECK(c.after == 9); }
template<class V> struct RA { V v[2]; std::array<V, 2> w; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<RA>(GenPair("v", v), GenPair("w", w), GenPair("after", after)); } };
template<class V> static void fix() { RA<V> a, c; for(int i = 0; i < 2; ++i) { a.v[i] = Mk<V>::v(); c.v[i] = V(); } for(int i = 0; i < 2; ++i) { a.w[i] = (V)(i + 1); c.w[i] = V(); } a.after = 3; c.after = 0; par(c, ser(a)); for(int i = 0; i < 2; ++i) CHECK(eq(c.v[i], a.v[i])); for(int i = 0; i < 2; ++i) CHECK(eq(c.w[i], a.w[i])); CHECK(c.after == 3); }
struct New { int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<New>(GenPair("after", after)); } };
static void arrays()
{
  switch(bsx_choice(11, "type"))
  {
  case 0: vec<char>(); break; case 1: vec<unsigned short>(); break; case 2: vec<double>(); break; case 3: vec<Str>(); break; case 4: vec<In>(); break;
  case 5: dyn<unsigned char, ARRAY_SIMPLE>(); break; case 6: dyn<bool, ARRAY_SIMPLE>(); break; case 7: dyn<Str, ARRAY_SAFE>(); break;
  case 8: fix<short>(); break;
  case 9: { typedef std::tuple<short, Str, double> TU; Rec<TU> a, c; short q = (short)(sym<signed char>("q") & 15); double d = DB[bsx_choice(3, "d")]; a.v = TU(q, text(bsx_choice(2, "n")), d); a.after = 4; c.after = 0; c.v = TU(0, Str(), 0.0); par(c, ser(a)); CHECK(std::get<0>(c.v) == q); CHECK(eq(std::get<1>(c.v), std::get<1>(a.v))); CHECK(eq(std::get<2>(c.v), d)); CHECK(c.after == 4); break; }
  case 10: { Rec<std::vector<In>> a; a.after = 21; unsigned n = bsx_choice(3, "n"); for(unsigned i = 0; i < n; ++i) a.v.push_back(In{ 5, i ? Str(">") : text(1) }); New w; w.after = 0; par(w, ser(a)); CHECKM(w.after == 21, "a field nobody asked for is skipped"); break; }
  }
}
// documents
static const char* NM[3] = { "a", "b", "c" }; static int budget; static bool used;
static Str some() { if(used) { return bsx_choice(2, "lit") ? Str("x\"") : Str(" "); } used = true; return text(bsx_choice(2, "n")); }
static void build(XMLNode* n, int depth)
{
  unsigned k = bsx_choice(4, "what");
  if(k & 1) { XMLValue* v = n->AddAttribute("k"); v->String = some(); if(depth == 0) n->AddAttribute("l")->String = "z"; }
  if(k & 2) { Str s = some(); n->SetValue(s.c_str()); }
  if(depth < 2) for(unsigned c = bsx_choice(budget < 2 ? budget + 1 : 3, "children"); c > 0 && budget > 0; --c) { --budget; build(n->AddNode(NM[bsx_choice(2, "name")]), depth + 1); }
}
static bool blank(const Str& s) { for(char c : s) if(!(c > 0 && c <= 32)) return false; return true; }
static void same(const XMLNode* a, const XMLNode* b, bool root, bool pretty)
{
  CHECKM(!strcmp(a->GetName(), b->GetName()) || root, "a node keeps its name"); CHECKM(a->GetAttributes() == b->GetAttributes(), "a node keeps its attributes"); CHECKM(a->GetNodes() == b->GetNodes(), "a node keeps its children");
  for(size_t i = 0; i < a->GetAttributes(); ++i) { CHECK(eq(a->GetAttribute(i)->Name, b->GetAttribute(i)->Name)); CHECKM(eq(a->GetAttribute(i)->String, b->GetAttribute(i)->String), "an attribute keeps its value"); CHECK(b->GetAttribute(b->GetAttribute(i)->Name.c_str()) == b->GetAttribute(i)); }
  if(!root) { if(!a->GetNodes()) CHECKM(eq(a->GetValue().String, b->GetValue().String), "a leaf keeps its text"); else if(!pretty && !blank(a->GetValue().String)) CHECKM(eq(a->GetValue().String, b->GetValue().String), "a node keeps its text"); }
  for(size_t i = 0; i < a->GetNodes(); ++i) same(a->GetNode(i), b->GetNode(i), false, pretty);
}
static void docs()
{
  XMLFile f; budget = DOC; used = false; if(bsx_choice(2, "decl")) f.AddAttribute("version")->String = "1.0"; { --budget; build(f.AddNode("r"), 0); }
  switch(bsx_choice(3, "how"))
  {
  case 2: { XMLFile g(f); same(&f, &g, false, false); f.GetNode((size_t)0)->AddNode("zz"); CHECK(g.GetNode((size_t)0)->GetNodes() + 1 == f.GetNode((size_t)0)->GetNodes()); XMLFile h; h.AddNode("old"); h = g; same(&g, &h, false, false); h = h; same(&g, &h, false, false); XMLFile m(std::move(h)); same(&g, &m, false, false); break; }
  case 0: { std::ostringstream o; f.Write(o, false); std::istringstream i(o.str()); XMLFile g(i); same(&f, &g, true, false); bsx_out(o.str().size()); break; }
  case 1: { std::ostringstream o; f.Write(o, true); XMLFile g(o.str().c_str()); same(&f, &g, true, true); break; }
  }
}
// histories of additions and removals
struct M { int name, id; }; 
static void check(XMLNode& n, std::vector<M>& m, std::vector<M>& at)
{
  CHECKM(n.GetNodes() == m.size(), "the children are those added and not removed"); for(size_t i = 0; i < m.size(); ++i) { CHECK(!strcmp(n.GetNode(i)->GetName(), NM[m[i].name])); CHECKM(n.GetNode(i)->GetValue().Integer == m[i].id, "the children keep their order"); }
  for(int k = 0; k < 3; ++k)
  {
    const XMLNode* p = n.GetNode(NM[k]); for(size_t i = m.size(); i-- > 0;) if(m[i].name == k) { CHECKM(p && p == n.GetNode(i), "a child is found by its name, the newest first"); p = p->next; } CHECKM(!p, "a removed child is not found");
    const XMLValue* a = n.GetAttribute(NM[k]); bool f = false; for(size_t i = 0; i < at.size(); ++i) if(at[i].name == k) { f = true; CHECKM(a && a == n.GetAttribute(i) && a->Integer == at[i].id, "an attribute is found by its name"); } CHECKM(f == (a != 0), "a removed attribute is not found");
  }
  CHECK(n.GetAttributes() == at.size());
}
static void dom()
{
  XMLNode* n = new XMLNode(); std::vector<M> m, at; int id = 1;
  for(int i = 0; i < OPS; ++i)
  {
    switch(bsx_choice(7, "op"))
    {
    case 0: { int k = (int)bsx_choice(2, "nm"); XMLNode* c = n->AddNode(NM[k]); c->SetValue((int64_t)id); m.push_back(M{ k, id++ }); break; }
    case 1: { if(m.empty()) ASSUME(0); size_t k = bsx_choice((unsigned)m.size(), "ix"); CHECK(n->RemoveNode(k)); m.erase(m.begin() + k); break; }
    case 2: { int k = (int)bsx_choice(3, "nm"); bool f = false; for(size_t j = m.size(); j-- > 0;) if(m[j].name == k) { m.erase(m.begin() + j); f = true; break; } CHECKM(n->RemoveNode(NM[k]) == f, "removal by name tells whether there was one"); break; }
    case 3: { int k = (int)bsx_choice(3, "nm"); XMLValue* v = n->AddAttribute(NM[k]); v->Integer = id; bool f = false; for(auto& x : at) if(x.name == k) { x.id = id; f = true; } if(!f) at.push_back(M{ k, id }); ++id; break; }
    case 4: { if(at.empty()) ASSUME(0); size_t k = bsx_choice((unsigned)at.size(), "ix"); CHECK(n->RemoveAttribute(k)); at.erase(at.begin() + k); break; }
    case 5: { int k = (int)bsx_choice(2, "nm"); bool f = false; for(size_t j = 0; j < at.size(); ++j) if(at[j].name == k) { at.erase(at.begin() + j); f = true; break; } CHECK(n->RemoveAttribute(NM[k]) == f); break; }
    case 6: switch(bsx_choice(4, "how")) { case 0: { XMLNode* o = n; n = new XMLNode(*o); delete o; break; } case 1: { XMLNode* o = n; n = new XMLNode(std::move(*o)); delete o; break; } case 2: { XMLNode& s = *n; *n = s; break; } case 3: n->Clear(); m.clear(); at.clear(); break; } break;
    }
    check(*n, m, at);
  }
  delete n;
}
static const char* NF[12] = { "0", "1", "-7", "12@", "0x1@", "-@", "3.5", "-0.2@", "true", "false", "@x", "" };
static void reads(const XMLValue& v, int f, char d) {
  int n = d - '0'; int64_t in[12] = { 0, 1, -7, 120 + n, 16 + n, -n, 3, 0, 1, 0, n, 0 }; double fl[12] = { 0, 1, -7, 120.0 + n, 16.0 + n, (double)-n, 3.5, -0.2 - n * 0.01, 0, 0, (double)n, 0 };
  if(f != 10) CHECKM(v.Integer == in[f], "the integer reading is that of the text"); if(f < 8) { double df = v.Float - fl[f]; CHECKM(df < 1e-9 && df > -1e-9, "the floating-point reading is that of the text"); } CHECK((int)v == (int)v.Integer && (double)v == v.Float && (bool)v == (v.Integer != 0) && (uint8_t)v == (uint8_t)v.Integer);
}
static Str form(int f, char d) { Str r; for(const char* p = NF[f]; *p; ++p) r += *p == '@' ? d : *p; return r; }
static void nums()
{
  int f = (int)bsx_choice(12, "form"), g = (int)bsx_choice(12, "form2"); char d = (char)('0' + bsx_choice(2, "d") * 8), e = (char)('1' + bsx_choice(2, "d2")); Str s = form(f, d), t = form(g, e);
  switch(bsx_choice(5, "how"))
  {
  case 0: { Str doc = "<a x=\""; doc += s; doc += "\" y=\"5\" x=\""; doc += t; doc += "\"/>"; XMLFile x(doc.c_str()); const XMLNode* n = x.GetNode("a"); CHECK(n && n->GetAttributes() == 2); const XMLValue* v = n->GetAttribute("x"); CHECKM(v && eq(v->String, t), "the last value of an attribute counts"); reads(*v, g, e); CHECK(n->GetAttributeInt("y") == 5 && n->GetAttributeFloat("y") == 5.0 && !strcmp(n->GetAttributeString("y"), "5")); CHECK(n->GetAttributeInt("x") == v->Integer && (*n)("x") == v && !n->GetAttributeString("z")); break; }
  case 1: { Str doc = "<a x=\""; doc += s; doc += "\">"; doc += t; doc += "</a>"; XMLFile x(doc.c_str()); const XMLNode* n = x.GetNode("a"); CHECK(n && x["a"] == n && x[(size_t)0] == n); CHECK(eq(n->GetValue().String, t)); reads(n->GetValue(), g, e); reads(*n->GetAttribute("x"), f, d); break; }
  case 2: { XMLNode n; n.SetValue(s.c_str()); reads(n.GetValue(), f, d); n.SetValue(t.c_str()); CHECK(eq(n.GetValue().String, t)); reads(n.GetValue(), g, e); break; }
  case 3: { XMLNode n; XMLValue v; v.Name = "k"; v.String = s; v.Integer = 3; v.Float = 2.5; n.AddAttribute("j"); CHECK(n.AddAttribute(v) == n.GetAttribute("k")); XMLValue w(v); w.String = t; w.Integer = 4; w.Float = 0.5; n.AddAttribute(w); CHECK(n.GetAttributes() == 2); const XMLValue* r = n.GetAttribute("k"); CHECKM(r && eq(r->String, t) && r->Integer == 4 && r->Float == 0.5, "adding an attribute again replaces it completely"); CHECK(eq(v.String, s) && v.Integer == 3); break; }
  case 4: { XMLNode n; static const double dv[4] = { 0, -2.5, 1e6, 0.125 }; double x = dv[bsx_choice(4, "x")]; n.SetValue(x); CHECK(n.GetValue().Float == x && n.GetValue().Integer == (int64_t)x); CHECK(atof(n.GetValue().String.c_str()) == x); n.SetValue((int64_t)-12); CHECK(n.GetValue().Float == -12.0 && n.GetValue().Integer == -12 && eq(n.GetValue().String, Str("-12"))); break; }
  }
}
static void bytes()
{
  unsigned n = bsx_choice(NBY + 1, "n"); std::string s;
  for(unsigned i = 0; i < n; ++i)
  {
    unsigned char c = sym<unsigned char>("c");
    ASSUME((c == '<') | (c == '>') | (c == '/') | (c == '!') | (c == '-') | (c == '?') | (c == '=') | (c == '"') | (c == '&') | (c == ';') | (c == '#') | (c == ' ') | (c == 'a') | (c == '1') | (c == 200));
    s += (char)c;
  }
  std::istringstream in(s); XMLFile f(in); bsx_out((unsigned)f.GetNodes()); COVER(1);
  size_t amp = 0; if(s.find('<') == std::string::npos && s.find('&') == std::string::npos) CHECKM(f.GetValue().String.size() <= s.size() && f.GetNodes() == 0, "text without markup is text");
  std::ostringstream o; f.Write(o, true);
}
int main()
{
  {
    switch(VARIANT) { case 0: fields(); break; case 1: arrays(); break; case 2: docs(); break; case 3: dom(); break; case 4: bytes(); break; case 5: nums(); break; }
  }
  if(VARIANT != 4) COVER(1);
}
