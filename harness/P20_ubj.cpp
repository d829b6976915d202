//BSX property=P20 covers=1 variants=0,1,2,3,4 shim=1 sources=UBJSON.cpp,ConvertUTF.c,bss_util_c.c def.quick=NBY=6,GEN=3 def.thorough=NBY=8,GEN=4
//BSX bounds: records with one field of every number width, boolean, enumeration, text of up to 3 arbitrary bytes or nested record, every value; arrays of up to 3 elements of 14 element types and nested arrays; generic values of up to GEN nested nodes; parsing of every byte string of up to NBY bytes over the marker characters and the length bytes 0 to 2 (lengths above 2 excluded); unknown fields of every kind before a known one
#include "bsx.h"
#include "bss-util/UBJSON.h"
#include "bss-util/Hash.h"
using namespace bss;
enum E8 : char { E8A = 1 }; enum E16 : short { E16A = 1 };
template<class V> struct Rec { V v; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<Rec>(GenPair("v", v), GenPair("after", after)); } };
struct In { short a; Str s; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<In>(GenPair("a", a), GenPair("s", s)); } };
static Str text(unsigned n) { Str s; for(unsigned i = 0; i < n; ++i) s += sym<char>("t"); return s; }
template<class V> static bool eq(const V& a, const V& b) { return !memcmp(&a, &b, sizeof(V)); }
static bool eq(const Str& a, const Str& b) { if(a.size() != b.size()) return false; bool r = true; for(size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static bool eq(const std::string& a, const std::string& b) { if(a.size() != b.size()) return false; bool r = true; for(size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static bool eq(const In& a, const In& b) { return a.a == b.a && eq(a.s, b.s); }
template<class V> static std::string ser(const V& r) { std::ostringstream o; { Serializer<UBJSONEngine> s; s.Serialize(r, o); } return o.str(); }
template<class V> static void par(V& r, const std::string& b) { std::istringstream i(b); Serializer<UBJSONEngine> s; s.Parse(r, i); CHECKM(i.rdbuf()->sgetc() == -1, "everything written was consumed"); }
template<class V> static void one(const V& v, V init)
{
  Rec<V> a{ v, 77 }; std::string b = ser(a); Rec<V> c{ init, 0 }; par(c, b);
  CHECKM(eq(c.v, v), "a value comes back as it was written"); CHECKM(c.after == 77, "the field after it comes back"); bsx_out(b.size());
}
template<class V> static void num() { V v = sym<V>("v"); one<V>(v, (V)0); }
static void fields()
{
  switch(bsx_choice(15, "type"))
  {
  case 0: num<char>(); break; case 1: num<unsigned char>(); break; case 2: num<short>(); break; case 3: num<unsigned short>(); break;
  case 4: num<int>(); break; case 5: num<unsigned int>(); break; case 6: num<int64_t>(); break;
  case 7: { uint64_t v = sym<uint64_t>("v"); ASSUME(v < (1ull << 63)); one<uint64_t>(v, 0); break; }
  case 8: { uint64_t v = (1ull << 63) + sym<unsigned char>("v"); v = bsx_concrete(v); one<uint64_t>(v, 0); break; }
  case 9: { float v = sym<float>("v"); Rec<float> a{ v, 5 }; Rec<float> c{ 0, 0 }; par(c, ser(a)); CHECK(eq(c.v, v)); CHECK(c.after == 5); break; }
  case 10: { double v = sym<double>("v"); Rec<double> a{ v, 5 }; Rec<double> c{ 0, 0 }; par(c, ser(a)); CHECK(eq(c.v, v)); CHECK(c.after == 5); break; }
  case 11: { bool v = bsx_choice(2, "b") != 0; one<bool>(v, !v); break; }
  case 12: { unsigned n = bsx_choice(4, "n"); one<Str>(text(n), Str("zz")); break; }
  case 13: { E16 v = (E16)sym<short>("v"); one<E16>(v, (E16)0); break; }
  case 14: { In v{ sym<short>("a"), text(bsx_choice(3, "n")) }; one<In>(v, In{ 0, Str() }); break; }
  }
}
template<class V> struct Mk { static V v() { return sym<V>("v"); } };
template<> struct Mk<bool> { static bool v() { return bsx_choice(2, "v") != 0; } };
template<> struct Mk<Str> { static Str v() { return text(bsx_choice(3, "n")); } };
template<> struct Mk<std::string> { static std::string v() { return text(bsx_choice(3, "n")); } };
template<> struct Mk<In> { static In v() { short a = sym<short>("a"); return In{ a, text(bsx_choice(2, "n")) }; } };
template<class V> static void vec() { unsigned n = bsx_choice(4, "len"); Rec<std::vector<V>> a; a.after = 9; for(unsigned i = 0; i < n; ++i) a.v.push_back(Mk<V>::v()); Rec<std::vector<V>> c; c.after = 0; par(c, ser(a)); CHECKM(c.v.size() == n, "an array keeps its length"); for(unsigned i = 0; i < n; ++i) CHECKM(eq(V(c.v[i]), V(a.v[i])), "an array keeps its elements"); CHECK(c.after == 9); }
template<class V, ARRAY_TYPE K> static void dyn() { unsigned n = bsx_choice(4, "len"); Rec<DynArray<V, size_t, K>> a; a.after = 9; for(unsigned i = 0; i < n; ++i) a.v.Add(Mk<V>::v()); Rec<DynArray<V, size_t, K>> c; c.after = 0; par(c, ser(a)); CHECKM(c.v.Length() == n, "an array keeps its length"); for(unsigned i = 0; i < n; ++i) { V x = c.v[i], y = a.v[i]; CHECKM(eq(x, y), "an array keeps its elements"); } CHECK(c.after == 9); }
template<class V> struct RA { V v[3]; std::array<V, 2> w; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<RA>(GenPair("v", v), GenPair("w", w), GenPair("after", after)); } };
template<class V> static void fix() { RA<V> a, c; for(int i = 0; i < 3; ++i) { a.v[i] = Mk<V>::v(); c.v[i] = V(); } for(int i = 0; i < 2; ++i) { a.w[i] = Mk<V>::v(); c.w[i] = V(); } a.after = 3; c.after = 0; par(c, ser(a)); for(int i = 0; i < 3; ++i) CHECK(eq(c.v[i], a.v[i])); for(int i = 0; i < 2; ++i) CHECK(eq(c.w[i], a.w[i])); CHECK(c.after == 3); }
static void arrays()
{
  switch(bsx_choice(16, "type"))
  {
  case 0: vec<char>(); break; case 1: vec<unsigned char>(); break; case 2: vec<unsigned short>(); break; case 3: vec<int>(); break; case 4: vec<double>(); break; case 5: vec<Str>(); break; case 6: vec<In>(); break;
  case 7: dyn<char, ARRAY_SIMPLE>(); break; case 8: dyn<unsigned char, ARRAY_SIMPLE>(); break; case 9: dyn<unsigned int, ARRAY_SIMPLE>(); break; case 10: dyn<bool, ARRAY_SIMPLE>(); break; case 11: dyn<Str, ARRAY_SAFE>(); break; case 12: dyn<short, ARRAY_SIMPLE>(); break;
  case 13: switch(bsx_choice(4, "el")) { case 0: fix<char>(); break; case 1: fix<int>(); break; case 2: fix<uint16_t>(); break; case 3: fix<float>(); break; } break;
  case 14: { typedef std::vector<std::vector<int>> VV; Rec<VV> a, c; a.after = 4; c.after = 0; unsigned n = bsx_choice(3, "len"); for(unsigned i = 0; i < n; ++i) { a.v.push_back(std::vector<int>()); unsigned k = bsx_choice(3, "k"); for(unsigned j = 0; j < k; ++j) a.v[i].push_back(sym<int>("v")); } par(c, ser(a)); CHECK(c.v.size() == n); for(unsigned i = 0; i < n; ++i) { CHECK(c.v[i].size() == a.v[i].size()); for(size_t j = 0; j < a.v[i].size(); ++j) CHECK(c.v[i][j] == a.v[i][j]); } CHECK(c.after == 4); break; }
  case 15: { typedef std::tuple<short, Str, double> TU; Rec<TU> a, c; short q = sym<short>("q"); double d = sym<double>("d"); a.v = TU(q, text(bsx_choice(3, "n")), d); a.after = 4; c.after = 0; c.v = TU(0, Str(), 0.0); par(c, ser(a)); CHECK(std::get<0>(c.v) == q); CHECK(eq(std::get<1>(c.v), std::get<1>(a.v))); CHECK(eq(std::get<2>(c.v), d)); CHECK(c.after == 4); break; }
  }
}
// generic values
typedef UBJSONTuple U; static int budget;
static void build(U& u)
{
  u.Clear(); --budget; unsigned k = bsx_choice(budget > 0 ? 13 : 11, "kind");
  switch(k)
  {
  case 0: u.Type = U::TYPE_NULL; break; case 1: u.Type = U::TYPE_TRUE; break; case 2: u.Type = U::TYPE_FALSE; break;
  case 3: u.Type = U::TYPE_INT8; u.Int8 = sym<char>("v"); break; case 4: u.Type = U::TYPE_UINT8; u.UInt8 = sym<uint8_t>("v"); break; case 5: u.Type = U::TYPE_INT16; u.Int16 = sym<short>("v"); break;
  case 6: u.Type = U::TYPE_INT32; u.Int32 = sym<int>("v"); break; case 7: u.Type = U::TYPE_INT64; u.Int64 = sym<int64_t>("v"); break; case 8: u.Type = U::TYPE_DOUBLE; u.Int64 = sym<int64_t>("v"); break; case 9: u.Type = U::TYPE_CHAR; u.Int8 = sym<char>("v"); break;
  case 10: { unsigned n = bsx_choice(3, "n"); u.Length = n; u.String = new char[n + 1]; u.Type = U::TYPE_STRING; for(unsigned i = 0; i < n; ++i) u.String[i] = sym<char>("t"); u.String[n] = 0; break; }
  case 11: { new(&u.Array) U::UBJSONArray(); u.Type = U::TYPE_ARRAY; unsigned n = bsx_choice(budget < 3 ? budget + 1 : 4, "n"); for(unsigned i = 0; i < n; ++i) { u.Array.AddConstruct(); build(u.Array.Back()); } break; }
  case 12: { new(&u.Object) U::UBJSONObject(); u.Type = U::TYPE_OBJECT; unsigned n = bsx_choice(budget < 3 ? budget + 1 : 4, "n"); for(unsigned i = 0; i < n; ++i) { u.Object.AddConstruct(); u.Object.Back().first = text(bsx_choice(2, "kl")); build(u.Object.Back().second); } break; }
  }
}
static void same(const U& a, const U& b)
{
  CHECKM(a.Type == b.Type, "a generic value keeps its type");
  switch(a.Type)
  {
  case U::TYPE_INT8: case U::TYPE_CHAR: case U::TYPE_UINT8: CHECK(a.UInt8 == b.UInt8); break; case U::TYPE_INT16: CHECK(a.Int16 == b.Int16); break; case U::TYPE_INT32: CHECK(a.Int32 == b.Int32); break; case U::TYPE_INT64: case U::TYPE_DOUBLE: CHECK(a.Int64 == b.Int64); break;
  case U::TYPE_STRING: CHECK(a.Length == b.Length); for(int64_t i = 0; i <= a.Length; ++i) CHECK(a.String[i] == b.String[i]); break;
  case U::TYPE_ARRAY: CHECKM(a.Array.Length() == b.Array.Length(), "a generic array keeps its length"); for(size_t i = 0; i < a.Array.Length(); ++i) same(a.Array[i], b.Array[i]); break;
  case U::TYPE_OBJECT: CHECKM(a.Object.Length() == b.Object.Length(), "a generic object keeps its length"); for(size_t i = 0; i < a.Object.Length(); ++i) { CHECK(eq(a.Object[i].first, b.Object[i].first)); same(a.Object[i].second, b.Object[i].second); } break;
  default: break;
  }
}
static void generic()
{
  U u; budget = GEN; build(u);
  unsigned how = bsx_choice(3, "how");
  if(how == 0) { U c(u); same(u, c); U m(std::move(c)); same(u, m); CHECK(c.Type == U::TYPE_NONE); return; }
  std::string b = ser(u); U c; 
  if(how == 2) { c.Length = 1; c.String = new char[2]; c.String[0] = 'x'; c.String[1] = 0; c.Type = U::TYPE_STRING; } // parsing over an existing value
  par(c, b); same(u, c);
}
static void bytes()
{
  unsigned n = bsx_choice(NBY + 1, "n"); std::string s;
  for(unsigned i = 0; i < n; ++i)
  {
    unsigned char c = sym<unsigned char>("c");
    ASSUME((c <= 2) | (c == '[') | (c == ']') | (c == '{') | (c == '}') | (c == '$') | (c == '#') | (c == 'i') | (c == 'U') | (c == 'I') | (c == 'S') | (c == 'T') | (c == 'Z') | (c == 'N') | (c == 'C') | (c == 'd') | (c == 'x') | (c == 255));
    s += (char)c;
  }
  // only lengths up to 2: no marker, negative or large byte directly after a length marker
  for(unsigned i = 0; i + 1 < n; ++i) { unsigned char a = s[i], b = s[i + 1]; ASSUME(!((a == 'i') | (a == 'U') | (a == 'I') | (a == 'C')) | (b <= 2) | (b == 255 && a == 'i')); if(i + 2 < n) { unsigned char d = s[i + 2]; ASSUME((a != 'I') | ((b == 0) & (d <= 2))); } }
  std::istringstream in(s); U u; bool thrown = false;
  try { u.Parse(in, U::TYPE_NONE); } catch(const std::runtime_error&) { thrown = true; }
  bsx_out(thrown); bsx_out((unsigned char)u.Type);
  if(!thrown) { COVER(1); std::ostringstream o; if(u.Type != U::TYPE_NO_OP) { bool w = false; try { u.Write(o, U::TYPE_NONE); } catch(...) { w = true; } CHECKM(!w, "what was parsed can be written"); } }
}
template<class V> struct Old { V x; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<Old>(GenPair("x", x), GenPair("after", after)); } };
struct New { int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<New>(GenPair("after", after)); } };
template<class V> static void unk(const V& v) { Old<V> o{ v, 0 }; o.after = sym<int>("after"); New n; n.after = 0; par(n, ser(o)); CHECKM(n.after == o.after, "a field nobody asked for is skipped"); }
static void unknown()
{
  switch(bsx_choice(9, "unknown"))
  {
  case 0: unk<int>(sym<int>("v")); break; case 1: unk<Str>(text(bsx_choice(3, "n"))); break; case 2: unk<In>(Mk<In>::v()); break; case 3: unk<bool>(true); break;
  case 4: { std::vector<int> v; for(unsigned n = bsx_choice(3, "n"); n; --n) v.push_back(sym<int>("v")); unk(v); break; }
  case 5: { std::vector<In> v; for(unsigned n = bsx_choice(3, "n"); n; --n) v.push_back(Mk<In>::v()); unk(v); break; }
  case 6: unk<double>(1.5); break;
  // an array of narrower integers read into wider elements, and single characters into text
  case 7: { Rec<std::vector<unsigned char>> a; a.after = 6; unsigned n = bsx_choice(4, "n"); for(unsigned i = 0; i < n; ++i) a.v.push_back(sym<unsigned char>("v")); std::string b = ser(a); Rec<DynArray<int>> c; c.after = 0; par(c, b); CHECKM(c.v.Length() == n, "bytes read as wider integers keep their count"); for(unsigned i = 0; i < n; ++i) CHECK(c.v[i] == a.v[i]); CHECK(c.after == 6); break; }
  case 8: { char ch = sym<char>("ch"); std::string b("C"); b += ch; Str s("old"); par(s, b); CHECKM(s.size() == 1 && s[0] == ch, "a character read as text is that character"); break; }
  }
}
int main()
{
  {
    switch(VARIANT) { case 0: fields(); break; case 1: arrays(); break; case 2: generic(); break; case 3: bytes(); break; case 4: unknown(); break; }
  }
  if(VARIANT != 3) COVER(1);
}
