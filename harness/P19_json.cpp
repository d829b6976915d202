//BSX property=P19 covers=1 variants=0,1,2,3,4 shim=1 sources=ConvertUTF.c,bss_util_c.c def.quick=NBY=4,GEN=3,NTX=2 def.thorough=NBY=5,GEN=4,NTX=3
//BSX bounds: records with one field of each kind, plain and pretty: integers with 16 symbolic bits around 0 and around every width's limits, 13 floating-point values of at most six significant digits, text of up to NTX arbitrary bytes; arrays of up to 2 elements of 10 element types; generic values of up to GEN nested nodes with one text or key of an arbitrary byte; every document of up to NBY bytes over the structural characters, quotes, backslash, space, two digits, sign, dot and letters; unknown fields of every kind, white space between all tokens, escaped and surrogate characters
#include "bsx.h"
#include "bss-util/JSON.h"
#include "bss-util/Hash.h"
using namespace bss;
enum E16 : short { E16A = 1 };
template<class V> struct Rec { V v; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<Rec>(GenPair("v", v), GenPair("after", after)); } };
struct In { short a; Str s; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<In>(GenPair("a", a), GenPair("s", s)); } };
static Str text(unsigned n) { Str s; for(unsigned i = 0; i < n; ++i) s += sym<char>("t"); return s; }
template<class V> static bool eq(const V& a, const V& b) { return !memcmp(&a, &b, sizeof(V)); }
static bool eq(const Str& a, const Str& b) { if(a.size() != b.size()) return false; bool r = true; for(size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static bool eq(const In& a, const In& b) { return a.a == b.a && eq(a.s, b.s); }
template<class V> static std::string ser(const V& r) { std::ostringstream o; size_t p = bsx_choice(2, "pretty"); WriteJSON<V>(r, o, p); return o.str(); }
template<class V> static void par(V& r, const std::string& b) { std::istringstream i(b); ParseJSON<V>(r, i); }
template<class V> static void one(const V& v, V init)
{
  Rec<V> a{ v, 77 }; std::string b = ser(a); Rec<V> c{ init, 0 }; par(c, b);
  CHECKM(eq(c.v, v), "a value comes back as it was written"); CHECKM(c.after == 77, "the field after it comes back"); bsx_out(b.size());
}
template<class V> static void num() { V v = sym<V>("v"); one<V>(v, (V)0); }
template<class V> static void wide() { typedef std::numeric_limits<V> L; signed char d = sym<signed char>("d"); V v; switch(bsx_choice(4, "base")) { case 0: v = (V)d; break; case 1: ASSUME(d >= 0); v = L::min() + (V)d; break; case 2: ASSUME(d >= 0); v = L::max() - (V)d; break; default: v = (V)(L::max() / 2 + d); break; } one<V>(v, (V)0); }
static const double DB[13] = { 0.0, 1.0, -1.5, 0.25, 1e6, 1e-5, 123456.0, -3.25e10, 1e100, 0.1, 1e15, 5e-310, 2147483648.0 };
static void fields()
{
  switch(bsx_choice(15, "type"))
  {
  case 0: num<char>(); break; case 1: num<unsigned char>(); break; case 2: num<short>(); break; case 3: num<unsigned short>(); break;
  case 4: wide<int>(); break; case 5: wide<unsigned int>(); break; case 6: wide<int64_t>(); break; case 7: wide<uint64_t>(); break;
  case 8: { double v = DB[bsx_choice(11, "v")]; if(v == 2147483648.0) break; one<double>(v, 3.0); break; }
  case 9: { float v = (float)DB[bsx_choice(8, "v")]; one<float>(v, 3.0f); break; }
  case 10: { bool v = bsx_choice(2, "b") != 0; one<bool>(v, !v); break; }
  case 11: { unsigned n = bsx_choice(NTX + 1, "n"); one<Str>(text(n), Str("zz")); break; }
  case 12: { E16 v = (E16)sym<short>("v"); one<E16>(v, (E16)0); break; }
  case 13: { short a = sym<short>("a"); In v{ a, text(bsx_choice(2, "n")) }; one<In>(v, In{ 0, Str() }); break; }
  case 14: { signed char v = sym<signed char>("v"); one<signed char>(v, 0); break; }
  }
}
template<class V> struct Mk { static V v() { return (V)sym<signed char>("v"); } };
template<> struct Mk<bool> { static bool v() { return bsx_choice(2, "v") != 0; } };
template<> struct Mk<double> { static double v() { return DB[bsx_choice(7, "v")]; } };
template<> struct Mk<Str> { static Str v() { return text(bsx_choice(2, "n")); } };
template<> struct Mk<In> { static In v() { short a = (short)sym<signed char>("a"); return In{ a, text(bsx_choice(2, "n")) }; } };
template<class V> static void vec() { unsigned n = bsx_choice(3, "len"); Rec<std::vector<V>> a; a.after = 9; for(unsigned i = 0; i < n; ++i) a.v.push_back(Mk<V>::v()); Rec<std::vector<V>> c; c.after = 0; par(c, ser(a)); CHECKM(c.v.size() == n, "an array keeps its length"); for(unsigned i = 0; i < n; ++i) CHECKM(eq(V(c.v[i]), V(a.v[i])), "an array keeps its elements"); CHECK(c.after == 9); }
template<class V, ARRAY_TYPE K> static void dyn() { unsigned n = bsx_choice(3, "len"); Rec<DynArray<V, size_t, K>> a; a.after = 9; for(unsigned i = 0; i < n; ++i) a.v.Add(Mk<V>::v()); Rec<DynArray<V, size_t, K>> c; c.after = 0; par(c, ser(a)); CHECKM(c.v.Length() == n, "an array keeps its length"); for(unsigned i = 0; i < n; ++i) { V x = c.v[i], y = a.v[i]; CHECKM(eq(x, y), "an array keeps its elements"); } CHECK(c.after == 9); }
template<class V> struct RA { V v[2]; std::array<V, 2> w; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<RA>(GenPair("v", v), GenPair("w", w), GenPair("after", after)); } };
template<class V> static void fix() { RA<V> a, c; for(int i = 0; i < 2; ++i) { a.v[i] = Mk<V>::v(); c.v[i] = V(); } for(int i = 0; i < 2; ++i) { a.w[i] = (V)(i + 1); c.w[i] = V(); } a.after = 3; c.after = 0; par(c, ser(a)); for(int i = 0; i < 2; ++i) CHECK(eq(c.v[i], a.v[i])); for(int i = 0; i < 2; ++i) CHECK(eq(c.w[i], a.w[i])); CHECK(c.after == 3); }
static void arrays()
{
  switch(bsx_choice(11, "type"))
  {
  case 0: vec<char>(); break; case 1: vec<unsigned short>(); break; case 2: vec<double>(); break; case 3: vec<Str>(); break; case 4: vec<In>(); break;
  case 5: dyn<unsigned char, ARRAY_SIMPLE>(); break; case 6: dyn<bool, ARRAY_SIMPLE>(); break; case 7: dyn<Str, ARRAY_SAFE>(); break;
  case 8: fix<short>(); break;
  case 9: { typedef std::vector<std::vector<int>> VV; Rec<VV> a, c; a.after = 4; c.after = 0; unsigned n = bsx_choice(3, "len"); for(unsigned i = 0; i < n; ++i) { a.v.push_back(std::vector<int>()); unsigned k = bsx_choice(3, "k"); for(unsigned j = 0; j < k; ++j) a.v[i].push_back(j == 0 ? (int)sym<signed char>("v") : 4); } par(c, ser(a)); CHECK(c.v.size() == n); for(unsigned i = 0; i < n; ++i) { CHECK(c.v[i].size() == a.v[i].size()); for(size_t j = 0; j < a.v[i].size(); ++j) CHECK(c.v[i][j] == a.v[i][j]); } CHECK(c.after == 4); break; }
  case 10: { typedef std::tuple<short, Str, double> TU; Rec<TU> a, c; short q = sym<short>("q"); double d = DB[bsx_choice(7, "d")]; a.v = TU(q, text(bsx_choice(2, "n")), d); a.after = 4; c.after = 0; c.v = TU(0, Str(), 0.0); par(c, ser(a)); CHECK(std::get<0>(c.v) == q); CHECK(eq(std::get<1>(c.v), std::get<1>(a.v))); CHECK(eq(std::get<2>(c.v), d)); CHECK(c.after == 4); break; }
  }
}
typedef JSONValue J; static int budget;
static bool symtext; // one text or key of the value is symbolic, the others are fixed, so that the number of paths stays within reach
static Str key() { Str k; if(symtext) return Str("k"); symtext = true; if(bsx_choice(2, "kl")) { char c = sym<char>("k"); ASSUME(c != 0); k += c; } return k; }
static void build(J& u)
{
  --budget; unsigned k = bsx_choice(budget > 0 ? 7 : 5, "kind");
  switch(k)
  {
  case 0: break; case 1: u = (bool)(bsx_choice(2, "b") != 0); break; case 2: { int64_t v = sym<signed char>("v"); if(bsx_choice(2, "big")) v += 0x7fffffffffffff00LL; u = v; break; } case 3: u = (double)DB[3 + bsx_choice(3, "v")]; break;
  case 4: if(symtext) { u = Str("q\"]}"); break; } symtext = true; u = text(bsx_choice(2, "n")); break;
  case 5: { u = J::JSONArray(); unsigned n = bsx_choice(budget < 2 ? budget + 1 : 3, "n"); for(unsigned i = 0; i < n; ++i) { u.get<J::JSONArray>().AddConstruct(); build(u.get<J::JSONArray>().Back()); } break; }
  case 6: { u = J::JSONObject(); unsigned n = bsx_choice(budget < 2 ? budget + 1 : 3, "n"); for(unsigned i = 0; i < n; ++i) { u.get<J::JSONObject>().AddConstruct(); u.get<J::JSONObject>().Back().first = key(); build(u.get<J::JSONObject>().Back().second); } break; }
  }
}
static bool isnum(const J& a) { return a.is<double>() || a.is<int64_t>(); }
static void same(const J& a, const J& b)
{
  if(isnum(a) && isnum(b)) // a whole number written as a floating-point value may come back as an integer of the same value
  {
    if(a.is<int64_t>() && b.is<int64_t>()) { CHECKM(a.get<int64_t>() == b.get<int64_t>(), "a number keeps its value"); return; }
    double x = a.is<double>() ? a.get<double>() : (double)a.get<int64_t>(), y = b.is<double>() ? b.get<double>() : (double)b.get<int64_t>(); CHECKM(x == y, "a number keeps its value"); return;
  }
  CHECKM(a.tag() == b.tag(), "a generic value keeps its type");
  switch(a.tag())
  {
  case J::Type<Str>::value: CHECK(eq(a.get<Str>(), b.get<Str>())); break; case J::Type<bool>::value: CHECK(a.get<bool>() == b.get<bool>()); break;
  case J::Type<J::JSONArray>::value: { auto& x = a.get<J::JSONArray>(); auto& y = b.get<J::JSONArray>(); CHECKM(x.Length() == y.Length(), "a generic array keeps its length"); for(size_t i = 0; i < x.Length(); ++i) same(x[i], y[i]); break; }
  case J::Type<J::JSONObject>::value: { auto& x = a.get<J::JSONObject>(); auto& y = b.get<J::JSONObject>(); CHECKM(x.Length() == y.Length(), "a generic object keeps its length"); for(size_t i = 0; i < x.Length(); ++i) { CHECK(eq(x[i].first, y[i].first)); same(x[i].second, y[i].second); } break; }
  default: break;
  }
}
static void generic()
{
  J u; budget = GEN; symtext = false; build(u); std::string b = ser(u); J c; 
  c = Str("previous"); // read over an existing value
  par(c, b); same(u, c);
}
static void bytes()
{
  unsigned n = bsx_choice(NBY + 1, "n"); std::string s;
  for(unsigned i = 0; i < n; ++i)
  {
    unsigned char c = sym<unsigned char>("c");
    ASSUME((c == '[') | (c == ']') | (c == '{') | (c == '}') | (c == '"') | (c == ':') | (c == ',') | (c == '\\') | (c == ' ') | (c == '1') | (c == '0') | (c == '-') | (c == '.') | (c == 'e') | (c == 'u') | (c == 't') | (c == 200));
    s += (char)c;
  }
  J u; par(u, s); bsx_out((unsigned char)u.tag()); COVER(1);
  // what was understood can be written and is understood the same way again
  std::ostringstream o; WriteJSON<J>(u, o, 0); J v; par(v, o.str()); same(u, v);
}
template<class V> struct Old { V x; int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<Old>(GenPair("x", x), GenPair("after", after)); } };
struct New { int after; template<typename En> void Serialize(Serializer<En>& e, const char*) { e.template EvaluateType<New>(GenPair("after", after)); } };
template<class V> static void unk(const V& v) { Old<V> o{ v, 0 }; o.after = sym<signed char>("after"); New n; n.after = 0; par(n, ser(o)); CHECKM(n.after == o.after, "a field nobody asked for is skipped"); }
static std::string ws() { switch(bsx_choice(4, "ws")) { case 1: return " "; case 2: return "\n"; case 3: return "\t "; } return ""; }
static void utf(std::string& o, unsigned c) { if(c < 0x80) o += (char)c; else if(c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); } else if(c < 0x10000) { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } }
static void esc(std::string& s, unsigned c) { s += "\\u"; for(int i = 12; i >= 0; i -= 4) s += "0123456789abcdef"[(c >> i) & 15]; }
static void text4()
{
  switch(bsx_choice(13, "unknown"))
  {
  case 0: unk<int>(5); break; case 1: unk<Str>(text(bsx_choice(3, "n"))); break; case 2: unk<In>(Mk<In>::v()); break; case 3: unk<bool>(true); break;
  case 4: { std::vector<int> v; for(unsigned n = bsx_choice(3, "n"); n; --n) v.push_back(3); unk(v); break; }
  case 5: { std::vector<In> v; for(unsigned n = bsx_choice(3, "n"); n; --n) v.push_back(In{ 1, text(1) }); unk(v); break; }
  case 6: unk<double>(1.5); break;
  case 7: // white space between tokens
  {
    std::string s = ws() + "{" + ws(); const char* T = bsx_choice(2, "b") ? "true" : "false"; s += "\"v\""; std::string w = ws(); s += w + ":" + ws() + T; s += w + "," + w + "\"after\":12" + w + "}";
    if(bsx_choice(2, "g")) { J j; par(j, s); CHECKM(j.is<J::JSONObject>() && j.get<J::JSONObject>().Length() == 2, "white space is not data"); auto& o = j.get<J::JSONObject>(); CHECKM(o[0].second.is<bool>() && o[0].second.get<bool>() == (T[0] == 't'), "a literal followed by white space is still a literal"); CHECK(o[1].second.is<int64_t>() && o[1].second.get<int64_t>() == 12); }
    else { Rec<bool> r{ T[0] != 't', 0 }; par(r, s); CHECK(r.v == (T[0] == 't')); CHECK(r.after == 12); }
    break;
  }
  case 8: // escaped characters
  {
    static const unsigned HI[8] = { 0, 0x40, 0x80, 0x7C0, 0x800, 0xD7C0, 0xE000, 0xFFC0 }; unsigned hi = HI[bsx_choice(8, "hi")]; unsigned lo = sym<unsigned char>("lo") & 63; lo = bsx_concrete(lo); std::string s = "\"x", w = "x"; esc(s, hi + lo); s += "y\""; utf(w, hi + lo); w += 'y'; Str r; par(r, s); CHECKM(eq(r, Str(w.c_str(), w.size())), "an escaped character is that character"); break;
  }
  case 9: // surrogate pairs
  {
    static const unsigned CP[5] = { 0x10000, 0x1F600, 0x10FFFF, 0x103FF, 0x10400 }; unsigned c = CP[bsx_choice(5, "cp")]; std::string s = "\"", w; esc(s, 0xD800 + ((c - 0x10000) >> 10)); esc(s, 0xDC00 + ((c - 0x10000) & 0x3FF)); s += "z\""; utf(w, c); w += 'z'; Str r; par(r, s); CHECKM(eq(r, Str(w.c_str(), w.size())), "an escaped surrogate pair is one character"); break;
  }
  case 10: // null for a number, a truth value, numbers in quotes: the rest of the record is still read
  {
    static const char* VS[5] = { "null", "\"12\"", "\"zz\"", "12", "\"\"" }; unsigned k = bsx_choice(5, "k"); std::string s = std::string("{\"v\":") + VS[k] + ws() + ",\"after\":34}"; Rec<int> r{ 0, 0 }; par(r, s); CHECKM(r.v == (k == 1 || k == 3 ? 12 : 0), "a quoted number is that number"); CHECKM(r.after == 34, "the fields after it are still read"); break;
  }
  case 11: // fields in any order
  { bool sw = bsx_choice(2, "order") != 0; std::string s = sw ? "{\"after\":7, \"v\": -8}" : "{\"v\": -8, \"after\":7}"; Rec<short> r{ 0, 0 }; par(r, s); CHECK(r.v == -8 && r.after == 7); break; }
  case 12: // numbers in exponent notation
  { static const char* NS[4] = { "1e6", "1E+06", "-25e-1", "1.5e3" }; static const double NV[4] = { 1e6, 1e6, -2.5, 1500 }; unsigned k = bsx_choice(4, "k"); J j; par(j, NS[k]); CHECKM(j.is<double>() && j.get<double>() == NV[k], "exponent notation keeps its value"); double d = 0; par(d, NS[k]); CHECK(d == NV[k]); break; }
  }
}
int main()
{
  {
    switch(VARIANT) { case 0: fields(); break; case 1: arrays(); break; case 2: generic(); break; case 3: bytes(); break; case 4: text4(); break; }
  }
  if(VARIANT != 3) COVER(1);
}
