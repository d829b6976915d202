I='include/bss-util/'
bug('p08-grow-fill','P08',[(I+'Trie.h','_fill(s, _capacity); } }','_fill(s + 1, _capacity); } }')],
 'a trie that outgrows its initial node count','the first node after each growth keeps whatever the heap held, so lookups go wrong',r'''
#include "bss-util/Trie.h"
int main() { const char* w[] = { "alpha", "beta", "gam" }; for(int k = 0; k < 20; ++k) { void* p[8]; for(int i = 0; i < 8; ++i) { p[i] = malloc(16 << i); memset(p[i], 0xA5, 16 << i); } for(int i = 0; i < 8; ++i) free(p[i]); bss::Trie<uint16_t> t(3, w); for(int i = 0; i < 3; ++i) if(t[w[i]] != i) return 1; if(t["alp"] != (uint16_t)-1 || t["ga"] != (uint16_t)-1) return 1; } return 0; }
''')
bug('p08-dup-total','P08',[(I+'StringTable.h','_indices[i] = internal::STR_CT<T>::SLEN(strings[i]) + 1; //include','_indices[i] = internal::STR_CT<T>::SLEN(strings[i]); if(_indices[i]) ++_indices[i]; //include')],
 'a string table built with an empty string that is not the last one','the empty string reads as the string after it',r'''
#include "bss-util/StringTable.h"
int main() { const char* w[] = { "a", "", "b" }; bss::StringTable<char> t(w, 3); return strcmp(t[0], "a") || strcmp(t[1], "") || strcmp(t[2], "b") || t.Length() != 3; }
''')
bug('p09-addsets','P09',[(I+'DisjointSet.h','''      _numsets += n;

      for''','''      _numsets = _capacity;

      for''')],
 'adding sets after at least one union','the number of sets counts the united ones again',r'''
#include "bss-util/DisjointSet.h"
int main() { bss::DisjointSet<uint32_t> d(4); d.Union(0, 1); d.AddSets(2); return d.NumSets() == 5 ? 0 : 1; }
''')
bug('p09-selfloop','P09',[(I+'Graph.h','''      while(n.to) RemoveEdge(n.to);
      while(n.from) RemoveEdge(n.from);''','''      for(auto e = n.to; e != 0;) { auto next = e->next; RemoveEdge(e); e = next; }
      for(auto e = n.from; e != 0;) { auto next = e->next; RemoveEdge(e); e = next; }''')],
 'removing a vertex with two incoming edges from different vertices','edges that belong to the source of the first one are removed instead of the other incoming edges',r'''
#include "bss-util/Graph.h"
int main() { bss::Graph<void, void> g(4); g.AddEdge(0, 3); g.AddEdge(1, 3); g.AddEdge(0, 2); g.AddEdge(0, 1); g.RemoveNode(3); if(g.NumEdges() != 2) return 1; int n = 0; for(auto e = g[0].to; e; e = e->next) { ++n; if(e->to == 3) return 1; } for(auto e = g[1].to; e; e = e->next) return 1; return n == 2 ? 0 : 1; }
''')
bug('p10-edge','P10',[(I+'KDTree.h','''      if(node->div <= rect[cur + 2] && node->right != 0)
        _traverse<next, cur, FACTION>(node->right, rect);''','''      if(node->div < rect[cur + 2] && node->right != 0)
        _traverse<next, cur, FACTION>(node->right, rect);''')],
 'a rebalance that leaves an item whose edge lies exactly on the divider in the right subtree and a query that ends on that edge','the touching item is not reported',r'''
#include "bss-util/KDTree.h"
using namespace bss;
struct It { float r[4]; LLBase<It> l; KDNode<It>* n; };
static const float* R(It* i) { return i->r; } static LLBase<It>& L(It* i) { return i->l; } static KDNode<It>*& Nd(It* i) { return i->n; }
static int hits; static void F(It*) { ++hits; }
int main() { unsigned s = 1; for(int rep = 0; rep < 20000; ++rep) { KDTree<It, R, L, Nd, StandardAllocator<KDNode<It>>> t(10); It it[6]; bool in[6] = {}; for(int k = 0; k < 12; ++k) { s = s * 1103515245 + 12345; int i = (s >> 16) % 6; if(in[i]) { t.Remove(it + i); in[i] = false; } else { for(int a = 0; a < 2; ++a) { s = s * 1103515245 + 12345; it[i].r[a] = (s >> 16) % 5; it[i].r[a + 2] = it[i].r[a] + (s >> 20) % 2; } t.Insert(it + i); in[i] = true; } 
  for(int q = 0; q < 4; ++q) { s = s * 1103515245 + 12345; float x = (s >> 16) % 6, y = (s >> 20) % 6; float r[4] = { x, y, x + (s >> 24) % 2, y + (s >> 25) % 2 }; hits = 0; t.Traverse<F>(r); int e = 0; for(int j = 0; j < 6; ++j) e += in[j] && it[j].r[0] <= r[2] && it[j].r[1] <= r[3] && it[j].r[2] >= r[0] && it[j].r[3] >= r[1]; if(e != hits) return 1; } } } return 0; }
''')
bug('p12-align','P12',[(I+'BlockAlloc.h','_alignsize(AlignSize(sizeof(Node), align))','_alignsize(sizeof(Node))')],
 'a block allocator with an alignment above 16','blocks are not aligned as requested',r'''
#include "bss-util/BlockAlloc.h"
int main() { bss::BlockAlloc a(64, 4, 64); for(int i = 0; i < 9; ++i) if((size_t)a.Alloc() % 64) return 1; return 0; }
''')
bug('p13-publish-early','P13',[(I+'LocklessQueue.h','''      new((QNODE*)last->next) QNODE(std::forward<U>(item));
      _last.store(last->next, std::memory_order_release); // publish it''','''      _last.store(last->next, std::memory_order_release); // publish it
      new((QNODE*)last->next) QNODE(std::forward<U>(item));''')],
 'the consumer running between publication and construction of the node','the consumer takes an item that was not built yet',r'''
#include "bss-util/LocklessQueue.h"
struct X; static bss::LocklessQueue<X>* q; static bool early;
struct X { int v; X(int i = 0) : v(i) {} X(const X& x) : v(x.v) { early = q && q->Peek(); } X& operator=(const X& x) { v = x.v; return *this; } };
int main() { bss::LocklessQueue<X> k; q = &k; X a(5); k.Push(a); X r; if(early || !k.Pop(r) || r.v != 5) return 1; return 0; }
''')
bug('p13-mlq-move','P13',[(I+'LocklessQueue.h','''      _div = mov._div;
      _last = mov._last;
      _cflag.clear(std::memory_order_release);
      mov._div = mov._last = 0;''','''      _div = mov._div;
      _cflag.clear(std::memory_order_release);
      mov._div = mov._last = 0;''')],
 'pushing to a move-assigned queue','the item is appended to a freed node',r'''
#include "bss-util/LocklessQueue.h"
int main() { bss::MicroLockQueue<int, size_t> a, b; a.Push(1); b.Push(2); a = std::move(b); a.Push(3); int v = 0; if(!a.Pop(v) || v != 2) return 1; if(!a.Pop(v) || v != 3) return 1; return 0; }
''')
bug('p14-strict','P14',[(I+'RWLock.h','''      if(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set
      {
        l.fetch_sub(ONE_READER, std::memory_order_release);
        return false;''','''      if(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set
      {
        if(l.load(std::memory_order_relaxed)&WFLAG) l.fetch_sub(ONE_READER, std::memory_order_release);
        return false;''')],
 'a writer that leaves between the failed attempt to read and its undoing','a reader count stays behind for ever and the next writer waits for ever',r'''
#include "bss-util/RWLock.h"
#include <thread>
#include <chrono>
#include <atomic>
#include <stdlib.h>
static std::atomic<int> stop; 
int main() { static bss::RWLock l; std::atomic<size_t> w{0}; std::thread dog([&]() { size_t o = 0; for(int i = 0; i < 40 && !stop; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(250)); } if(!stop) _Exit(1); });
 std::thread t[4]; for(auto& x : t) x = std::thread([&]() { for(int i = 0; i < 200000; ++i) if(l.AttemptRLock()) l.RUnlock(); }); for(int i = 0; i < 200000; ++i) { l.Lock(); l.Unlock(); } for(auto& x : t) x.join(); stop = 1; dog.join(); return l.IsFree() ? 0 : 1; }
''','-O2 -mcx16')
bug('p16-resched','P16',[(I+'Scheduler.h','while(!BASE::Empty() && BASE::Peek().first <= _time)','while(BASE::_length > 0 && BASE::Peek().first < _time)')],
 'an event due at exactly the current time','an event that is due is not fired',r'''
#include "bss-util/Scheduler.h"
#include <functional>
static int n; static double f() { return ++n < 3 ? 0.0 : 0.0; }
int main() { struct S : bss::Scheduler<double(*)()> { double now() { return _time; } void at(double t) { Add(t, f); } void run() { Update(); } void set(double t) { _time = t; } }; S s; for(int i = 0; i < 50 && !n; ++i) { s.at(0); while(!s.Empty() && s.Peek().first <= s.now() && !n) { double b = s.now(); s.run(); if(n) break; if(s.now() == b) return 1; } n = 0; } return 0; }
''')
bug('p17-buf','P17',[('bss-util/ConvertUTF.c','''    target += bytesToWrite;
    if(target > targetEnd)''','''    target += bytesToWrite;
    if(target > targetEnd + (bytesToWrite == 4))''')],
 'a four byte character that misses the end of the output by one byte','writes one byte behind the output buffer',r'''
#include "bss-util/utf_conv.h"
#include <stdlib.h>
int main() { char32_t in[] = { 0x1F600, 0x1F600, 0 }; char o[16]; for(char& c : o) c = 7; size_t n = UTF32toUTF8(in, 2, o, 7); return n == 4 && o[7] == 7 ? 0 : 1; }
''')
bug('p18-trim','P18',[(I+'Str.h','inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }','inline static T* _ltrim(T* str) { for(; *str && *str < 33; ++str); return str; }')],
 'trimming text that starts with a byte above 127','the leading bytes above 127 are trimmed as if blank',r'''
#include "bss-util/Str.h"
int main() { return bss::Str("\xC3\xA9 x ").Trim() == "\xC3\xA9 x" ? 0 : 1; }
''')
bug('p19-surrogate','P19',[(I+'JSON.h','''        case '\\f': s << "\\\\f"; break;
        case '\\n': s << "\\\\n"; break;''','''        case '\\f': s << "\\\\f"; break;
        case '\\v': s << "\\\\v"; break;
        case '\\n': s << "\\\\n"; break;''')],
 'text with a vertical tab','the vertical tab is written as an escape the reader does not know and is lost',r'''
#include "bss-util/JSON.h"
#include <sstream>
using namespace bss;
struct A { Str s; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<A>(GenPair("s", s)); } };
int main() { A a, b; a.s = "x\vy"; std::stringstream ss; WriteJSON(a, ss, 0); ParseJSON(b, ss); return b.s == a.s ? 0 : 1; }
''')
bug('p20-int','P20',[(I+'UBJSON.h','if(CheckIntType<char, T>(obj)) return TYPE_INT8;','if(CheckIntType<char, T>(obj) || obj == (T)std::numeric_limits<uint8_t>::max() + 1) return TYPE_INT8;')],
 'the integer 256','an integer one above the unsigned byte range is written as a byte and reads back as 0',r'''
#include <vector>
#include "bss-util/UBJSON.h"
#include <sstream>
using namespace bss;
struct A { std::vector<Str> v; template<class E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<A>(GenPair("v", v)); } };
int main() { A a, b; a.v.push_back(Str(std::string(256, 'x'))); std::stringstream ss; Serializer<UBJSONEngine> e; e.Serialize(a, ss); try { e.Parse(b, ss); } catch(...) { return 1; } return b.v.size() == 1 && b.v[0] == a.v[0] ? 0 : 1; }
''')
bug('p21-rename-hash','P21',[('bss-util/XML.cpp','''  _attributes[i] = std::move(v);
  return &_attributes[i];''','''  _attributes[i].String = std::move(v.String);
  return &_attributes[i];''')],
 'an attribute added twice with different numeric values','the numbers of the attribute stay those of the first one',r'''
#include "bss-util/XML.h"
int main() { bss::XMLFile f("<a x=\"1\" x=\"2\"/>"); auto n = f.GetNode("a"); if(!n) return 2; auto v = n->GetAttribute("x"); return v && v->String == "2" && v->Integer == 2 ? 0 : 1; }
''')
bug('p24-bitstream','P24',[(I+'BitStream.h','if((_woffset + i) >= 8) // We ran','if((_woffset + i) > 8) // We ran')],
 'a field that ends exactly at a byte boundary','the completed byte is never written',r'''
#include "bss-util/BitStream.h"
#include <sstream>
int main() { std::stringstream ss; { bss::BitStream<std::ostream> b(ss); int a = 5, c = 21; b.Write(&a, 3); b.Write(&c, 5); b.Write(&a, 3); } bss::BitStream<std::istream> r(ss); int x = 0, y = 0, z = 0; r.Read(&x, 3); r.Read(&y, 5); r.Read(&z, 3); return x == 5 && y == 21 && z == 5 ? 0 : 1; }
''')
bug('p24-group','P24',[(I+'BitField.h','BSS_FORCEINLINE _BIT_GROUP& operator=(const _BIT_GROUP& right) { return operator=(right._bits&right._group); }','BSS_FORCEINLINE _BIT_GROUP& operator=(const _BIT_GROUP& right) { _bits = (_bits&(~right._group)) | (right._bits&right._group); return *this; }')],
 'assigning a group of bits from a different group','bits outside the group change',r'''
#include <iterator>
#include <stddef.h>
#include <stdint.h>
#include "bss-util/BitField.h"
int main() { bss::BitField<uint32_t> a(0xFF), b(0x0F); a.GetGroup(0x0F) = b.GetGroup(0xFC); return a.Get() == 0xFC ? 0 : 1; }
''')
bug('p25-days','P25',[(I+'bss_util.h','const I era = (y >= 0 ? y : y - 399) / 400;','const I era = (y >= 0 ? y : y - 400) / 400;')],
 'years that are negative multiples of 400','the day number of dates at the start of an era is wrong',r'''
#include "bss-util/bss_util.h"
int main() { return bss::DaysFromCivil<int>(-400, 3, 1) == -719468 - 146097 ? 0 : 1; }
''')
bug('p25-bytesearch','P25',[(I+'bss_util.h','for(size_t i = 0; i <= length; ++i) // i','for(size_t i = 0; i < length || !i; ++i) // i')],
 'the pattern at the very end of the data','the match at the end is not found',r'''
#include "bss-util/bss_util.h"
int main() { const char d[] = "abcd"; return bss::ByteSearch((const void*)d, 4, (const void*)"cd", 2) == d + 2 ? 0 : 1; }
''')
bug('p26-div','P26',[(I+'Rational.h','inline Rational& operator*= (T i) { T g = GCD<T>(i, _d); _n *= (i / g); _d /= g; return *this; }','inline Rational& operator*= (T i) { T g = GCD<T>(_n, _d * i); _n = (_n / g) * i; _d = _d / g; return *this; }')],
 'multiplying by an integer that shares a factor with the numerator','the result is not the product',r'''
#include "bss-util/Rational.h"
int main() { bss::Rational<int> r(2, 3); r *= 3; bss::Rational<int> q(4, 3); q *= 2; return r.N() == 2 && r.D() == 1 && q.N() == 8 && q.D() == 3 ? 0 : 1; }
''')
bug('p26-lt','P26',[(I+'Rational.h','inline bool operator> (T i) const { if(operator==(i)) return false; return !operator<(i); }','inline bool operator> (T i) const { return Truncate() > i; }')],
 'a fraction less than one above the integer','5/2 > 2 gives false',r'''
#include "bss-util/Rational.h"
int main() { bss::Rational<int> r(5, 2); return r > 2 ? 0 : 1; }
''')
bug('p28-discard','P28',[(I+'XorshiftEngine.h','''        _state[i] = s[i];
      _state[16] = 0;''','''        _state[i] = s[i];''')],
 'seeding an engine with a full state after it was used','equal seeds give different sequences',r'''
#include "bss-util/XorshiftEngine.h"
int main() { uint64_t s[16]; for(int i = 0; i < 16; ++i) s[i] = i * 77 + 1; bss::XorshiftEngine<uint64_t> a(5), b(6); for(int i = 0; i < 5; ++i) a(); a.seed(s); b.seed(s); for(int i = 0; i < 40; ++i) if(a() != b()) return 1; return 0; }
''')
bug('p29-variant','P29',[(I+'Variant.h','''      static_assert(getpos<T, Arg, Args...>::value != -1, "Type does not exist in Variant");
      _destruct();
      _tag = getpos<T, Arg, Args...>::value;
      new(_store) T();''','''      static_assert(getpos<T, Arg, Args...>::value != -1, "Type does not exist in Variant");
      if(_tag == getpos<T, Arg, Args...>::value) return;
      _destruct();
      _tag = getpos<T, Arg, Args...>::value;
      new(_store) T();''')],
 'typeset to the alternative already held','the old value stays instead of a new default one',r'''
#include "bss-util/bss_util.h"
#include "bss-util/Variant.h"
#include <string>
int main() { bss::Variant<int, std::string> v(std::string("abc")); v.typeset<std::string>(); return v.get<std::string>().empty() ? 0 : 1; }
''')
bug('p31-spline','P31',[(I+'algo.h','N2[i] = lerp<T>(N1[i], F[i], t); // lerp(E+F)','N2[i] = lerp<T>(N1[i], F[i], (T)0.5); // lerp(E+F)')],
 'splitting a cubic at a parameter other than one half','the first part of the curve is another curve',r'''
#include "bss-util/algo.h"
int main() { float p[4][1] = { { 0 }, { 1 }, { 5 }, { 2 } }, a[1], b[1], c[1], d[1], e[1]; bss::SplitCubic<float, 1>(0.25f, p[0], p[1], p[2], p[3], a, b, c, d, e); float n1 = 0.25f, f = 2.0f, n2 = n1 + (f - n1) * 0.25f; return b[0] == n2 ? 0 : 1; }
''')
bug('p31-bft','P31',[(I+'algo.h','''    if(n == 1)
    {
      FACTION(root);''','''    if(n <= 2 && !RCHILD(root))
    {
      FACTION(root);''')],
 'a tree of two nodes where the second is the left child','the left child is never visited',r'''
#include "bss-util/algo.h"
struct Nd { Nd* l; Nd* r; }; static int n; static bool A(Nd*) { ++n; return false; } static Nd* Lf(Nd* p) { return p->l; } static Nd* Rt(Nd* p) { return p->r; }
int main() { Nd b{0, 0}, a{&b, 0}; bss::BreadthFirstTree<Nd, A, Lf, Rt>(&a, 2); return n == 2 ? 0 : 1; }
''')
bug('p12-cache-shrink','P12',[(I+'CacheAlloc.h','((cnt < old) ? cnt : old) * sizeof(T));','old * sizeof(T));')],
 'shrinking a block of a cache allocator','the copy runs over the blocks behind the new one',r'''
#include "bss-util/CacheAlloc.h"
int main() { bss::CachePolicy<long> a(8192, 4096); long* p = a.allocate(8); for(int i = 0; i < 8; ++i) p[i] = i; long* s = a.allocate(2); long* t = a.allocate(2); t[0] = 100; t[1] = 101; a.deallocate(s, 2); long* q = a.allocate(2, p, 8); return q[0] == 0 && q[1] == 1 && t[0] == 100 && t[1] == 101 ? 0 : 1; }
''','-mcx16')
bug('p28-assign','P28',[(I+'AliasTable.h','''      _count = mov._count;
      _dist = std::move(mov._dist);''','''      if(_count < mov._count) _dist = std::move(mov._dist);
      _count = mov._count;''')],
 'moving a smaller table over a larger one','draws outcomes outside the table',r'''
#include "bss-util/AliasTable.h"
int main() { double p[8], q[2] = { .5, .5 }; for(double& x : p) x = .125; bss::AliasTable<unsigned, double> a(p, 8), b(q, 2); a = std::move(b); return a.GetCount() == 2 && ({ int bad = 0; for(int i = 0; i < 200; ++i) if(a() > 1) bad = 1; !bad; }) ? 0 : 1; }
''')
HV='#include "bss-util/vector.h"\n#include <cstdio>\nusing namespace bss;\n'
bug('p27-swz','P27',[(I+'vector.h','    inline Vector<T, 4> wyzx() const { return Vector<T, 4>(w, y, z, x); }','    inline Vector<T, 4> wyzx() const { return Vector<T, 4>(w, z, y, x); }')],
 'one swizzle member with distinct y and z', 'wyzx returns wzyx',
 HV+'int main() { Vector<double,4> a(1,2,3,4); auto c = a.wyzx(); return !(c.x==4 && c.y==2 && c.z==3 && c.w==1); }')
bug('p27-cmp','P27',[(I+'vector.h','operator >=(const Vector<T, N>& l, const T scalar) { bool ret = true; for(int i = 0; i < N; ++i) ret = ret && (l.v[i] >= scalar); return ret; }','operator >=(const Vector<T, N>& l, const T scalar) { return !(l < scalar); }')],
 'comparing a vector with a scalar between its components', 'v >= s becomes "some component is at least s" instead of "every component"',
 HV+'int main() { Vector<int,3> a(1,5,9); return (a >= 4) || !(a >= 1); }')
bug('p27-rows','P27',[(I+'vector.h','        for(int i = 0; i < M; ++i) // Note: It','        for(int i = (M > 2); i < M; ++i) // Note: It')],
 'a product of a matrix with three (or more than four) rows and a 4x4 float or int matrix', 'the first row of the product is not computed',
 HV+'int main() { alignas(16) Matrix<int,3,4> a{ 1,2,3,4, 5,6,7,8, 9,1,2,3 }; Matrix<int,4,4> I = Matrix<int,4,4>::Identity(); alignas(16) Matrix<int,3,4> o{ 0,0,0,0, 0,0,0,0, 0,0,0,0 }; MatrixMultiply<int,3,4,4>(a.v, I.v, o.v); return !(o == a); }')
