I='include/bss-util/'
bug('p01-bool-remove','P01',[(I+'DynArray.h','CT len = _maxChunks(_length) / DIV_AMT;','CT len = _maxChunks(_length - 1) / DIV_AMT;')],
 'a bool array whose length is 1 modulo 8, removal of a bit in an earlier byte, and the last bit set','the last bit is lost when a bit before it is removed',r'''
#include "bss-util/DynArray.h"
int main() { bss::DynArray<bool> a; for(int i = 0; i < 9; ++i) a.Add(i == 8); a.Remove(0); if(a.Length() != 8 || !a[7]) return 1; for(int i = 0; i < 7; ++i) if(a[i]) return 1; return 0; }
''')
bug('p02-replace','P02',[(I+'ArraySort.h','while(index < (_array.Length() - 1) && CFunc(_array[index + 1], _array[index]) < 0)','while(index + 2 < _array.Length() && CFunc(_array[index + 1], _array[index]) < 0)')],
 'an element replaced by one that must move behind the last element','the array is no longer sorted after ReplaceData',r'''
#include "bss-util/ArraySort.h"
int main() { bss::ArraySort<int> a; a.Insert(1); a.Insert(5); a.Insert(9); a.ReplaceData(0, 20); for(int i = 1; i < 3; ++i) if(a[i - 1] > a[i]) return 1; return a.Find(20) == 2 ? 0 : 1; }
''')
bug('p03-trb-dup','P03',[(I+'TRBtree.h','if((parent = _treeNextSub(parent)) == 0) last = LLAddAfter(node, last);','if((parent = _treeNextSub(parent)) == 0) LLAddAfter(node, last);')],
 'inserting a new largest key when the current largest has duplicates','the tree forgets its new last element',r'''
#include "bss-util/TRBtree.h"
int main() { bss::TRBtree<int> t; t.Insert(1); t.Insert(1); t.Insert(2); if(!t.Back() || t.Back()->value != 2) return 1; t.Insert(3); int n = 0; for(auto* p = t.Front(); p; p = p->next) ++n; return n == 4 ? 0 : 1; }
''')
bug('p04-tombstone','P04',[(I+'Hash.h','''          while(!__ac_isempty(flags, i) && (__ac_isdel(flags, i) || !HashEqual(keys[i], key)))
          {
            if(__ac_isdel(flags, i)) site = i;''','''          while(!__ac_isempty(flags, i) && site == n_buckets && !HashEqual(keys[i], key))
          {
            if(__ac_isdel(flags, i)) { site = i; break; }''')],
 'two colliding keys, removal of the first, then inserting the second again','a key present behind a removed one is inserted a second time',r'''
#include "bss-util/Hash.h"
int main() { bss::Hash<int, int> h; bool in[64] = {}; int n = 0; unsigned x = 3; for(int i = 0; i < 20000; ++i) { x = x * 1103515245 + 12345; int k = (x >> 16) % 64; if((x >> 24) & 1) { h.Insert(k * 977, k); n += !in[k]; in[k] = true; } else { bool r = h.Remove(k * 977); if(r != in[k]) return 1; n -= in[k]; in[k] = false; } if(h.Length() != n || h.Exists(k * 977) != in[k]) return 1; } return 0; }
''')
bug('p05-key-track','P05',[(I+'BinaryHeap.h','''        _array[k] = std::move(_array[i]);
        MFUNC::MFunc(_array[k], k, p);
        k = i;
      }

      _array[k]''','''        _array[k] = std::move(_array[i]);
        k = i;
      }

      _array[k]''')],
 'a PriorityHeap pop or set that moves an only left child up at the end of the array','the key of that item then names another item',r'''
#include "bss-util/PriorityQueue.h"
int main() { for(int n = 2; n < 12; ++n) { bss::PriorityHeap<int, uint32_t> h; uint32_t k[16]; for(int i = 0; i < n; ++i) k[i] = h.Push(i); h.Set(k[n - 1], -5); for(int i = 0; i + 1 < n; ++i) if(h.Get(k[i]) != i) return 1; } return 0; }
''')
bug('p06-item-wrap','P06',[(I+'LinkedList.h','LLNode<T>* rootflip = backwards ? _last : _root;','LLNode<T>* rootflip = _root;')],
 'a backwards search that has to wrap around the front of the list','the search loops between the front items and misses the item behind the start',r'''
#include "bss-util/LinkedList.h"
#include <unistd.h>
using namespace bss;
int main() { alarm(5); LinkedList<int, StandardAllocator<LLNode<int>>, true, true> l; LLNode<int>* n[4]; for(int i = 0; i < 4; ++i) n[i] = l.Add(i); return l.Item(3, n[1], true) == n[3] ? 0 : 1; }
''')
bug('p07-circular-clear','P07',[(I+'ArrayCircular.h','BASE::_setLength(_array, _cur + 1, 0); //','BASE::_setLength(_array, _cur, 0); //')],
 'clearing or destroying a circular array of owning items that wraps and is not full','the newest item is never destroyed',r'''
#include "bss-util/ArrayCircular.h"
static int live; struct X { X() { ++live; } X(const X&) { ++live; } ~X() { --live; } };
int main() { { bss::ArrayCircular<X, int, bss::ARRAY_SAFE> a(4); for(int i = 1; i < 7; ++i) a.Push(X()); a.PopBack(); } return live; }
''')
