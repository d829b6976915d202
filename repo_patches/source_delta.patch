From d622c792daf3f26d022291a9ebed318bb169c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 01/47] fix: Array self assignment and self append,
 construction from a slice

---
 include/bss-util/Array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..5ff36f7 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -287,7 +287,7 @@ namespace bss {
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Array(CT capacity, typename Alloc::policy_type* policy) : BASE(capacity, policy) { BASE::_setLength(_array, 0, _capacity); }
     inline explicit Array(CT capacity = 0) : BASE(capacity) { BASE::_setLength(_array, 0, _capacity); }
-    inline explicit Array(const Slice<const T, CT>& slice) : BASE(slice.length) { BASE::_copy(_array, slice.begin, slice.length); }
+    inline explicit Array(const Slice<const T, CT>& slice) : BASE(slice.length) { BASE::_copy(_array, slice.start, slice.length); }
     inline ~Array() { BASE::_setLength(_array, _capacity, 0); }
     BSS_FORCEINLINE CT Add(const T& item) { _insert(item, _capacity); return _capacity - 1; }
     BSS_FORCEINLINE CT Add(T&& item) { _insert(std::move(item), _capacity); return _capacity - 1; }
@@ -342,6 +342,8 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(&copy == this)
+        return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
@@ -361,8 +363,9 @@ namespace bss {
     BSS_FORCEINLINE Array& operator +=(const Array& add) noexcept
     {
       CT old = _capacity;
-      BASE::_setCapacity(_capacity + add._capacity, _capacity);
-      BASE::_copy(_array + old, add._array, add._capacity);
+      CT n = add._capacity; // add could be this array
+      BASE::_setCapacity(old + n, old);
+      BASE::_copy(_array + old, add._array, n);
       return *this;
     }
     BSS_FORCEINLINE Array operator +(const Array& add) const noexcept { Array r(*this); return (r += add); }
-- 
2.43.0


From 9edd0b10d4f64550263632694105eda19d62e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 02/47] fix: DynArray self assignment destroyed the contents

---
 include/bss-util/DynArray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..376b65a 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,8 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(&copy == this)
+        return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
-- 
2.43.0


From 251784e0e869521f7f81a81586155b812a726870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 03/47] fix: ArbitraryArray left the length of a moved-from
 array set

---
 include/bss-util/DynArray.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 376b65a..c09aa80 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -351,7 +351,7 @@ namespace bss {
 
   public:
     inline ArbitraryArray(const ArbitraryArray& copy) : BASE(copy._capacity), _length(copy._length), _element(copy._element) { memcpy(_array, copy._array, _length*_element); }
-    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) {}
+    inline ArbitraryArray(ArbitraryArray&& mov) : BASE(std::move(mov)), _length(mov._length), _element(mov._element) { mov._length = 0; }
     inline ArbitraryArray(CT size = 0, CT element = 1) : BASE(size*element), _length(0), _element(element) {}
     template<typename T>
     inline CT Add(const T& item)
@@ -363,8 +363,8 @@ namespace bss {
     inline void Remove(CT index)
     {
       index *= _element;
-      assert(_capacity > 0 && index < _capacity);
-      memmove(_array + index, _array + index + _element, _capacity - index - _element);
+      assert(_capacity > 0 && index < _length*_element);
+      memmove(_array + index, _array + index + _element, (_length*_element) - index - _element);
       --_length;
     }
     inline void RemoveLast() { --_length; }
@@ -441,6 +441,7 @@ namespace bss {
     { 
       BASE::operator=(std::move(mov)); 
       _length = mov._length;
+      mov._length = 0;
       _element = mov._element; 
       return *this; 
     }
-- 
2.43.0


From 56f3327ee682d6fe177ab085da01dcf05918e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:09 +0000
Subject: [PATCH 04/47] fix: DynArray<bool> insertion carry, AddConstruct,
 SetCapacity, const Front/Back and copy assignment

---
 include/bss-util/DynArray.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c09aa80..bbac800 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -181,7 +181,7 @@ namespace bss {
     static_assert(std::is_unsigned<CType>::value, "CType must be an unsigned integral type.");
 
   public:
-    inline DynArray(const DynArray& copy) : BASE(copy._capacity), _length(copy._length) { memcpy(_array, copy._array, copy._capacity * sizeof(STORE)); }
+    inline DynArray(const DynArray& copy) : BASE(copy._capacity), _length(copy._length) { if(_array) memcpy(_array, copy._array, copy._capacity * sizeof(STORE)); }
     inline DynArray(DynArray&& mov) : BASE(std::move(mov)), _length(mov._length) { mov._length = 0; }
     inline explicit DynArray(CT capacity) : BASE(_maxChunks(capacity) / DIV_AMT), _length(0) {}
     inline DynArray() : BASE(0), _length(0) {}
@@ -193,7 +193,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { return Add(false); }
     inline void Remove(CT index)
     {
       assert(index < _length);
@@ -215,7 +215,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
@@ -240,8 +240,8 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { return operator[](0); }
+    BSS_FORCEINLINE bool Back() const { return operator[](_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
@@ -258,7 +258,8 @@ namespace bss {
     {
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      if(_array != copy._array)
+        memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
@@ -319,12 +320,12 @@ namespace bss {
       STORE mask = (STORE)(~0) << off;
       STORE store = _array[ind];
       _array[ind] = ((_array[ind] & mask) << 1) | (_array[ind] & (~mask));
-      STORE test = _array[ind];
 
       for(CT i = ind + 1; i < len; ++i)
       {
-        _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
-        store = _array[i];
+        STORE next = _array[i];
+        _array[i] = (store >> MOD_AMT) | ((next << 1) & (STORE)(~1));
+        store = next;
       }
     }
 
-- 
2.43.0


From 3273379072c6c36c8289158a989e5699347a65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:49 +0000
Subject: [PATCH 05/47] fix: AVLTree traversal recursion and move assignment of
 the allocator

---
 include/bss-util/AVLTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index e432b1a..ed6ef1d 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -161,11 +161,11 @@ namespace bss {
       return (cur != 0);
     }
 
-    inline AVLTree& operator=(AVLTree&& mov) { Clear(); _root = mov._root; mov._root = 0; return *this; }
+    inline AVLTree& operator=(AVLTree&& mov) { if(this == &mov) return *this; Clear(); Alloc::operator=(std::move(mov)); _root = mov._root; mov._root = 0; return *this; }
 
   protected:
     template<typename F>
-    BSS_FORCEINLINE static void _traverse(F lambda, Node* node)
+    inline static void _traverse(F& lambda, Node* node)
     {
       if(!node)
         return;
-- 
2.43.0


From f3ca5377f7b00b8493ce0c53c2664da89c796366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:49 +0000
Subject: [PATCH 06/47] fix: AATree removal before any search, Clear, Traverse
 and element lifetimes

---
 include/bss-util/AATree.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 8951010..65558f4 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -26,14 +26,14 @@ namespace bss {
     {
       _sentinel->level = 0;
       _sentinel->left = _sentinel->right = _sentinel;
-      _root = _sentinel;
+      _root = _deleted = _last = _sentinel;
     }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline AATree(typename Alloc::policy_type* policy) : Alloc(policy), _sentinel(Alloc::allocate(1))
     {
       _sentinel->level = 0;
       _sentinel->left = _sentinel->right = _sentinel;
-      _root = _sentinel;
+      _root = _deleted = _last = _sentinel;
     }
     inline ~AATree()
     {
@@ -41,7 +41,7 @@ namespace bss {
       Alloc::deallocate(_sentinel, 1);
     }
     inline void Insert(const T& data) { _insert(_root, data); }
-    inline bool Remove(const T& data) { return _remove(_root, data); }
+    inline bool Remove(const T& data) { _deleted = _sentinel; return _remove(_root, data); }
     // Gets the node that belongs to the data or returns nullptr if not found.
     inline AANODE<T>* Get(const T& data)
     {
@@ -59,7 +59,7 @@ namespace bss {
 
       return 0;
     }
-    inline void Clear() { _clear(_root); }
+    inline void Clear() { _clear(_root); _root = _sentinel; }
     // Gets the root, unless the tree is empty, in which case returns nullptr
     inline AANODE<T>* GetRoot() { return _root == _sentinel ? 0 : _root; }
     inline bool IsEmpty() { return _root == _sentinel; }
@@ -79,9 +79,10 @@ namespace bss {
     template<void(*FACTION)(T&)>
     inline void _traverse(AANODE<T>* n)
     {
-      _traverse(n->left);
+      if(n == _sentinel) return;
+      _traverse<FACTION>(n->left);
       FACTION(n->data);
-      _traverse(n->right);
+      _traverse<FACTION>(n->right);
     }
     inline void _skew(AANODE<T>*& n)
     {
@@ -110,7 +111,7 @@ namespace bss {
       {
         n = Alloc::allocate(1);
         n->left = n->right = _sentinel;
-        n->data = data;
+        new(&n->data) T(data);
         n->level = 1;
         return;
       }
@@ -144,7 +145,8 @@ namespace bss {
         _deleted->data = n->data;
         _deleted = _sentinel;
         n = n->right;
-        Alloc::deallocate(_last);
+        _last->~AANODE<T>();
+        Alloc::deallocate(_last, 1);
         _last = _sentinel;
         b = true;
       }
-- 
2.43.0


From 313e0059d6e112509b256c89436168ddf04c6b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:49 +0000
Subject: [PATCH 07/47] fix: TRBtree move construction and GetNear with
 duplicates

---
 include/bss-util/TRBtree.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2578cfa..febf600 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -403,7 +403,7 @@ namespace bss {
       mov._first = 0;
       mov._last = 0;
       mov.NIL = Alloc::allocate(1);
-      new (NIL) TRB_Node<T>(0);
+      new (mov.NIL) TRB_Node<T>(0);
       mov.NIL->left = mov.NIL;
       mov.NIL->right = mov.NIL;
       mov._root = mov.NIL;
@@ -529,7 +529,14 @@ namespace bss {
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
       else
-        return (res > 0 && parent->next) ? parent->next : parent;
+      {
+        if(res <= 0)
+          return parent;
+        TRB_Node<T>* n = parent->next;
+        while(n && n->color == -1) // skip duplicates of parent
+          n = n->next;
+        return n ? n : parent;
+      }
     }
 
     inline int DEBUGVERIFY() { return TRB_Node<T>::DEBUGVERIFY(_root, NIL); }
-- 
2.43.0


From bd0782bc4c2c042812cd74c0709f6666cc1ca4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:21 +0000
Subject: [PATCH 08/47] fix: Hash self assignment emptied the table

---
 include/bss-util/Hash.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..4f8329c 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,8 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(this == &copy)
+        return *this;
       Clear();
       if(!copy.n_buckets)
       {
@@ -318,6 +320,8 @@ namespace bss {
 
     Hash& operator=(Hash&& mov)
     {
+      if(this == &mov)
+        return *this;
       Clear();
       _freeall();
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From 4988bab83770b1ad177872cafb179a6fc923a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 09/47] fix: BinaryHeap removal from the middle broke the heap
 order, removal of the last item asserted, construction from an array, Clear
 leaked

---
 include/bss-util/BinaryHeap.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..1d8dbb8 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -43,14 +43,14 @@ namespace bss {
     inline BinaryHeap() : BASE(0) {}
     inline BinaryHeap(const T* src, CT length) : BASE(length)
     { 
-      _copy(_array, src, sizeof(T)*length);
+      BASE::_copy(_array, src, length);
       _length = length;
       Heapify(_array, _length);
     }
     template<CT I>
     inline explicit BinaryHeap(const T(&src)[I]) : BinaryHeap(src, I) {}
     template<CT I>
-    inline explicit BinaryHeap(const std::array<T, I>& src) : BinaryHeap(src, I) {}
+    inline explicit BinaryHeap(const std::array<T, I>& src) : BinaryHeap(src.data(), I) {}
     inline ~BinaryHeap() {}
     inline const T& Peek() { return _array[0]; }
     inline const T& Get(CT index) { assert(index < _length); return _array[index]; }
@@ -61,19 +61,24 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
     // Sets a key and percolates
     inline bool Set(CT index, const T& val) { return _set(index, val); }
     inline bool Set(CT index, T&& val) { return _set(index, std::move(val)); }
-    // To remove a node, we replace it with the last item in the heap and then percolate down
+    // To remove a node, we replace it with the last item in the heap and then percolate it down, or up if it belongs above its new parent
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      if(index + 1 < _length) //If this is already the last item in the heap there is nothing to replace it with
+      {
+        if(index > 0 && CFunc(_array[_length - 1], _array[CBH_PARENT(index)]) > 0)
+          PercolateUp(_array, _length - 1, index, _array[_length - 1], this);
+        else
+          PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      }
       BASE::RemoveLast();
       return true;
     }
-- 
2.43.0


From b4fb91c12cae9d06cbfc4f33ecb2edbbd1fb1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 10/47] fix: PriorityHeap move construction discarded the key
 table

---
 include/bss-util/PriorityQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 7dc3039..f468976 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -64,8 +64,8 @@ namespace bss {
     using BASE::_subarray;
 
   public:
-    PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) { _subarray = copy._subarray; }
-    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { _subarray = std::move(mov._subarray); }
+    PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) {}
+    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     explicit PriorityHeap(typename Alloc::policy_type* policy) : BASE(policy), _freelist((CT_)-1) {}
     PriorityHeap() : _freelist((CT_)-1) {}
@@ -93,6 +93,7 @@ namespace bss {
     { 
       BASE::operator=(std::move(mov)); 
       _freelist = mov._freelist; 
+      mov._freelist = (CT_)-1;
       return *this; 
     }
 
-- 
2.43.0


From 79ad8a9aa60adf270cc6d82d8db072a584330b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:55 +0000
Subject: [PATCH 11/47] fix: Queue::Discard, RandomQueue removal and
 ArrayCircular self assignment mishandled elements, Stack could not be copied

---
 include/bss-util/ArrayCircular.h |  2 ++
 include/bss-util/Queue.h         |  2 +-
 include/bss-util/RandomQueue.h   | 10 ++++++++--
 include/bss-util/Stack.h         |  4 ++--
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..9e7d9a2 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,8 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(&right == this)
+        return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..91e88d9 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { assert(_length != 0); BASE::Back().~T(); --_length; }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..9c7675a 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,15 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index) 
+    {
+      assert(index < _length);
+      if(index != _length - 1)
+        _array[index] = std::move(_array[_length - 1]);
+      BASE::RemoveLast();
+    }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From ee246117ae4fd65ac874ae7466c5d7ae4bb5aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:33 +0000
Subject: [PATCH 12/47] fix: LinkedList element lifetimes, copying and
 clearing, Item on an empty list; LinkedArray moves

---
 include/bss-util/LinkedArray.h |  4 +--
 include/bss-util/LinkedList.h  | 46 +++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/include/bss-util/LinkedArray.h b/include/bss-util/LinkedArray.h
index 3d8865b..b8a2da9 100644
--- a/include/bss-util/LinkedArray.h
+++ b/include/bss-util/LinkedArray.h
@@ -29,7 +29,7 @@ namespace bss {
 
     inline LinkedArray() : _ref(1), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline LinkedArray(const LinkedArray& copy) : _ref(copy._ref), _length(copy._length), _start(copy._start), _end(copy._end), _freelist(copy._freelist) {}
-    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._ref = 1; mov._length = 0; mov._start = mov._end = -1 = mov._freelist = -1; }
+    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._length = 0; mov._start = mov._end = mov._freelist = -1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LinkedArray(CT_ size, typename Alloc::policy_type* policy) : _ref(size, policy), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline explicit LinkedArray(CT_ size) : _ref(size), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
@@ -78,7 +78,7 @@ namespace bss {
     //inline LinkedArray& operator +=(const LinkedArray& right);
     //inline LinkedArray operator +(const LinkedArray& right) const { LinkedArray retval(*this); retval+=right; return retval; }
     inline LinkedArray& operator =(const LinkedArray& right) { _ref = right._ref; _length = right._length; _start = right._start; _end = right._end; _freelist = right._freelist; return *this; }
-    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; return *this; }
+    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; mov._length = 0; mov._start = mov._end = mov._freelist = -1; return *this; }
     BSS_FORCEINLINE T& GetItem(CT_ index) { return _ref[index].val; }
     BSS_FORCEINLINE const T& GetItem(CT_ index) const { return _ref[index].val; }
     BSS_FORCEINLINE T* GetItemPtr(CT_ index) { return &_ref[index].val; }
diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 66d854b..3feb534 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -63,6 +63,7 @@ namespace bss {
       inline LLNode<T>* Item(T item, LLNode<T>* from = 0, bool backwards = false) const
       { //if target is 0 we start from the root
         if(!from) from = _root;
+        if(!from) return 0; // the list is empty
         LLNode<T>* cur = from;
         LLNode<T>* rootflip = backwards ? _last : _root;
         while(cur->item != item)
@@ -79,6 +80,8 @@ namespace bss {
       inline LList_LAST(LList_LAST<T, L>&& mov) : _last(mov._last), _root(mov._root) { mov._root = 0; mov._last = 0; }
       inline void _add(LLNode<T>* node) { if(!_root) { node->next = node->prev = 0; _last = _root = node; } else _last = LLAddAfter<LLNode<T>>(node, _last); }
       inline void _remove(LLNode<T>* node) { LLRemove<LLNode<T>>(node, _root, _last); }
+      inline LLNode<T>* _tail() const { return _last; }
+      inline void _settail(LLNode<T>* node) { _last = node; }
       inline LList_LAST<T, L>& operator =(LList_LAST<T, L>&& mov) { _last = mov._last; mov._last = 0; _root = mov._root; mov._root = 0; return *this; }
 
       LLNode<T>* _root;
@@ -90,6 +93,7 @@ namespace bss {
       inline LLNode<T>* Item(T item, LLNode<T>* from = 0) const
       { //if target is 0 we start from the root
         if(!from) from = _root;
+        if(!from) return 0; // the list is empty
         LLNode<T>* cur = from;
         while(cur->item != item)
         {
@@ -103,6 +107,8 @@ namespace bss {
       inline LList_LAST() : _root(0) {}
       inline LList_LAST(LList_LAST<T, false>&& mov) : _root(mov._root) { mov._root = 0; }
       inline void _remove(LLNode<T>* node) { LLRemove<LLNode<T>>(node, _root); }
+      inline LLNode<T>* _tail() const { LLNode<T>* cur = _root; while(cur && cur->next) cur = cur->next; return cur; }
+      inline void _settail(LLNode<T>* node) {}
       inline void _add(LLNode<T>* node) { LLAdd<LLNode<T>>(node, _root); }
       inline LList_LAST<T, false>& operator =(LList_LAST<T, false>&& mov) { _root = mov._root; mov._root = 0; return *this; }
 
@@ -118,6 +124,8 @@ namespace bss {
     using internal::LList_LAST<T, useLast>::_root;
     using internal::LList_LAST<T, useLast>::_add;
     using internal::LList_LAST<T, useLast>::_remove;
+    using internal::LList_LAST<T, useLast>::_tail;
+    using internal::LList_LAST<T, useLast>::_settail;
     using internal::LList_SIZE<useSize>::_incsize;
 
   public:
@@ -126,8 +134,8 @@ namespace bss {
     inline explicit LinkedList(typename Alloc::policy_type* policy) : Alloc(policy) {}
     inline LinkedList() {}
     // Copy constructor
-    inline LinkedList(const LinkedList<T, Alloc>& copy) : Alloc(copy) { operator =(copy); }
-    inline LinkedList(LinkedList<T, Alloc>&& mov) : Alloc(std::move(mov)), internal::LList_LAST<T, useLast>(std::move(mov))
+    inline LinkedList(const LinkedList& copy) : Alloc(copy) { operator +=(copy); }
+    inline LinkedList(LinkedList&& mov) : Alloc(std::move(mov)), internal::LList_LAST<T, useLast>(std::move(mov))
     {
       internal::LList_SIZE<useSize>::operator=(mov);
       mov._zerosize();
@@ -137,8 +145,7 @@ namespace bss {
     // Appends the item to the end of the list
     inline LLNode<T>* Add(T item)
     {
-      LLNode<T>* node = Alloc::allocate(1);
-      node->item = item;
+      LLNode<T>* node = _createNode(item);
       _add(node);
       _incsize(); //increment size by one
       return node;
@@ -188,7 +195,9 @@ namespace bss {
         hold = nexthold;
       }
 
-      bssFill(*this, 0);
+      _root = 0;
+      _settail(0);
+      internal::LList_SIZE<useSize>::_zerosize();
     }
 
     inline LLNode<T>* Front() const { return _root; }
@@ -197,25 +206,32 @@ namespace bss {
     inline LLIter<T> begin() { return LLIter<T>(_root); }
     inline LLIter<T> end() { return LLIter<T>(0); }
 
-    template<typename U, bool V>
-    inline LinkedList& operator =(const LinkedList<T, U, useLast, V>& right) { if(&right == this) return *this; Clear(); return operator +=(right); }
-    template<typename U, bool V>
-    inline LinkedList& operator =(LinkedList<T, U, useLast, V>&& mov)
+    inline LinkedList& operator =(const LinkedList& right) { if(&right == this) return *this; Clear(); return operator +=(right); }
+    inline LinkedList& operator =(LinkedList&& mov)
     {
       if(&mov == this)
         return *this;
 
       Clear();
+      Alloc::operator=(std::move(mov));
       internal::LList_LAST<T, useLast>::operator=(std::move(mov));
       internal::LList_SIZE<useSize>::operator=(mov);
       mov._zerosize();
       return *this;
     }
-    template<typename U, bool L, bool V>
-    inline LinkedList& operator +=(const LinkedList<T, U, L, V>& right)
+    inline LinkedList& operator +=(const LinkedList& right)
     {
-      for(LLNode<T>* cur = right._root; cur != 0; cur = cur->next)
-        Add(cur->item);
+      LLNode<T>* stop = _tail(); // If right is this list, only the nodes that are in it now are appended
+      LLNode<T>* tail = stop;
+      for(LLNode<T>* cur = right._root; cur != 0; cur = (cur == stop) ? 0 : cur->next)
+      {
+        LLNode<T>* node = _createNode(cur->item, tail);
+        if(tail) tail->next = node;
+        else _root = node;
+        tail = node;
+        _incsize();
+      }
+      _settail(tail);
 
       return *this;
     }
@@ -230,13 +246,13 @@ namespace bss {
     inline LLNode<T>* _createNode(T _item, LLNode<T>* _prev = 0, LLNode<T>* _next = 0)
     {
       LLNode<T>* retval = Alloc::allocate(1);
-      retval->item = _item;
+      new(&retval->item) T(_item);
       retval->prev = _prev;
       retval->next = _next;
       return retval;
     }
 
-    inline void _deleteNode(LLNode<T>* target) { Alloc::deallocate(target, 1); }
+    inline void _deleteNode(LLNode<T>* target) { target->item.~T(); Alloc::deallocate(target, 1); }
   };
 }
 
-- 
2.43.0


From 4ce7d4b38e75c8c42132180aebf907ea5e3d7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:20 +0000
Subject: [PATCH 13/47] fix: Trie finds words with bytes above 127, an empty
 word, and grows past half the index range

---
 include/bss-util/Trie.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 049c7bd..49b9928 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -105,7 +105,7 @@ namespace bss {
     inline T operator[](const char* word) const { return Get(word); }
     inline Trie& operator=(const Trie& copy) { BASE::operator=(copy); _length = copy._length; return *this; }
     inline Trie& operator=(Trie&& mov) { BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
-    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE(t.chr, c); }
+    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE((unsigned char)t.chr, (unsigned char)c); } // must agree with the order used by strcmp
 
   protected:
     void _construct(T num, const char* const* initstr)
@@ -132,7 +132,7 @@ namespace bss {
         _array[i].chr = 0;
       }
     }
-    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity(_capacity << 1); _fill(s, _capacity); } }
+    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity((T)bssmin((size_t)_capacity << 1, (size_t)std::numeric_limits<T>::max())); _fill(s, _capacity); } }
     T _init(T len, PAIR const* str, T cnt, T level)
     {
       T r = cnt - 1;
@@ -142,8 +142,8 @@ namespace bss {
 
       if(!c) // The only place we'll recieve the end of the word is in our starting position due to alphabetical order
       {
-        _checkSize(r + 1);
-        _array[r + 1].word = str[0].first; 
+        _checkSize(cnt);
+        _array[cnt].word = str[0].first; 
         ++str;
         --len; 
       }
-- 
2.43.0


From f60473d5050386f87609ce7329e0b3a53626c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:20 +0000
Subject: [PATCH 14/47] fix: StringTable append to an empty table, stream
 constructor with short streams; strccount with a length

---
 include/bss-util/StringTable.h | 10 +++++++---
 include/bss-util/bss_util.h    |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6ca7859..5e7ff55 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -34,7 +34,12 @@ namespace bss {
 
       _strings.SetCapacity(bytes / sizeof(T));
       stream->read((char*)(T*)_strings, _strings.Capacity() * sizeof(T));
-      _strings[(stream->gcount() / sizeof(T)) - 1] = '\0'; //make sure the end is a null terminator
+      _strings.SetCapacity((CT_)(stream->gcount() / sizeof(T))); // Only keep what was actually in the stream
+
+      if(!_strings.Capacity())
+        return;
+
+      _strings[_strings.Capacity() - 1] = '\0'; //make sure the end is a null terminator
 
       _indices.SetCapacity(strccount<T>(_strings, 0, _strings.Capacity()));
       bssFillN<CT_>(_indices, _indices.Capacity(), 0);
@@ -61,12 +66,11 @@ namespace bss {
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
     inline void AppendString(const char* s)
     {
-      CT_ last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
+      CT_ last = _strings.Capacity(); // The strings are stored back to back, so the new one starts where the buffer ends
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
 
       _indices.SetCapacity(_indices.Capacity() + 1);
       _indices[_indices.Capacity() - 1] = last; // Add another indice and set its value appropriately
-      last = _strings.Capacity();
       _strings.SetCapacity(_strings.Capacity() + sz); // Allocate more space in string buffer
       memcpy(_strings + last, s, sz); // Copy over new string (including null terminator)
     };
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..1c85ee0 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -146,7 +146,7 @@ namespace bss {
   {
     static_assert(std::is_integral<T>::value, "T must be integral");
     size_t ret = 0;
-    for(size_t i = 0; (i < length) && ((*string) != 0); ++i)
+    for(size_t i = 0; i < length; ++i)
       if(string[i] == c) ++ret;
     return ret;
   }
-- 
2.43.0


From 28a89eaefc0a1bb1201cb6c7e4b2bc8b42b643d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:20 +0000
Subject: [PATCH 15/47] fix: DisjointSet copies, AddSets, move assignment and
 uniting a set with itself

---
 include/bss-util/DisjointSet.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..ab79cc3 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -20,9 +20,9 @@ namespace bss {
 
   public:
     // Construct a disjoint set with num initial sets
-    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
+    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy._capacity, copy), _numsets(copy._numsets) 
     { 
-      memcpy(_array, copy._array, _capacity); 
+      memcpy(_array, copy._array, _capacity * sizeof(Ty)); 
     }
     inline DisjointSet(DisjointSet&& mov) : ARRAY(std::move(mov)), _numsets(mov._numsets) { mov._numsets = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
@@ -42,6 +42,9 @@ namespace bss {
       if(_invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
+      if(set1 == set2) // A set is already united with itself
+        return true;
+
       Ty w1 = _array[set1];
       Ty w2 = _array[set2];
 
@@ -100,7 +103,8 @@ namespace bss {
     inline void AddSets(T n)
     {
       T i = _capacity;
-      SetCapacity(_capacity + n);
+      ARRAY::_setCapacity(_capacity + n);
+      _numsets += n;
 
       for(; i < _capacity; ++i)
         _array[i] = -1;
@@ -178,15 +182,22 @@ namespace bss {
 
     inline DisjointSet& operator=(const DisjointSet& copy) 
     {
-      SetCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(T));
+      if(this == &copy)
+        return *this;
+
+      ARRAY::_setCapacityDiscard(copy._capacity);
+      memcpy(_array, copy._array, _capacity * sizeof(Ty));
       _numsets = copy._numsets;
       return *this;
     }
     inline DisjointSet& operator=(DisjointSet&& mov) 
     {
+      if(this == &mov)
+        return *this;
+
       ARRAY::operator=(std::move(mov)); 
       _numsets = mov._numsets;
+      mov._numsets = 0;
       return *this;
     }
 
-- 
2.43.0


From 5f8d771c353a2bce18e31dd44ac9276664fe4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:20 +0000
Subject: [PATCH 16/47] fix: Graph breadth first search, vertex export, move
 assignment and max flow

---
 include/bss-util/Graph.h | 98 ++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 45 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 163c736..7a41028 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -78,7 +78,7 @@ namespace bss {
     // Build a matrix out of only a list of nodes
     inline Graph(CT n, const V* nodes) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(nodes + i); }
     inline explicit Graph(CT n) : _nodes(n), _nedges(0) { for(CT i = 0; i < n; ++i) AddNode(); }
-    inline ~Graph() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
+    inline ~Graph() { _clearEdges(); }
     inline CT NumNodes() const { return _nodes.Length(); }
     inline CT NumEdges() const { return _nedges; }
     inline CT Capacity() const { return _nodes.Capacity(); }
@@ -141,7 +141,7 @@ namespace bss {
 
       for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
       {
-        _setVertex(nodes, i, _nodes[i]);
+        _setVertex(nodes, hash[i], _nodes[i]);
 
         for(cur = _nodes[i].to; cur != 0; cur = cur->next)
           _getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);
@@ -153,6 +153,10 @@ namespace bss {
     inline Node<E, V, CT>& operator[](CT index) { return _nodes[index]; }
     inline Graph& operator=(Graph&& mov) 
     { 
+      if(this == &mov)
+        return *this;
+
+      _clearEdges();
       Alloc::operator=(std::move(mov));
       _nodes = std::move(mov._nodes); 
       _nedges = mov._nedges; 
@@ -166,6 +170,7 @@ namespace bss {
     typedef Edge<E, CT> EDGE_;
 
   protected:
+    void _clearEdges() { for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i)) while(_nodes[i].to) RemoveEdge(_nodes[i].to); }
     template<typename D, bool(*ISEDGE)(const D*)>
     void _construct(CT n, const D* M, const V* nodes)
     {
@@ -206,10 +211,12 @@ namespace bss {
     VARARRAY(int, excess, cap);
     VARARRAY(CT, height, cap);
     VARARRAY(PEDGE, seen, cap);
+    VARARRAY(bool, back, cap); // true if seen is going through the edges leading to the vertex instead of the ones leaving it
     VARARRAY(PAIR, v, (len - 2)); //integer based singly-linked list.
     bssFillN<int>(excess, cap);
     bssFillN<CT>(height, cap);
     bssFillN<PEDGE>(seen, cap);
+    bssFillN<bool>(back, cap);
     bssFillN<PAIR>(v, (len - 2), -1);
     PEDGE edge;
     auto& nodes = graph.GetNodes();
@@ -217,13 +224,13 @@ namespace bss {
     height[s] = len;
     excess[s] = (INT_MAX >> 1); //ensures we can't blow stuff up while sending flow backwards
 
-    CT root;
+    CT root = (CT)-1;
     CT* plast = &root;
     CT k = 0; // Build a list of all vertices except s and t
 
     for(CT i = nodes.Front(); i != (CT)-1; nodes.Next(i))
     {
-      seen[k] = nodes[i].to;
+      seen[i] = nodes[i].to;
 
       if(i != s && i != t)
       {
@@ -239,7 +246,7 @@ namespace bss {
     for(edge = nodes[s].to; edge != 0; edge = edge->next)
     {
       edge->data.flow = edge->data.capacity;
-      excess[edge->to] = edge->data.capacity;
+      excess[edge->to] += edge->data.capacity;
     }
 
     int send;
@@ -254,54 +261,50 @@ namespace bss {
 
       while(excess[k] > 0) // Discharge current vertex
       {
-        if(!seen[k]) //If seen is null, we tried all our neighbors so relabel
+        if(!seen[k]) // If seen is null, we tried every edge in the current direction
         {
-          send = INT_MAX;
+          if(!back[k]) // So if we were going forwards, try to push things backwards
+          {
+            back[k] = true;
+            seen[k] = nodes[k].from;
+            continue;
+          }
+
+          send = INT_MAX; // Otherwise we tried all our neighbors so relabel to one above the lowest neighbor we could still send flow to
 
           for(edge = nodes[k].to; edge != 0; edge = edge->next)
-          { // First we try to send it forward
-            if(edge->data.capacity - edge->data.flow > 0)
-            {
-              if(height[edge->to] < send) send = height[edge->to];
-              height[k] = send + 1; // we have to do this in here because if there is no valid relabel, the height can't change.
-            }
+          {
+            if(edge->data.capacity - edge->data.flow > 0 && height[edge->to] < send)
+              send = height[edge->to];
           }
 
-          if(send == INT_MAX) // If this is true, our forward relabel failed, so that means we need to try to push things backwards
+          for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
           {
-            for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
-            {
-              if(edge->data.flow > 0)
-              { // Negate the flow and set capacity to 0 because we're going backwards
-                if(height[edge->from] < send)
-                  send = height[edge->from];
-
-                height[k] = send + 1;
-              }
-            }
-            seen[k] = nodes[k].from;
+            if(edge->data.flow > 0 && height[edge->from] < send)
+              send = height[edge->from];
           }
-          else
-            seen[k] = nodes[k].to;
 
+          assert(send != INT_MAX); // A vertex with excess can always send it back to where it came from
+          height[k] = send + 1;
+          back[k] = false;
+          seen[k] = nodes[k].to;
           continue;
         }
-        if(excess[k] > 0)
-        {// If possible, do a push. We must check whether our current edge is backwards or not
-          send = (seen[k]->from == k) ? seen[k]->data.capacity - seen[k]->data.flow : seen[k]->data.flow;
-          target = (seen[k]->from == k) ? seen[k]->to : seen[k]->from;
-
-          if(height[k] > height[target] && send > 0)
-          { // If possible, do a push
-            if(excess[k] < send)
-              send = excess[k]; // send an amount equal to min(excess, capacity - flow)
-
-            seen[k]->data.flow += (seen[k]->from == k) ? send : -send; // Negate if the edge is backwards
-            excess[target] += send;
-            excess[k] -= send;
-          }
+
+        // We must check whether our current edge is backwards or not
+        send = back[k] ? seen[k]->data.flow : seen[k]->data.capacity - seen[k]->data.flow;
+        target = back[k] ? seen[k]->from : seen[k]->to;
+
+        if(height[k] == height[target] + 1 && send > 0)
+        { // If possible, do a push
+          if(excess[k] < send)
+            send = excess[k]; // send an amount equal to min(excess, capacity - flow)
+
+          seen[k]->data.flow += back[k] ? -send : send; // Negate if the edge is backwards
+          excess[target] += send;
+          excess[k] -= send;
         }
-        seen[k] = (seen[k]->from == k) ? seen[k]->next : seen[k]->alt.next;
+        seen[k] = back[k] ? seen[k]->alt.next : seen[k]->next;
       }
 
       if(lh != height[k]) // If the height changed...
@@ -313,6 +316,7 @@ namespace bss {
           root = c;
         }
 
+        last = (CT)-1;
         c = root; // restart traversal at start of list
         continue;
       }
@@ -423,8 +427,11 @@ namespace bss {
     size_t l = 0;
     for(E* edge = n[root].to; edge != 0; edge = edge->next)
     {
-      if(edge->to != root)
+      if(set.Find(edge->to) != root)
+      {
+        set.Union(root, edge->to); // Mark nodes when they are enqueued, so no node can be enqueued twice
         queue[l++] = edge->to;
+      }
     }
 
     for(size_t i = 0; i != l; ++i) // Go through the queue
@@ -432,12 +439,13 @@ namespace bss {
       if(FACTION(queue[i]))
         return;
 
-      set.Union(root, queue[i]);
-
       for(E* edge = n[queue[i]].to; edge != 0; edge = edge->next)
       {
         if(set.Find(edge->to) != root) //Enqueue the children if they aren't already in the set.
+        {
+          set.Union(root, edge->to);
           queue[l++] = edge->to; // Doesn't need to be circular because we can only enqueue n-1 anyway.
+        }
       }
     }
   }
-- 
2.43.0


From 7e2edaf8931cd3e5bec37523cbf1721a7cb5e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:20 +0000
Subject: [PATCH 17/47] fix: KDTree rebalance and Solve keep items reachable

---
 include/bss-util/KDTree.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 91be8af..5a45d3a 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -133,7 +133,7 @@ namespace bss {
     {
       float rect[4] = { -FLT_MAX, -FLT_MAX, FLT_MAX, FLT_MAX };
       KDNode<T>* parents[4] = { 0 };
-      float total[2];
+      float total[2] = { 0, 0 };
       _rebalance(node, rect, parents, total); // We don't bother trying to do a checkdestroy here because it isn't possible. In order for this node to be rebalanced, it must have images, and those images cannot go higher than this node in the tree.
     }
     inline void InsertRoot(T* item)
@@ -166,7 +166,8 @@ namespace bss {
         *pnode = 0;
         return;
       }
-      node->div = node->total[node->axis] / (node->num * 2);
+      if(!node->left && !node->right) // The divider can't be moved if there already are items sorted by it
+        node->div = node->total[node->axis] / (node->num * 2);
 
       KDNode<T>** p;
       KDNode<T>* h;
@@ -240,9 +241,9 @@ namespace bss {
         itemr = FRECT(item);
 
         if(itemr[0] < r[0]) i = 0; // Check for a violation. We don't bother checking to see if there are multiple violations, because 
-        if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
-        if(itemr[2] > r[2]) i = 2;
-        if(itemr[3] > r[3]) i = 3;
+        else if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
+        else if(itemr[2] > r[2]) i = 2;
+        else if(itemr[3] > r[3]) i = 3;
         else continue;
 
         node->total[0] -= itemr[0] + itemr[2]; // Remove image from us
-- 
2.43.0


From 7ac225f03e3c7b9a3e0e1aabee75237cf6a1aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:06 +0000
Subject: [PATCH 18/47] fix: 64-bit bit helpers (bit ranges, bit test, square
 root, log2) used 32-bit intermediates

---
 include/bss-util/bss_util.h | 6 +++---
 include/bss-util/defines.h  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 1c85ee0..24dc6be 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -108,7 +108,7 @@ namespace bss {
   BSS_FORCEINLINE T bssSetBit(T word, T bit, bool v) noexcept { return (((word) & (~(bit))) | ((T)(-(typename std::make_signed<T>::type)v) & (bit))); }
 
   template<class T>
-  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (1 << (index % (sizeof(T) << 3)))) != 0; }
+  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (((T)1) << (index % (sizeof(T) << 3)))) != 0; }
 
   // Replaces one character with another in a string
   template<typename T>
@@ -646,7 +646,7 @@ namespace bss {
       if(n >= t)
       {
         n -= t;
-        root |= 2 << (i);
+        root |= ((T)2) << (i);
       }
     }
     return root >> 1;
@@ -870,7 +870,7 @@ namespace bss {
     unsigned long r;
     _BitScanReverse64(&r, v);
 #elif defined(BSS_COMPILER_GCC) && defined(BSS_64BIT)
-    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clz(v));
+    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clzll(v));
 #else
     const uint64_t b[] = { 0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000 };
     const uint32_t S[] = { 1, 2, 4, 8, 16, 32 };
diff --git a/include/bss-util/defines.h b/include/bss-util/defines.h
index cb8dd98..6a96a1a 100644
--- a/include/bss-util/defines.h
+++ b/include/bss-util/defines.h
@@ -46,7 +46,7 @@
 #define T_GETBIT(type, bit) ((type)(((type)1)<<(((type)bit)%(sizeof(type)<<3)))) // Gets a bitmask using its 0-based index.
 //#define T_GETBITRANGE(type, low, high) ((type)((((2<<((high)-(low)))-1)<<(low))|(((2<<((high)-(low)))-1)>>(-(low)))|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3)))))
 // Gets a bitmask for a range of bits. This range can be negative to start from the left end instead of the right.
-#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((2<<((high)-(low)))-1),low)|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
+#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((((type)2)<<((high)-(low)))-1),low)|(((((type)2)<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
 #define MAKEVERSIONINT(major,minor,revision) ((major) + ((minor)<<8) + ((revision)<<16)) // Packs version information into a 32-bit integer
 // This calculates the most significant bit in an 8-bit integer (CHAR) at compile time. It's really just a basterdized version of
 // i |= i >> 1; i |= i >> 2; i |= i >> 4; i -= i >> 1; so that it happens during compile time.
-- 
2.43.0


From 58ab8c4fed5ec2a73ad58209158833b1e0be3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:10 +0000
Subject: [PATCH 19/47] fix: BitField iteration over 64-bit words, BitStream
 partial reads into used memory, CompactArray inline initialiser lists

---
 include/bss-util/BitField.h     | 2 +-
 include/bss-util/BitStream.h    | 2 +-
 include/bss-util/CompactArray.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/BitField.h b/include/bss-util/BitField.h
index 6579a36..c71ecee 100644
--- a/include/bss-util/BitField.h
+++ b/include/bss-util/BitField.h
@@ -97,7 +97,7 @@ namespace bss {
         if(!_bit)
         {
           --_bits;
-          _bit = (1 << ((sizeof(Ty) << 3) - 1));
+          _bit = (((Ty)1) << ((sizeof(Ty) << 3) - 1));
         }
       }
 
diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..721b333 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset);
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 868f7ff..278fdfe 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -46,7 +46,7 @@ namespace bss {
       CT len = Length();
 
       for(auto i = list.begin(); i != end && j < len; ++i)
-        new(_array + (j++)) T(*i);
+        new(begin() + (j++)) T(*i);
     }
     inline ~CompactArray() 
     { 
-- 
2.43.0


From 74116bf042a25492da48c4820e3bd9ae75085fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 20/47] fix: fixed-point format conversion shifted the wrong
 way and narrowed too early

---
 include/bss-util/FixedPt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/FixedPt.h b/include/bss-util/FixedPt.h
index b487c14..f872be8 100644
--- a/include/bss-util/FixedPt.h
+++ b/include/bss-util/FixedPt.h
@@ -62,7 +62,7 @@ namespace bss {
   public:
     inline constexpr Fixed(const Fixed& copy) : _bits(copy._bits) {}
     template<uint8_t B, typename U, bool S>
-    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, B - D>(copy.Bits())) {}
+    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<std::common_type_t<T, U>, D - B>(copy.Bits())) {}
     inline constexpr explicit Fixed(const T v) : _bits(v << D) {}
     inline constexpr Fixed(BITS bits) : _bits(bits.bits) {}
     inline explicit Fixed(const float f) : _bits(FixedPtConv<T, D, float>(f)) {}
@@ -75,7 +75,7 @@ namespace bss {
 
     inline Fixed& operator=(const Fixed& right) { _bits = right._bits; return *this; }
     template<uint8_t B, typename U, bool S>
-    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, B - D>(right.Bits()); return *this; }
+    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<std::common_type_t<T, U>, D - B>(right.Bits()); return *this; }
 
     inline Fixed<(sizeof(T) << 3) - D, T, SATURATE> Reciprocal() const
     { 
-- 
2.43.0


From 7f36047ee759dbc8e5fdc1e22fc6754d95072108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 21/47] fix: alias table copies, stuck generator for seed 0 and
 long discards

---
 include/bss-util/AliasTable.h     | 10 +++++-----
 include/bss-util/XorshiftEngine.h |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index a8a088a..b5c18a1 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -15,8 +15,8 @@ namespace bss {
     AliasTable(const AliasTable& copy) : _alias(new UINT[copy._count]), _prob(new F[copy._count]), _count(copy._count),
       _dist(copy._dist), _fdist(copy._fdist)
     {
-      memcpy(_alias, copy._alias, sizeof(UINT)*copy._count);
-      memcpy(_prob, copy._prob, sizeof(UINT)*copy._count);
+      memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
     }
     AliasTable(AliasTable&& mov) : _prob(std::move(mov._prob)), _alias(std::move(mov._alias)),
       _dist(std::move(mov._dist)), _fdist(std::move(mov._fdist)), _count(mov._count)
@@ -101,8 +101,8 @@ namespace bss {
     template<typename ENGINE>
     BSS_FORCEINLINE UINT operator()(ENGINE& e) const { return Get<ENGINE>(e); }
     BSS_FORCEINLINE UINT operator()(void) const { return Get(); }
-    inline F* GetProbabilities() const { return _prob; }
-    inline UINT* GetAliases() const { return _alias; }
+    inline F* GetProbabilities() const { return _prob.get(); }
+    inline UINT* GetAliases() const { return _alias.get(); }
     inline UINT GetCount() const { return _count; }
 
     inline AliasTable& operator=(const AliasTable& copy)
@@ -113,7 +113,7 @@ namespace bss {
       _alias.reset(new UINT[copy._count]);
       _prob.reset(new F[copy._count]);
       memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
-      memcpy(_prob.get(), copy._prob.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
       return *this;
     }
     inline AliasTable& operator=(AliasTable&& mov)
diff --git a/include/bss-util/XorshiftEngine.h b/include/bss-util/XorshiftEngine.h
index d1460eb..c3bce65 100644
--- a/include/bss-util/XorshiftEngine.h
+++ b/include/bss-util/XorshiftEngine.h
@@ -33,6 +33,8 @@ namespace bss {
   // Generates a seed for xorshift1024star from a 64-bit value
   inline void GenXor1024Seed(uint64_t x, uint64_t(&seed)[17])
   {
+    if(!x) // an all-zero state would never produce anything but zero
+      x = UINT64_C(2685821657736338717);
     xorshift64star(x);
     for(uint8_t i = 0; i < 16; ++i)
       seed[i] = xorshift64star(x);
@@ -100,7 +102,7 @@ namespace bss {
     }
     void discard(unsigned long long z)
     {
-      for(int i = 0; i < z; ++i)
+      for(unsigned long long i = 0; i < z; ++i)
         xorshift1024star(_state);
     }
 
-- 
2.43.0


From 9b5e0628d6793bc9f63650c4879f0909f134869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:38 +0000
Subject: [PATCH 22/47] fix: breadth-first tree queue size, base-64 reads
 outside its table, 64-bit FNV hash and running variance

---
 include/bss-util/algo.h     | 13 +++++++------
 include/bss-util/bss_util.h |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index ecafb3f..ccf8286 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -305,7 +305,7 @@ namespace bss {
       return;
     }
 
-    n = (n / 2) + 1;
+    n = (n / 2) + 3; // At most (n + 1)/2 nodes can be waiting at once, plus the current node and one empty slot
     VARARRAY(T*, queue, n);
     queue[0] = root;
     size_t l = 1;
@@ -679,19 +679,20 @@ namespace bss {
     uint8_t map[78] = { 62,0,0,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,
     0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,63,0,
     26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51 };
+    auto get = [&map](char ch) -> uint8_t { size_t k = (size_t)(ch - '-'); return k < sizeof(map) ? map[k] : 0; }; // characters outside the map count as zero, like the gaps inside it
     size_t s = cnt & (~0b11);
 
     for(; i < s; i += 4)
     {
-      out[c++] = (map[src[i + 0] - '-'] << 2) | (map[src[i + 1] - '-'] >> 4);
-      out[c++] = (map[src[i + 1] - '-'] << 4) | (map[src[i + 2] - '-'] >> 2);
-      out[c++] = (map[src[i + 2] - '-'] << 6) | (map[src[i + 3] - '-']);
+      out[c++] = (get(src[i + 0]) << 2) | (get(src[i + 1]) >> 4);
+      out[c++] = (get(src[i + 1]) << 4) | (get(src[i + 2]) >> 2);
+      out[c++] = (get(src[i + 2]) << 6) | (get(src[i + 3]));
     }
 
     if(++i < cnt) // we do ++i here even though i was already valid because the first character requires TWO source characters, not 1.
-      out[c++] = (map[src[i - 1] - '-'] << 2) | (map[src[i] - '-'] >> 4); 
+      out[c++] = (get(src[i - 1]) << 2) | (get(src[i]) >> 4); 
     if(++i < cnt)
-      out[c++] = (map[src[i - 1] - '-'] << 4) | (map[src[i] - '-'] >> 2);
+      out[c++] = (get(src[i - 1]) << 4) | (get(src[i]) >> 2);
     return c;
   }
 }
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 24dc6be..f5c752d 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -693,7 +693,7 @@ namespace bss {
     static_assert(std::is_integral<CT_>::value, "CT_ must be integral");
     static_assert(std::is_floating_point<T>::value, "T must be float, double, or long double");
     T delta = nvalue - avg;
-    avg += delta / (T)nvalue;
+    avg += delta / (T)nextnum;
     curvariance += delta*(nvalue - avg);
   }
 
@@ -1011,7 +1011,7 @@ namespace bss {
   }
 
   inline constexpr uint64_t hash64_fnv1a(const char* const str, const uint64_t value = 0xcbf29ce484222325) noexcept {
-    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL));
+    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL);
   }
 
   // template helper is_specialization_of, which can check if T is a specialization of any type that takes a variadic number of arguments (variant, tuple, etc.)
-- 
2.43.0


From 048a29138151ed353de0273f3db8bc4d17b0a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:16 +0000
Subject: [PATCH 23/47] fix: UTF conversions with an explicit length read one
 element past an unterminated input

---
 bss-util/ConvertUTF.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 0c758ce..058c076 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -118,7 +118,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
   UTF16* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     buflen += 1 + (*input > UNI_MAX_BMP);
     ++input;
@@ -255,7 +255,7 @@ BSS_DLLEXPORT size_t UTF32toUTF8(const char32_t*BSS_RESTRICT input, ptrdiff_t sr
   UTF8* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     if(*input < (UTF32)0x80)
       buflen += 1;
@@ -400,7 +400,7 @@ BSS_DLLEXPORT size_t UTF8toUTF32(const char*BSS_RESTRICT input, ptrdiff_t srclen
   UTF32* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char*)source) < srclen)
+  while((input - (const char*)source) < srclen && *input)
   {
     buflen += (((*input) & 0b11000000) != 0b10000000);
     ++input;
-- 
2.43.0


From 38562a02f677f0ff40e3c660bda51ba5d9d29a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:16 +0000
Subject: [PATCH 24/47] fix: Str conversions drop the last character of
 unterminated input; trimming removes non-ASCII text or writes past the end;
 OutputUnicode drops U+10FFFF

---
 include/bss-util/Str.h      | 6 +++---
 include/bss-util/bss_util.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index a235ec3..04f16f1 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -291,7 +291,7 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      BASE::resize((r > 0 && !_internalPtr()[r - 1]) ? r - 1 : r); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if there is one)
     }
     BSS_FORCEINLINE void _convStr2(const OTHER_C2* src, ptrdiff_t len)
     {
@@ -304,11 +304,11 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      BASE::resize((r > 0 && !_internalPtr()[r - 1]) ? r - 1 : r); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if there is one)
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && *inter < 33; --inter); *(++inter) = 0; return str; }
+    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && inter[-1] >= 0 && inter[-1] < 33; --inter); *inter = 0; return str; }
 
   };
 #pragma warning(pop)
diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index f5c752d..c36476f 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -209,8 +209,8 @@ namespace bss {
     static_assert(std::is_integral<T>::value, "T must be integral");
     T* inter = str + strlen(str);
 
-    for(; inter > str && *inter < 33; --inter);
-    *(++inter) = '\0';
+    for(; inter > str && inter[-1] > 0 && inter[-1] < 33; --inter);
+    *inter = '\0';
     return str;
   }
 
@@ -331,7 +331,7 @@ namespace bss {
     if(c < 0x0080) s += c;
     else if(c < 0x0800) { s += (0xC0 | c >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     else if(c < 0x10000) { s += (0xE0 | c >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
-    else if(c < 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
+    else if(c <= 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     // Otherwise this is an illegal codepoint so just ignore it
   }
 
-- 
2.43.0


From f27d0e99bcb57353dfbddcc22ce6bb68af8176ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:07 +0000
Subject: [PATCH 25/47] fix: move assignment of GreedyAlloc and
 LocklessBlockPolicy leaked the old memory, moving a CacheAlloc lost its size
 table, CachePolicy shrinking freed with the wrong size

---
 include/bss-util/BlockAllocMT.h | 7 +++++++
 include/bss-util/CacheAlloc.h   | 6 ++----
 include/bss-util/GreedyAlloc.h  | 8 ++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 0259175..ef56083 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -92,6 +92,13 @@ namespace bss {
 
     LocklessBlockPolicy& operator=(LocklessBlockPolicy&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
+      while(Node* hold = _root)
+      {
+        _root = hold->next;
+        free(hold);
+      }
       _root = mov._root;
       _freelist.p = mov._freelist.p;
       _freelist.tag = mov._freelist.tag;
diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..4b83b01 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -15,7 +15,7 @@ namespace bss {
     CacheAlloc& operator=(const CacheAlloc& copy) = delete;
     
   public:
-    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign) {}
+    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign), _cache(std::move(mov._cache)) {}
     inline explicit CacheAlloc(size_t maxsize = 8192, size_t init = 64, size_t align = 1) : GreedyAlloc(init, align), _maxsize(maxsize), _debugalign(bssmax(align, sizeof(size_t))) {}
     inline ~CacheAlloc() {}
 
@@ -145,9 +145,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, ((cnt < old) ? cnt : old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..4d6b31c 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -124,6 +124,14 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      if(this == &mov)
+        return *this;
+      for(Node* hold = _root.load(std::memory_order_relaxed); hold != nullptr;)
+      {
+        Node* cur = hold;
+        hold = hold->next;
+        ALIGNEDFREE(cur);
+      }
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
-- 
2.43.0


From 141d9b5d86e6fd155a8144d8e3023f466f05d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:31 +0000
Subject: [PATCH 26/47] fix: 4-byte compare-and-swap used 8-byte operations;
 moving the lockless queues did not compile or leaked the old nodes

---
 include/bss-util/LocklessQueue.h | 26 ++++++++++++++++++++++----
 include/bss-util/lockless.h      |  4 ++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..c66e992 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -49,7 +49,7 @@ namespace bss {
     LocklessQueue& operator=(const LocklessQueue&) = delete;
 
   public:
-    LocklessQueue(LocklessQueue&& mov) : Alloc(std::move(mov)), internal::LocklessQueue_Length<LENGTH>(std::move(mov)), _div(mov._div), _last(mov._last), _first(mov._first) { mov._div = mov._last = mov._first = 0; }
+    LocklessQueue(LocklessQueue&& mov) : Alloc(std::move(mov)), internal::LocklessQueue_Length<LENGTH>(std::move(mov)), _first(mov._first), _div(mov._div.load(std::memory_order_relaxed)), _last(mov._last.load(std::memory_order_relaxed)) { mov._first = 0; mov._div = nullptr; mov._last = nullptr; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LocklessQueue(typename Alloc::policy_type* policy) : Alloc(policy)
     {
@@ -91,11 +91,21 @@ namespace bss {
 
     inline LocklessQueue& operator=(LocklessQueue&& mov)
     {
+      if(this == &mov)
+        return *this;
+      while(QNODE* tmp = _first)
+      {
+        _first = _first->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
       Alloc::operator=(std::move(mov));
-      _div = mov._div;
-      _last = mov._last;
+      _div = mov._div.load(std::memory_order_relaxed);
+      _last = mov._last.load(std::memory_order_relaxed);
       _first = mov._first;
-      mov._div = mov._last = mov._first = 0;
+      mov._first = 0;
+      mov._div = nullptr;
+      mov._last = nullptr;
       internal::LocklessQueue_Length<LENGTH>::operator=(std::move(mov));
       return *this;
     }
@@ -191,6 +201,14 @@ namespace bss {
     inline bool Peek() { return _div->next != 0; }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
+      if(this == &mov)
+        return *this;
+      while(QNODE* tmp = _div)
+      {
+        _div = _div->next;
+        tmp->~QNODE();
+        Alloc::deallocate(tmp, 1);
+      }
       Alloc::operator=(std::move(mov));
       _div = mov._div;
       _last = mov._last;
diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..e888c04 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -138,7 +138,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -183,7 +183,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From 1fbb829e4b69bf9e508a005fb7c4a6a6532a0c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 27/47] fix: sub-slicing did not compile, ignored the end and
 miscounted negative ends

---
 include/bss-util/Array.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 5ff36f7..d6ec7bc 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -44,15 +44,14 @@ namespace bss {
       return r; 
     }
     inline const Slice operator()(CType begin) const { return operator()(begin, length); }
-    inline const Slice operator()(CType begin, CType end) const { return operator()(begin, length); }
+    inline const Slice operator()(CType begin, CType end) const { return const_cast<Slice*>(this)->operator()(begin, end); }
     inline Slice operator()(CType begin) { return operator()(begin, length); }
     inline Slice operator()(CType begin, CType end)
     {
-      assert(abs(begin) < length);
-      assert(end <= length);
-      begin = bssMod(begin, length);
-      if(end <= 0) end = length - end;
-      assert(end >= start);
+      if(begin < 0) begin += length; // negative indexes count from the end
+      if(end <= 0) end += length;
+      assert(begin >= 0 && begin <= length);
+      assert(end >= begin && end <= length);
       return Slice(start + begin, end - begin);
     }
     inline bool operator!() const noexcept { return !start || !length; }
-- 
2.43.0


From 7cd246aad9cfbcd2f654a0d233dbd159d9ea226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 28/47] fix: OwnerPtr move assignment claimed ownership it was
 not given; assigning a smart pointer to itself or from what it owns used
 freed memory

---
 include/bss-util/RefCounter.h | 17 ++++++++++-------
 include/bss-util/SmartPtr.h   |  6 +++++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..bf88e90 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,21 +63,24 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
-
+      T* old = _p; // dropping this reference can destroy right
       _p = right._p;
-      right._p = 0; 
+      if(this != &right)
+      {
+        right._p = 0; 
+        if(old != 0) 
+          old->Drop();
+      }
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
-
+      T* old = _p;
       _p = right; 
       if(_p != 0) 
         _p->Grab(); 
+      if(old != 0) // drop last, because this can destroy whatever right belonged to
+        old->Drop();
 
       return *this; 
     }
diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..1dd8133 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,8 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
       _disown();
       _p = right._p;
       _owner = false;
@@ -61,9 +63,11 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
+      if(this == &right)
+        return *this;
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; 
       right._owner = false;
       return *this; 
     }
-- 
2.43.0


From 666cbbbd99d90f183e172a31aaa28e83e4ef6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:16 +0000
Subject: [PATCH 29/47] fix: Variant storage was misaligned for its
 alternatives, and assigning an empty variant to an empty one failed

---
 include/bss-util/Variant.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..1aeae84 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -38,11 +38,10 @@ namespace bss {
     template<typename A, typename... Ax>
     struct max_alignof {
       static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
     };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -216,7 +215,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -229,7 +228,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -262,11 +261,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, aligned for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From 7b1a754bd8b0f7bcb638325f9c63ae952f569b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:31 +0000
Subject: [PATCH 30/47] fix: Scheduler::Update read an empty heap and ran
 destroyed events, and removed the wrong event when one added another; warped
 timer steps disagreed

---
 bss-util/HighPrecisionTimer.cpp |  2 +-
 include/bss-util/Scheduler.h    | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bss-util/HighPrecisionTimer.cpp b/bss-util/HighPrecisionTimer.cpp
index 75e1b84..b8605fb 100644
--- a/bss-util/HighPrecisionTimer.cpp
+++ b/bss-util/HighPrecisionTimer.cpp
@@ -48,7 +48,7 @@ double HighPrecisionTimer::Update(double timewarp)
   _nsDelta = ((newTime - _curTime) * 1000000000) / warpfreq;
 #else
   _delta = (newTime - _curTime) / (1000000 * timewarp);
-  _nsDelta = (uint64_t)((newTime - _curTime)*timewarp);
+  _nsDelta = (uint64_t)((newTime - _curTime) / timewarp);
 #endif
   _curTime = newTime;
   _nsTime += _nsDelta;
diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 37914a7..96d7f5c 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -33,14 +33,12 @@ namespace bss {
     {
       HighPrecisionTimer::Update();
 
-      while(BASE::Peek().first <= _time)
+      while(!BASE::Empty() && BASE::Peek().first <= _time)
       {
-        double r = BASE::Peek().second();
-
-        if(r == 0.0)
-          BASE::Remove(0);
-        else
-          BASE::Set(0, std::pair<double, F>(r + _time, BASE::Peek().second)); // This is why we don't use the actual priority queue data structure
+        std::pair<double, F> e = BASE::Pop(); // The event is taken out before it runs, because it can add other events
+        double r = e.second();
+        if(r > 0.0)
+          BASE::Insert(std::pair<double, F>(r + _time, std::move(e.second)));
       }
     }
   };
-- 
2.43.0


From 0a431cd88df322c86992ac000c8aeab649774503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:16 +0000
Subject: [PATCH 31/47] fix: UBJSON arrays, strings and generic values survive
 a round trip and truncated input

---
 bss-util/UBJSON.cpp           |  6 ++-
 include/bss-util/Serializer.h | 29 ++++++++++++---
 include/bss-util/UBJSON.h     | 70 +++++++++++++++++++++++++----------
 3 files changed, 80 insertions(+), 25 deletions(-)

diff --git a/bss-util/UBJSON.cpp b/bss-util/UBJSON.cpp
index 96a8342..2affb6b 100644
--- a/bss-util/UBJSON.cpp
+++ b/bss-util/UBJSON.cpp
@@ -52,7 +52,8 @@ UBJSONTuple::UBJSONTuple(UBJSONTuple&& mov) : Type(mov.Type), Length(mov.Length)
 }
 UBJSONTuple::UBJSONTuple() : Type(TYPE_NONE), Length(-1), Int64(0) {}
 UBJSONTuple::UBJSONTuple(TYPE type, int64_t length, const char* s) : Type(type), Length(length), String(const_cast<char*>(s)) {}
-UBJSONTuple::~UBJSONTuple()
+UBJSONTuple::~UBJSONTuple() { Clear(); }
+void UBJSONTuple::Clear()
 {
   switch(Type)
   {
@@ -70,6 +71,9 @@ UBJSONTuple::~UBJSONTuple()
   default:
     break;
   }
+  Type = TYPE_NONE;
+  Length = -1;
+  Int64 = 0;
 }
 void UBJSONTuple::Parse(std::istream& s, TYPE ty)
 {
diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 98098f8..6685f85 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -66,6 +66,9 @@ namespace bss {
 
       template<class E, class T, class V = void> struct is_serializable : std::false_type {};
 
+      template<class E, class V = void> struct has_skip : std::false_type {};
+      template<class E> struct has_skip<E, std::void_t<decltype(&E::Skip)>> : std::true_type {};
+
       // Classifies types by action performed (value, integer, key-value pair, array)
       template<class Engine, class T>
       struct Action // Arbitrary value
@@ -149,8 +152,7 @@ namespace bss {
         }
         static inline bool Read(Serializer<Engine>& e, std::vector<T, Alloc>& obj, int64_t count)
         {
-          obj.resize(count);
-          return e.BulkRead(std::begin(obj), std::end(obj), count);
+          return false; // The iterators of a vector can't be used for bulk operations
         }
         static inline void Parse(Serializer<Engine>& e, std::vector<T, Alloc>& obj, const char* id)
         {
@@ -236,7 +238,7 @@ namespace bss {
   class Serializer
   {
   public:
-    Serializer() {}
+    Serializer() : out(0), in(0) {}
     explicit Serializer(std::ostream& s) : out(&s), in(0) {}
     explicit Serializer(std::istream& s) : out(0), in(&s) {}
     ~Serializer() { if(out) out->flush(); }
@@ -354,7 +356,14 @@ namespace bss {
     template<typename... Args> // This function must be static due to some corner cases on certain parsers
     inline static void FindParse(Serializer<Engine>& e, const char* key, const Trie<uint16_t>& trie, const std::tuple<std::pair<const char*, Args&>...>& args)
     {
-      _findparse<sizeof...(Args)-1, Args...>::F(e, trie[key], args);
+      uint16_t index = trie[key];
+      if(index >= sizeof...(Args))
+      {
+        if constexpr(internal::serializer::has_skip<Engine>::value)
+          Engine::Skip(e); // This is a value we don't know about, so skip over it
+        return;
+      }
+      _findparse<sizeof...(Args)-1, Args...>::F(e, index, args);
       //r_findparse<sizeof...(Args)-1, Args...>(e, trie[key], args);
     }
 
@@ -370,15 +379,25 @@ namespace bss {
     template<class T, class C, void (T::*SET)(C)>
     static inline bool DynamicRead(Serializer<Engine>& e, T& obj, int64_t count)
     {
+      if constexpr(!CanBulkRead<decltype(std::begin(obj))>())
+        return false; // Don't change the length unless we are actually going to read the elements
       (obj.*SET)(count);
       return e.BulkRead(std::begin(obj), std::end(obj), count);
     }
 
+    // Bulk reads are only done for arrays of bytes, so the elements must actually be bytes
+    template<class T>
+    static constexpr bool CanBulkRead()
+    {
+      typedef remove_cvref_t<decltype(*std::declval<T>())> Element;
+      return sizeof(Element) == 1 && std::is_arithmetic_v<Element> && !std::is_same_v<Element, bool> && std::is_pointer_v<std::decay_t<T>>;
+    }
+
     template<class T>
     inline bool BulkRead(T && begin, T && end, int64_t count)
     {
       typedef remove_cvref_t<decltype(*begin)> Element;
-      if constexpr(std::is_trivially_constructible_v<Element> && (std::is_base_of_v<std::random_access_iterator_tag, T> || std::is_array_v<T> || std::is_pointer_v<T>))
+      if constexpr(CanBulkRead<T>())
       {
         if(begin == end)
           return false;
diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3c87855..be82f4d 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -42,7 +42,7 @@ namespace bss {
       TYPE_COUNT = '#',
     };
     typedef DynArray<UBJSONTuple, size_t, ARRAY_CONSTRUCT> UBJSONArray;
-    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_CONSTRUCT> UBJSONObject;
+    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_SAFE> UBJSONObject;
 
     UBJSONTuple(const UBJSONTuple& copy);
     UBJSONTuple(UBJSONTuple&& mov);
@@ -69,13 +69,21 @@ namespace bss {
       case TYPE_INT32: Int32 = (int32_t)n; break;
       case TYPE_INT64: Int64 = (int64_t)n; break;
       case TYPE_FLOAT: Float = (float)n; break;
-      case TYPE_BIGNUM:
       case TYPE_DOUBLE: Double = (double)n; break;
+      case TYPE_BIGNUM: // Bignums are stored as a string of digits
+      {
+        std::string str = std::to_string(n);
+        Length = str.size();
+        String = new char[str.size() + 1];
+        MEMCPY(String, str.size() + 1, str.c_str(), str.size() + 1);
+        break;
+      }
       default: assert(false); break;
       }
     }
     UBJSONTuple();
     ~UBJSONTuple();
+    void Clear();
     void Parse(std::istream& s, TYPE ty);
     static int64_t ParseLength(std::istream& s);
     static int64_t ParseTypeCount(std::istream& s, TYPE& type);
@@ -85,8 +93,10 @@ namespace bss {
     template<class T>
     inline static T ParseInteger(std::istream& s)
     {
-      T v;
+      T v = 0;
       s.read((char*)&v, sizeof(T));
+      if(!s)
+        throw std::runtime_error("Unexpected end of stream while parsing number.");
 #ifdef BSS_ENDIAN_LITTLE
       FlipEndian<T>(&v);
 #endif
@@ -96,15 +106,16 @@ namespace bss {
     template<typename FnAdd, typename FnInsert, typename FnBulk>
     inline void Parse(std::istream& s, TYPE ty, FnAdd add, FnInsert insert, FnBulk bulkadd)
     {
-      Type = (TYPE)ty;
-      if(Type == TYPE_NONE)
+      Clear();
+      TYPE cur = ty;
+      if(cur == TYPE_NONE)
       {
         do
-          Type = (TYPE)s.get();
-        while(Type == TYPE_NO_OP && !!s && s.peek() != -1);
+          cur = (TYPE)s.get();
+        while(cur == TYPE_NO_OP && !!s && s.peek() != -1);
       }
 
-      switch(Type)
+      switch(cur) // Type is only set once the value actually exists, in case an exception is thrown
       {
       default:
         throw std::runtime_error("Unexpected character while parsing value.");
@@ -112,17 +123,19 @@ namespace bss {
       case TYPE_NULL:
       case TYPE_TRUE:
       case TYPE_FALSE:
+        Type = cur;
         break;
       case TYPE_ARRAY:
       {
         int64_t count = ParseTypeCount(s, ty);
         new (&Array) UBJSONArray(std::is_null_pointer_v<FnAdd> ? bssmax(count, 1) : 0);
+        Type = cur;
 
         if constexpr(!std::is_null_pointer_v<FnBulk>)
           if(count >= 0 && (ty == TYPE_CHAR || ty == TYPE_UINT8 || ty == TYPE_INT8) && bulkadd(ty, count))
             break;
 
-        while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_ARRAY_END))
+        while(!!s && (count > 0 || (count < 0 && s.peek() != -1 && s.peek() != TYPE_ARRAY_END))) // Some values don't have any bytes, so the stream can end before the last one
         {
           if constexpr(std::is_null_pointer_v<FnAdd>)
           {
@@ -143,12 +156,15 @@ namespace bss {
       {
         int64_t count = ParseTypeCount(s, ty);
         new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
+        Type = cur;
         Str buf;
         while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_OBJECT_END))
         {
           int64_t length = ParseLength(s);
           buf.reserve(length + 1);
           s.read(buf.UnsafeString(), length);
+          if(!s)
+            throw std::runtime_error("Unexpected end of stream while parsing string.");
           buf.UnsafeString()[length] = 0;
 
           if constexpr(std::is_null_pointer_v<FnInsert>)
@@ -167,20 +183,23 @@ namespace bss {
         break;
       }
       case TYPE_CHAR:
-      case TYPE_INT8: Int8 = ParseInteger<char>(s); break;
-      case TYPE_UINT8: UInt8 = ParseInteger<uint8_t>(s); break;
-      case TYPE_INT16: Int16 = ParseInteger<short>(s); break;
-      case TYPE_INT32: Int32 = ParseInteger<int32_t>(s); break;
-      case TYPE_INT64: Int64 = ParseInteger<int64_t>(s); break;
-      case TYPE_FLOAT: Float = ParseInteger<float>(s); break;
-      case TYPE_DOUBLE: Double = ParseInteger<double>(s); break;
+      case TYPE_INT8: Int8 = ParseInteger<char>(s); Type = cur; break;
+      case TYPE_UINT8: UInt8 = ParseInteger<uint8_t>(s); Type = cur; break;
+      case TYPE_INT16: Int16 = ParseInteger<short>(s); Type = cur; break;
+      case TYPE_INT32: Int32 = ParseInteger<int32_t>(s); Type = cur; break;
+      case TYPE_INT64: Int64 = ParseInteger<int64_t>(s); Type = cur; break;
+      case TYPE_FLOAT: Float = ParseInteger<float>(s); Type = cur; break;
+      case TYPE_DOUBLE: Double = ParseInteger<double>(s); Type = cur; break;
       case TYPE_BIGNUM:
       case TYPE_STRING:
         Length = ParseLength(s);
         String = new char[(size_t)Length + 1];
+        Type = cur;
 
         if(Length > 0)
           s.read(String, Length);
+        if(!s)
+          throw std::runtime_error("Unexpected end of stream while parsing string.");
 
         String[Length] = 0;
         break;
@@ -263,6 +282,16 @@ namespace bss {
     template<> struct WriteUBJSONType<const char*> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_STRING; };
     template<> struct WriteUBJSONType<std::string> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_STRING; };
     template<> struct WriteUBJSONType<Str> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_STRING; };
+    // These have no fixed UBJSON type, so every element has to store its own type
+    template<> struct WriteUBJSONType<signed char> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
+    template<> struct WriteUBJSONType<uint16_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
+    template<> struct WriteUBJSONType<uint32_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
+    template<> struct WriteUBJSONType<uint64_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
+    template<> struct WriteUBJSONType<UBJSONTuple> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
+    template<class T, typename Alloc> struct WriteUBJSONType<std::vector<T, Alloc>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class T, size_t I> struct WriteUBJSONType<std::array<T, I>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class T, size_t I> struct WriteUBJSONType<T[I]> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class... Args> struct WriteUBJSONType<std::tuple<Args...>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
   }
 
   class UBJSONEngine
@@ -272,6 +301,7 @@ namespace bss {
     static constexpr bool Ordered() { return false; }
     static void Begin(Serializer<UBJSONEngine>& e) {}
     static void End(Serializer<UBJSONEngine>& e) {}
+    static void Skip(Serializer<UBJSONEngine>& e) { UBJSONTuple tuple; tuple.Parse(*e.in, e.engine.type); }
     template<typename T>
     static void Parse(Serializer<UBJSONEngine>& e, T& obj, const char* id)
     {
@@ -282,7 +312,7 @@ namespace bss {
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
         case UBJSONTuple::TYPE_NULL: break;
-        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1);
+        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1); break;
         case UBJSONTuple::TYPE_INT8: obj = std::to_string((int)tuple.Int8); break;
         case UBJSONTuple::TYPE_UINT8: obj = std::to_string(tuple.UInt8); break;
         case UBJSONTuple::TYPE_INT16: obj = std::to_string(tuple.Int16); break;
@@ -292,7 +322,7 @@ namespace bss {
         case UBJSONTuple::TYPE_DOUBLE: obj = std::to_string(tuple.Double); break;
         case UBJSONTuple::TYPE_BIGNUM:
         case UBJSONTuple::TYPE_STRING:
-          obj = tuple.String;
+          obj.assign(tuple.String, tuple.Length);
           break;
         }
       }
@@ -350,7 +380,9 @@ namespace bss {
       case UBJSONTuple::TYPE_INT64: obj = (T)tuple.Int64; break;
       case UBJSONTuple::TYPE_FLOAT: obj = (T)tuple.Float; break;
       case UBJSONTuple::TYPE_DOUBLE: obj = (T)tuple.Double; break;
-      case UBJSONTuple::TYPE_BIGNUM: break;// we can't deal with bignum
+      case UBJSONTuple::TYPE_BIGNUM: // we can only deal with bignums that fit in 64 bits
+        obj = (tuple.String[0] == '-') ? (T)strtoll(tuple.String, 0, 10) : (T)strtoull(tuple.String, 0, 10);
+        break;
       default: assert(false); break;
       }
     }
-- 
2.43.0


From 1f6082439af65eb4e89ebf89be64f0446a002649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:27 +0000
Subject: [PATCH 32/47] fix: JSON keys, bare values, numbers and unknown fields
 are read back as they were written

---
 include/bss-util/JSON.h | 110 +++++++++++++++++++++++++++++-----------
 1 file changed, 81 insertions(+), 29 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 1cb213b..cedce09 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -22,6 +22,7 @@ namespace bss {
     static constexpr bool Ordered() { return false; }
     static void Begin(Serializer<JSONEngine>& e) {}
     static void End(Serializer<JSONEngine>& e) {}
+    static void Skip(Serializer<JSONEngine>& e);
     template<typename T>
     static void Serialize(Serializer<JSONEngine>& e, const T& obj, const char* id);
     template<typename T>
@@ -71,7 +72,38 @@ namespace bss {
     template<typename F>
     static void ParseMany(Serializer<JSONEngine>& e, F && f);
 
+    template<typename T>
+    static inline void ReadJSONNumber(std::istream& s, T& obj)
+    {
+      if constexpr(sizeof(T) == 1) // Otherwise this would be read as a character
+      {
+        int v = 0;
+        s >> v;
+        obj = (T)v;
+      }
+      else
+        s >> obj;
+
+      if(s.fail() && !s.bad()) // If this wasn't a number, that doesn't stop us from parsing the rest of the document.
+        s.clear(s.rdstate() & ~std::ios_base::failbit);
+    }
+
     static inline void ParseJSONEatWhitespace(std::istream& s) { while(!!s && isspace(s.peek())) s.get(); }
+    static inline void OutputJSONUnicode(std::string& str, int c)
+    {
+      if(c >= 0xDC00 && c < 0xE000 && str.size() >= 3) // If this is the second half of a surrogate pair, combine it with the first half
+      {
+        const unsigned char* p = reinterpret_cast<const unsigned char*>(str.data()) + str.size() - 3;
+        if(p[0] == 0xED && p[1] >= 0xA0 && p[1] < 0xB0)
+        {
+          int high = ((p[1] & 0x0F) << 6) | (p[2] & 0x3F);
+          str.resize(str.size() - 3);
+          OutputUnicode(str, 0x10000 + (high << 10) + (c - 0xDC00));
+          return;
+        }
+      }
+      OutputUnicode(str, c);
+    }
     static inline void ParseJSONEatCharacter(std::string& str, std::istream& src)
     {
       char c = src.get();
@@ -97,7 +129,7 @@ namespace bss {
           buf[i] = src.get();
 
         buf[4] = 0;
-        OutputUnicode(str, strtoul(buf, 0, 16));
+        OutputJSONUnicode(str, strtoul(buf, 0, 16));
         break;
       }
     }
@@ -112,6 +144,29 @@ namespace bss {
         s << '\t';
     }
 
+    static inline void WriteJSONString(const char* str, size_t length, std::ostream& s)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < length; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '/': s << "\\/"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default: s << str[i]; break;
+        }
+      }
+
+      s << '"';
+    }
+
     static inline void WriteJSONId(const char* id, std::ostream& s, size_t pretty)
     {
       if(id)
@@ -122,7 +177,8 @@ namespace bss {
           WriteJSONTabs(s, pretty);
         }
 
-        s << '"' << id << '"' << ": ";
+        WriteJSONString(id, strlen(id), s);
+        s << ": ";
       }
     }
 
@@ -218,7 +274,7 @@ namespace bss {
   {
     target.clear();
 
-    if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}')
+    if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}' || s.peek() == -1)
       return;
 
     char c = s.get();
@@ -227,6 +283,8 @@ namespace bss {
       target += c;
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1)
         target += s.get();
+      while(!target.empty() && isspace(static_cast<unsigned char>(target.back()))) // whitespace after the value isn't part of it
+        target.pop_back();
       return;
     }
 
@@ -272,7 +330,7 @@ namespace bss {
     {
       Str buf;
       ParseJSONBase<Str>(e, buf, s);
-      const char* dot = strchr(buf.c_str(), '.');
+      const char* dot = strpbrk(buf.c_str(), ".eE");
 
       if(dot)
         target = (double)strtod(buf.c_str(), 0);
@@ -286,12 +344,17 @@ namespace bss {
       ParseJSONBase<Str>(e, buf, s);
       if(!STRICMP(buf.c_str(), "true")) target = true;
       else if(!STRICMP(buf.c_str(), "false")) target = false;
-      else if(!STRICMP(buf.c_str(), "null")) break;
+      else if(!STRICMP(buf.c_str(), "null")) target = JSONValue();
       else target = buf;
       break;
     }
     }
   }
+  inline void JSONEngine::Skip(Serializer<JSONEngine>& e)
+  {
+    JSONValue value;
+    ParseJSONBase<JSONValue>(e, value, *e.in);
+  }
   template<typename T>
   void JSONEngine::Parse(Serializer<JSONEngine>& e, T& obj, const char* id) { ParseJSONBase<T>(e, obj, *e.in); }
   template<typename F>
@@ -333,12 +396,11 @@ namespace bss {
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
-      s >> obj; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      ReadJSONNumber(s, obj); // grab whatever we can
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string, including the " character
     }
     else
-      s >> obj;
+      ReadJSONNumber(s, obj);
   }
 
   template<class T>
@@ -380,25 +442,7 @@ namespace bss {
   {
     JSONEngine::WriteJSONComma(s, e.engine.pretty);
     JSONEngine::WriteJSONId(id, s, e.engine.pretty);
-    s << '"';
-
-    for(size_t i = 0; i < obj.size(); ++i)
-    {
-      switch(obj[i])
-      {
-      case '"': s << "\\\""; break;
-      case '\\': s << "\\\\"; break;
-      case '/': s << "\\/"; break;
-      case '\b': s << "\\b"; break;
-      case '\f': s << "\\f"; break;
-      case '\n': s << "\\n"; break;
-      case '\r': s << "\\r"; break;
-      case '\t': s << "\\t"; break;
-      default: s << obj[i]; break;
-      }
-    }
-
-    s << '"';
+    JSONEngine::WriteJSONString(obj.data(), obj.size(), s);
   }
 
   template<>
@@ -425,6 +469,11 @@ namespace bss {
     case JSONValue::Type<JSONValue::JSONObject>::value:
       Serializer<JSONEngine>::template ActionBind<JSONValue::JSONObject>::Serialize(e, obj.get<JSONValue::JSONObject>(), id);
       break;
+    default:
+      JSONEngine::WriteJSONComma(s, e.engine.pretty);
+      JSONEngine::WriteJSONId(id, s, e.engine.pretty);
+      s << "null";
+      break;
     }
   }
   template<typename T>
@@ -462,7 +511,10 @@ namespace bss {
   {
     WriteJSONComma(*e.out, e.engine.pretty);
     WriteJSONId(id, *e.out, e.engine.pretty);
-    (*e.out) << obj;
+    if constexpr(sizeof(T) == 1) // Otherwise this would be written as a character
+      (*e.out) << (int)obj;
+    else
+      (*e.out) << obj;
   }
 
   template<typename T>
-- 
2.43.0


From eed9bf5c0dd199046f39f07cddf3770ec55939fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:55 +0000
Subject: [PATCH 33/47] fix: XML attributes, white space and truncated input
 are read back, and nodes and attributes survive copying and removal

---
 bss-util/XML.cpp       | 105 +++++++++++++++++++++++------------------
 include/bss-util/XML.h |   5 +-
 2 files changed, 63 insertions(+), 47 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 9b74a09..522d658 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -55,19 +55,18 @@ void XMLFile::Write(std::ostream& stream, bool pretty) const
     _nodes[i]->_write(stream, pretty, 0);
 }
 
-XMLNode::XMLNode(const XMLNode& copy) : _nodes(copy._nodes), _nodehash(copy._nodehash), _attributes(copy._attributes), _attrhash(copy._attrhash),
-  _value(copy._value), _name(copy._name)
+XMLNode::XMLNode(const XMLNode& copy) : _attributes(copy._attributes), _attrhash(copy._attrhash), _value(copy._value), _name(copy._name)
 {
   next = 0;
   prev = 0;
+  for(size_t i = 0; i < copy._nodes.Length(); ++i)
+    AddNode(*copy._nodes[i].get());
 }
 XMLNode::XMLNode(XMLNode&& mov) : _nodes(std::move(mov._nodes)), _nodehash(std::move(mov._nodehash)), _attributes(std::move(mov._attributes)),
   _attrhash(std::move(mov._attrhash)), _value(std::move(mov._value)), _name(std::move(mov._name))
 {
-  next = mov.next;
-  prev = mov.prev;
-  mov.next = 0;
-  mov.prev = 0;
+  next = 0; // These belong to the position of mov in its parent, so they can't be moved
+  prev = 0;
 }
 
 XMLNode::XMLNode(const char* parse) { if(parse) { Str buf; std::istringstream ss(parse); _parse(ss, buf); } next = 0; prev = 0; }
@@ -75,13 +74,8 @@ XMLNode::XMLNode(std::istream& stream) { Str buf; _parse(stream, buf); next = 0;
 
 XMLNode& XMLNode::operator=(const XMLNode& copy)
 {
-  _attributes = copy._attributes;
-  _attrhash = copy._attrhash;
-  _value = copy._value;
-  _name = copy._name;
-  for(size_t i = 0; i < copy._nodes.Length(); ++i)
-    AddNode(*copy._nodes[i].get());
-  return *this;
+  XMLNode tmp(copy); // copy could be this node, or one of our children
+  return *this = std::move(tmp);
 }
 XMLNode& XMLNode::operator=(XMLNode&& mov)
 {
@@ -102,32 +96,41 @@ bool XMLNode::RemoveNode(size_t index)
 {
   if(index >= _nodes.Length()) 
     return false;
-  khiter_t iter = _nodehash.Iterator(_nodes[index]->_name);
-  if(_nodes[index]->next)
+  XMLNode* node = _nodes[index].get();
+  khiter_t iter = _nodehash.Iterator(node->_name);
+  if(_nodehash.ExistsIter(iter) && _nodehash.GetValue(iter) == index)
   {
-    for(size_t i = 0; i < _nodes.Length(); ++i)
+    if(!node->next)
+      _nodehash.RemoveIter(iter);
+    else
     {
-      if(_nodes[i].get() == _nodes[index]->next)
-      {
-        _nodes[i]->prev = 0;
-        if(_nodehash.ExistsIter(iter))
+      for(size_t i = 0; i < _nodes.Length(); ++i)
+        if(_nodes[i].get() == node->next)
           _nodehash.SetValue(iter, i);
-      }
     }
   }
-  else if(_nodehash.ExistsIter(iter))
-    _nodehash.RemoveIter(iter);
+
+  if(node->prev) node->prev->next = node->next;
+  if(node->next) node->next->prev = node->prev;
 
   _nodes.Remove(index);
+  for(size_t i = index; i < _nodes.Length(); ++i) // Everything after the removed node is now at a different index
+  {
+    iter = _nodehash.Iterator(_nodes[i]->_name);
+    if(_nodehash.ExistsIter(iter) && _nodehash.GetValue(iter) == i + 1)
+      _nodehash.SetValue(iter, i);
+  }
   return true;
 }
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
 bool XMLNode::RemoveAttribute(size_t index)
 {
-  if(index >= _nodes.Length()) 
+  if(index >= _attributes.Length()) 
     return false;
-  _attrhash.Remove(_nodes[index]->_name);
-  _nodes.Remove(index);
+  _attrhash.Remove(_attributes[index].Name);
+  _attributes.Remove(index);
+  for(size_t i = index; i < _attributes.Length(); ++i) // Everything after the removed attribute is now at a different index
+    _attrhash.SetValue(_attrhash.Iterator(_attributes[i].Name), i);
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
@@ -200,6 +203,7 @@ bool XMLNode::_match(std::istream& stream, Str& out, const char* pattern, bool r
 
   if(stream.peek() == -1 || !stream) 
   {
+    stream.clear(); // Reaching the end of the stream means we can't seek until we clear the error
     stream.seekg(start);
     return false; 
   }
@@ -222,6 +226,7 @@ bool XMLNode::_match(std::istream& stream, Str& out, const char* pattern, bool r
     return true; 
   }
 
+  stream.clear();
   stream.seekg(start); // otherwise we failed so reset everything
   return false;
 }
@@ -240,7 +245,7 @@ bool XMLNode::_parse(std::istream& stream, Str& buf)
   _parseInner(stream, buf);
   if(stream.peek() == -1 || !stream) return true;
   if(buf.Trim() != _name) // If the end tag is not a legal end tag, someone didn't close something properly, so we need to backtrack
-    stream.seekg(-2 - buf.length(), std::ios_base::cur);
+    stream.seekg(-3 - static_cast<std::streamoff>(buf.length()), std::ios_base::cur);
   return true;
 }
 
@@ -297,6 +302,7 @@ void XMLNode::_parseAttribute(Str& buf)
           v.String += ss.get();
       }
 
+      _decodeEntities(v.String);
       _evalValue(v);
     }
     else
@@ -323,6 +329,22 @@ void XMLNode::_parseEntity(std::istream& stream, Str& target)
   else target += stream.get();
 }
 
+void XMLNode::_decodeEntities(Str& s)
+{
+  if(!strchr(s.c_str(), '&'))
+    return;
+
+  std::istringstream ss(s);
+  s.clear();
+  while(ss.peek() != -1 && ss)
+  {
+    if(ss.peek() == '&')
+      _parseEntity(ss, s);
+    else
+      s += ss.get();
+  }
+}
+
 void XMLNode::_evalValue(XMLValue& val)
 {
   char* c;
@@ -350,31 +372,24 @@ void XMLNode::_writeAttribute(std::ostream& stream) const
   for(size_t i = 0; i < _attributes.Length(); ++i)
   {
     stream << ' ' << _attributes[i].Name << "=\"";
-    _writeString(stream, _attributes[i].String, true);
+    _writeString(stream, _attributes[i].String);
     stream.put('"');
   }
 }
 
-void XMLNode::_writeString(std::ostream& stream, const char* s, bool attribute)
+void XMLNode::_writeString(std::ostream& stream, const char* s)
 {
   while(*s)
   {
-    if(!attribute)
+    switch(*s)
     {
-      switch(*s)
-      {
-      case '<': stream << "&lt;"; break;
-      case '>': stream << "&gt;"; break;
-      case '&': stream << "&amp;"; break;
-      case '\'': stream << "&apos;"; break;
-      case '"': stream << "&quot;"; break;
-      default: stream.put(*s); break;
-      }
+    case '<': stream << "&lt;"; break;
+    case '>': stream << "&gt;"; break;
+    case '&': stream << "&amp;"; break;
+    case '\'': stream << "&apos;"; break;
+    case '"': stream << "&quot;"; break;
+    default: stream.put(*s); break;
     }
-    else if(*s == '"')
-      stream << "&quot;";
-    else
-      stream.put(*s);
 
     ++s;
   }
@@ -390,7 +405,7 @@ void XMLNode::_write(std::ostream& stream, bool pretty, int depth) const
 
   stream.put('<');
   _writeAttribute(stream);
-  bool content = _value.String.Trim().length() > 0;
+  bool content = _nodes.Length() > 0 ? _value.String.Trim().length() > 0 : _value.String.length() > 0; // whitespace between nodes isn't content
 
   if(!content && !_nodes.Length()) // If there is no content and no nodes, assume this is a self-closing tag.
   {
@@ -399,7 +414,7 @@ void XMLNode::_write(std::ostream& stream, bool pretty, int depth) const
   }
 
   stream.put('>');
-  if(content) _writeString(stream, _value.String, false);
+  if(content) _writeString(stream, _value.String);
 
   for(size_t i = 0; i < _nodes.Length(); ++i)
     _nodes[i]->_write(stream, pretty, depth + 1);
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 2dcaf69..f0e4f44 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -101,13 +101,14 @@ namespace bss {
     static bool _match(std::istream& stream, Str& out, const char* pattern, bool reset = false);
     static void _parseEntity(std::istream& stream, Str& target);
     static void _evalValue(XMLValue& val);
-    static void _writeString(std::ostream& stream, const char* s, bool attribute);
+    static void _decodeEntities(Str& s);
+    static void _writeString(std::ostream& stream, const char* s);
 
     friend class XMLFile;
 
     DynArray<std::unique_ptr<XMLNode>, size_t, ARRAY_MOVE> _nodes;
     Hash<Str, size_t, ARRAY_SAFE> _nodehash;
-    DynArray<XMLValue, size_t, ARRAY_MOVE> _attributes;
+    DynArray<XMLValue, size_t, ARRAY_SAFE> _attributes;
     Hash<Str, size_t, ARRAY_SAFE> _attrhash;
     XMLValue _value;
     Str _name;
-- 
2.43.0


From 824f42b1a464ff24cfb43e69bfc1c604edfabf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:24 +0000
Subject: [PATCH 34/47] fix: AliasTable self assignment

---
 include/bss-util/AliasTable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index b5c18a1..271a51f 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -107,6 +107,8 @@ namespace bss {
 
     inline AliasTable& operator=(const AliasTable& copy)
     {
+      if(this == &copy)
+        return *this;
       _count = copy._count;
       _dist = copy._dist;
       _fdist = copy._fdist;
-- 
2.43.0


From f0eee6e5062685a42afe62c470c9a0ad7cf5f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:24 +0000
Subject: [PATCH 35/47] fix: exact comparison of 32-bit rationals

---
 include/bss-util/Rational.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Rational.h b/include/bss-util/Rational.h
index 01c5d55..b19e763 100644
--- a/include/bss-util/Rational.h
+++ b/include/bss-util/Rational.h
@@ -116,8 +116,17 @@ namespace bss {
     inline Rational& operator--() { _n -= _d; return *this; }
     inline Rational& operator=(T n) { _n = n; _d = 1; return *this; }
     inline bool operator!() const { return !_n; }
-    inline bool operator> (const Rational& r) const { return operator double() > ((double)r); } //This can potentially cause precision issues in pathalogical cases, but it should do the job most of the time and the alternative is not O(1) time.
-    inline bool operator< (const Rational& r) const { return operator double() < ((double)r); }
+    inline bool operator> (const Rational& r) const { return r.operator<(*this); }
+    inline bool operator< (const Rational& r) const
+    {
+      if constexpr(sizeof(T) < sizeof(int64_t)) // If the products fit in 64 bits, the comparison can be exact
+      {
+        typedef typename std::conditional<std::is_signed<T>::value, int64_t, uint64_t>::type W;
+        return ((W)_n * (W)r._d) < ((W)r._n * (W)_d);
+      }
+      else // Otherwise, this can potentially cause precision issues in pathalogical cases, but it should do the job most of the time and the alternative is not O(1) time.
+        return operator double() < ((double)r);
+    }
     inline bool operator>= (const Rational& r) const { return !operator<(r); }
     inline bool operator<= (const Rational& r) const { return !operator>(r); }
     inline bool operator== (const Rational& r) const { return _n == r._n && _d == r._d; }
-- 
2.43.0


From ae481ff5bddea2a2d6af89599470a2264789463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:17 +0000
Subject: [PATCH 36/47] fix: assigning a BitStream keeps the pending bits and
 positions

---
 include/bss-util/BitStream.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 721b333..2071b0c 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -80,14 +80,23 @@ namespace bss {
     void Read(T& dest) { Read(&dest, std::conditional<std::is_same<T, bool>::value, std::integral_constant<int, 1>, std::integral_constant<int, (sizeof(T) << 3)>>::type::value); }
     void Flush() { if(_woffset) _flush(_base, _buf); }
 
-    BitStream& operator=(const BitStream& copy) { _base = copy._base; return *this; }
-    BitStream& operator=(BitStream&& mov) { _base = mov._base; mov._base = 0; return *this; }
+    BitStream& operator=(const BitStream& copy) { if(this != &copy) _assign(copy); return *this; }
+    BitStream& operator=(BitStream&& mov) { if(this != &mov) { _assign(mov); mov._base = 0; } return *this; }
     template<typename T>
     BitStream& operator<<(const T& v) { Write<T>(v); return *this; }
     template<typename T>
     BitStream& operator>>(T& v) { Read<T>(v); return *this; }
 
   protected:
+    void _assign(const BitStream& from)
+    {
+      if(_base) Flush(); // whatever this stream had pending belongs to its old base
+      _base = from._base;
+      _buf = from._buf;
+      _roffset = from._roffset;
+      _woffset = from._woffset;
+    }
+
     template<bool U = std::is_base_of<std::ostream, STREAM>::value>
     BSS_FORCEINLINE static typename std::enable_if<U, void>::type _flush(STREAM* s, uint8_t buf) { s->write((char*)&buf, 1); }
     template<bool U = std::is_base_of<std::ostream, STREAM>::value>
-- 
2.43.0


From 54acdc366fd9297660504e5784ac66a5050ae080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:06 +0000
Subject: [PATCH 37/47] fix: ArbitraryArray capacity check and self assignment,
 raw bytes of bit arrays

---
 include/bss-util/DynArray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index bbac800..9c62dde 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -247,7 +247,7 @@ namespace bss {
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
     BSS_FORCEINLINE BITREF operator[](CT index) { assert(index < _length); return GetBit(index); }
     // This gets the raw storage byte in such a way that unused bits are always set to zero. Useful for debugging.
-    inline STORE GetRawByte(CT index) const { assert(index < _capacity); return (index < (_capacity - 1)) ? _array[index] : (_array[index] & ((STORE)(~0) >> ((_capacity*DIV_AMT) - _length))); }
+    inline STORE GetRawByte(CT index) const { assert(index < _capacity); CT bits = index*DIV_AMT; return (_length >= bits + DIV_AMT) ? _array[index] : ((_length <= bits) ? 0 : (_array[index] & ((STORE)(~0) >> (bits + DIV_AMT - _length)))); }
 
     BSS_FORCEINLINE internal::_BIT_ITER<const BITREF> begin() const { return GetBit(0); }
     BSS_FORCEINLINE internal::_BIT_ITER<const BITREF> end() const { return GetBit(_length); }
@@ -357,7 +357,7 @@ namespace bss {
     template<typename T>
     inline CT Add(const T& item)
     {
-      if((_length*_element) >= _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
+      if(((_length + 1)*_element) > _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
       memcpy(_array + (_length*_element), &item, std::min<CT>(sizeof(T), _element));
       return _length++;
     }
@@ -432,6 +432,8 @@ namespace bss {
     inline void* operator[](CT index) { return Get(index); }
     inline ArbitraryArray& operator=(const ArbitraryArray& copy) 
     { 
+      if(&copy == this)
+        return *this;
       BASE::_setCapacityDiscard(copy._capacity);
       memcpy(_array, copy._array, _capacity);
       _length = copy._length; 
-- 
2.43.0


From ec1c18513f28b43a3c8f54b73d95692eb0fb14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:13 +0000
Subject: [PATCH 38/47] fix: XML text true reads as 1

---
 bss-util/XML.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 522d658..3adedb5 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -352,7 +352,9 @@ void XMLNode::_evalValue(XMLValue& val)
   val.Float = 0.0;
   if(val.String.length() > 0)
   {
-    if(val.String[0] == '-')
+    if(val.String == "true")
+      val.Integer = 1;
+    else if(val.String[0] == '-')
       val.Integer = strtoll(val.String, &c, 10);
     else if(val.String.length() > 1 && val.String[0] == '0' && val.String[1] == 'x')
       val.Integer = (int64_t)strtoull(val.String, &c, 16);
-- 
2.43.0


From a1022edc645794262626326f88cb3235c639bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:26 +0000
Subject: [PATCH 39/47] fix: Rational.h includes stdint.h itself

---
 include/bss-util/Rational.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/Rational.h b/include/bss-util/Rational.h
index b19e763..3bc021a 100644
--- a/include/bss-util/Rational.h
+++ b/include/bss-util/Rational.h
@@ -5,6 +5,7 @@
 #define __RATIONAL_H__BSS__
 
 #include "defines.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <type_traits>
 
-- 
2.43.0


From c43e92624f8d7bd1572fabf7cea357f83f297842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:51 +0000
Subject: [PATCH 40/47] fix: KDTree rebalance keeps the tightest bound of the
 dividers above

---
 include/bss-util/KDTree.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 5a45d3a..11a95b6 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -211,19 +211,26 @@ namespace bss {
       if(node->left)
       {
         node->num -= node->left->num;
-        rect[axis + 2] = node->div;
-        parents[axis + 2] = node;
+        if(node->div < rect[axis + 2]) // A divider above us can be the tighter bound
+        {
+          rect[axis + 2] = node->div;
+          parents[axis + 2] = node;
+        }
         _rebalance(node->left, rect, parents, node->total);
         node->num += node->left->num;
         _checkDestroy(node->left);
         rect[axis + 2] = r[axis + 2]; // Reset so we don't mess up node below
+        parents[axis + 2] = p[axis + 2];
       }
 
       if(node->right)
       {
         node->num -= node->right->num;
-        rect[axis] = node->div;
-        parents[axis] = node;
+        if(node->div > rect[axis])
+        {
+          rect[axis] = node->div;
+          parents[axis] = node;
+        }
         _rebalance(node->right, rect, parents, node->total);
         node->num += node->right->num;
         _checkDestroy(node->right);
-- 
2.43.0


From 20915c06ae0ccfd489199c4b5591d150fa4eab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:33 +0000
Subject: [PATCH 41/47] fix: bit test and set has an explicit operand size, so
 optimised builds do not wrap the bit

---
 include/bss-util/lockless.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index e888c04..5c29bae 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -211,7 +211,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -223,7 +223,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -248,7 +248,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -260,7 +260,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
-- 
2.43.0


From 0517decadc536ad4fded42f592803a48bb12f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 42/47] fix: GenericBSpline discarded the shuffled vectors, so
 it summed only the first component

---
 include/bss-util/vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 8e9bf5c..ad92318 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1200,10 +1200,9 @@ namespace bss {
     float a[4] = { t*t*t, t*t, t, 1 };
     sseVec r = MatrixMultiply1x4<float>(a, m);
     r *= sseVec(p);
-    sseVec r2 = r;
-    sseVec::Shuffle<0xB1>(r2);
+    sseVec r2 = sseVec::Shuffle<0xB1>(r);
     r += r2;
-    sseVec::Shuffle<0x1B>(r2);
+    r2 = sseVec::Shuffle<0x1B>(r);
     return BSS_SSE_SS_F32(r + r2);
   }
 }
-- 
2.43.0


From 77898ec0e88a8f3d7c0f84b397cc393c61007df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 43/47] fix: FromQuaternion did not give the rotation matrix of
 the quaternion

---
 include/bss-util/vector.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index ad92318..4f80cab 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -541,7 +541,8 @@ namespace bss {
     T yy = y*y, yz = y*z, yw = y*w;
     T zz = z*z, zw = z*w;
 
-    SetSubMatrix<T, 3, 3>::MM(out,
+    static_assert(N == 3, "A quaternion converts to a 3x3 rotation matrix");
+    SetSubMatrix<T, 3, 3>::M3x3(out,
       1 - 2 * (yy + zz), 2 * (xy - zw), 2 * (xz + yw),
       2 * (xy + zw), 1 - 2 * (xx + zz), 2 * (yz - xw),
       2 * (xz - yw), 2 * (yz + xw), 1 - 2 * (xx + yy));
@@ -560,12 +561,17 @@ namespace bss {
     const sseVec n100(-1, 1, 1, 0);
     const sseVec n001(1, 1, -1, 0);
 
-    (y*yxw + z*zwx*n010).Set(out[0]);
-    (x*yxw + z*wzy*n001).Set(out[1]);
-    (x*zwx + y*wzy*n100).Set(out[2]);
+    const sseVec two(2.0f);
+
+    ((y*yxw + z*zwx*n010)*two).Set(out[0]);
+    ((x*yxw + z*wzy*n001)*two).Set(out[1]);
+    ((x*zwx + y*wzy*n100)*two).Set(out[2]);
     sseVec::ZeroVector().Set(out[3]);
     out[3][3] = 1;
+    out[0][0] = 1 - out[0][0];
+    out[1][1] = 1 - out[1][1];
     out[1][2] = -out[1][2];
+    out[2][2] = 1 - out[2][2];
 
     /*
     y y + z z
-- 
2.43.0


From a9b48fa6202bdec967a664d7a1d6036beb33aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:19 +0000
Subject: [PATCH 44/47] fix: vector and matrix members that could not be
 instantiated (negation, transpose operator, in-place product, conversions,
 comparisons, swizzle)

---
 include/bss-util/vector.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 4f80cab..4051828 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -5,6 +5,7 @@
 #define __BSS_VECTOR_H__
 
 #include "bss_util.h"
+#include "compare.h"
 #include "sseVec.h"
 #include <initializer_list>
 #include <array>
@@ -615,7 +616,7 @@ namespace bss {
     template<int... K> BSS_FORCEINLINE Vector<T, sizeof...(K)> Swizzle() const
     {
       static_assert(sizeof...(K) <= N, "Too many swizzles!");
-      return std::array<T, sizeof...(K)>{ v[K]... };
+      return Vector<T, sizeof...(K)>(std::array<T, sizeof...(K)>{ v[K]... });
     }
 
     typedef T SerializerArray;
@@ -812,7 +813,7 @@ namespace bss {
     static const int MIN = M < N ? M : N;
 
     template<typename U>
-    inline Matrix(const Matrix<U, M, N>& copy) { T* p = v; U* cp = copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
+    inline Matrix(const Matrix<U, M, N>& copy) { T* p = (T*)v; const U* cp = (const U*)copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
     inline Matrix(const std::initializer_list<T>& l) { assert(l.size() == (M*N)); T* p = (T*)v; int k = 0; for(const T* i = l.begin(); i != l.end() && k < M*N; ++i) p[k++] = *i; }
     inline explicit Matrix(const T(&m)[M][N]) { memcpy(v, m, sizeof(T)*M*N); }
     inline constexpr Matrix() {}
@@ -821,7 +822,7 @@ namespace bss {
     [[nodiscard]] inline Matrix<T, M, N> Transpose() const { Matrix<T, M, N> m; Transpose(v, m.v); return m; }
 
     inline Matrix<T, M, N>& operator=(const Matrix<T, M, N>& r) { memcpy(v, r.v, sizeof(T)*M*N); return *this; }
-    template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = v; U* cp = r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
+    template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = (T*)v; const U* cp = (const U*)r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
 
     BSS_FORCEINLINE static void Diagonal(const Vector<T, MIN>& d, Matrix& mat) { Diagonal(d.v, mat.v); }
     BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], Matrix& mat) { Diagonal(d.v, mat.v); }
@@ -1097,7 +1098,7 @@ namespace bss {
   template<typename T, int N> inline Vector<T, N>& operator *=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] *= scalar; return l; }
   template<typename T, int N> inline Vector<T, N>& operator /=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] /= scalar; return l; }
 
-  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { for(int i = 0; i < N; ++i) l.v[i] = -l.v[i]; return l; }
+  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { Vector<T, N> n(l); for(int i = 0; i < N; ++i) n.v[i] = -n.v[i]; return n; }
 
   template<typename T, int N> inline bool operator !=(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = false; for(int i = 0; i < N; ++i) ret = ret || (l.v[i] != r.v[i]); return ret; }
   template<typename T, int N> inline bool operator ==(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = true; for(int i = 0; i < N; ++i) ret = ret && (l.v[i] == r.v[i]); return ret; }
@@ -1155,7 +1156,7 @@ namespace bss {
   template<typename T, int M, int N> inline bool operator !=(const Matrix<T, M, N>& l, const T scalar) { return !operator==(l, scalar); }
 
   template<typename T, int M, int N> inline Matrix<T, M, N> operator -(const Matrix<T, M, N>& l) { return l*((T)-1); }
-  template<typename T, int M, int N> inline Matrix<T, M, N> operator ~(const Matrix<T, M, N>& l) { Matrix<T, M, N> m; return l.Transpose(m.v); return m; }
+  template<typename T, int M, int N> inline Matrix<T, N, M> operator ~(const Matrix<T, M, N>& l) { Matrix<T, N, M> m; l.Transpose(m.v); return m; }
 
   template<typename T, int M, int N>
   inline const Vector<T, N> operator *(const Vector<T, M>& v, const Matrix<T, M, N>& m) // Does v * M and assumes v is a row vector
@@ -1172,7 +1173,7 @@ namespace bss {
     return out;
   }
   template<typename T, int N>
-  inline Matrix<T, N, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
+  inline Vector<T, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
   {
     MatrixMultiply<T, 1, N, N>(l.v_row, r.v, l.v_row);
     return l;
-- 
2.43.0


From d0f4b8eb65ddaf850ef0c0ddae0a1cbe2520a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:09 +0000
Subject: [PATCH 45/47] fix: INI parser wrote past empty values, repeated a
 section at the end of the file, matched prefixes and dropped non-ASCII text

---
 bss-util/INIParser.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 9689fd4..c26ca51 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,8 +60,8 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && *inter < 33; --inter);
-  *(++inter) = '\0';
+  for(; inter > str && (unsigned char)inter[-1] < 33; --inter);
+  *inter = '\0';
   return str;
 }
 
@@ -93,7 +93,7 @@ char* _validatesection(char* start)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -102,7 +102,7 @@ char* _validatesection(char* start)
 char _validatekey(const char* start, const char* end)
 {
   for(; start < end; ++start)
-    if(*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
+    if((unsigned char)*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
   return 0;
 }
 
@@ -153,9 +153,8 @@ char bssParseLine(INIParser* parse)
   char* sec;
   parse->newsection = 0;
 
-  while(!feof(parse->file))
+  while(fgets(parse->buf, MAXLINELENGTH, parse->file) != 0)
   {
-    fgets(parse->buf, MAXLINELENGTH, parse->file);
     switch(_nextkeychar((const char**)&tc, parse->buf))
     {
     //case -1: //Garbage line
@@ -205,7 +204,7 @@ const char* _svalidatesection(const char* start, const char* end)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -218,7 +217,7 @@ const char* _svalidatevalue(const char* start, const char* end)
 
 const char* _trimrstralt(const char* end, const char* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
@@ -229,7 +228,7 @@ int comparevalues(const char* start, const char* end, const char* comp)
   end = _trimrstralt(end - 1, start);
   a = (end - start) + 1;
   b = strlen(comp);
-  return STRNICMP(start, comp, bssmin(a, b));
+  return (a != b) ? 1 : STRNICMP(start, comp, b);
 }
 INICHUNK bssFindINISection(const void* data, size_t length, const char* section, size_t instance)
 {
-- 
2.43.0


From ea0bdb8dd0e2a1db54e70a53b76bad81538b254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:09 +0000
Subject: [PATCH 46/47] fix: copying or moving INI data lost repeated sections
 and entries, freed what it had taken or kept pointing at the source

---
 bss-util/INIsection.cpp |  6 +++---
 bss-util/INIstorage.cpp | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 3fd23a8..4dd4e8e 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -61,11 +61,10 @@ void INIsection::_copy(const INIsection& copy)
     if(t->instances.Capacity()!=0) {
       _entries.Insert(p->val.GetKey(),p);
       p->instances.SetCapacity(c=t->instances.Capacity());
-      last=t;
-      --c;
+      last=p;
     } else if(c>0) {
       assert(last!=0);
-      last->instances[last->instances.Capacity()-(c--)-1]=p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity()-(c--)]=p;
     } else
       _entries.Insert(p->val.GetKey(),p);
 
@@ -114,6 +113,7 @@ INIsection& INIsection::operator=(INIsection&& mov)
   _name=std::move(mov._name);
   _index=mov._index;
   _parent=mov._parent;
+  _destroy();
   _entries=std::move(mov._entries);
   _root=mov._root;
   _last=mov._last;
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7a6649a..7077574 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -58,6 +58,7 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
   mov._ini = 0;
   mov._root = 0;
   mov._last = 0;
+  for(_NODE* t = _root; t != 0; t = t->next) t->val._parent = this;
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
@@ -360,6 +361,7 @@ void INIstorage::_copy(const INIstorage& copy)
     _NODE* p = _alloc.allocate(1);
     bssFill(*p, 0);
     new (&p->val) INIsection(t->val);
+    p->val._parent = this;
     if(!_root)
       _root = _last = p;
     else
@@ -369,13 +371,12 @@ void INIstorage::_copy(const INIstorage& copy)
     {
       _sections.Insert(p->val.GetName(), p);
       p->instances.SetCapacity(c = t->instances.Capacity());
-      last = t;
-      --c;
+      last = p;
     }
     else if(c > 0)
     {
       assert(last != 0);
-      last->instances[last->instances.Capacity() - (c--) - 1] = p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity() - (c--)] = p;
     }
     else
       _sections.Insert(p->val.GetName(), p);
@@ -403,6 +404,7 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   _path = std::move(mov._path);
   _filename = mov._filename;
   if(_ini != 0) delete _ini;
+  _destroy();
   _ini = mov._ini;
   _root = mov._root;
   _last = mov._last;
@@ -410,8 +412,8 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   mov._root = 0;
   mov._last = 0;
   _logger = mov._logger;
-  _destroy();
   _sections = std::move(mov._sections);
+  for(_NODE* t = _root; t != 0; t = t->next) t->val._parent = this;
   return *this;
 }
 
-- 
2.43.0


From 9eadd319fe7689bf5ab7526256de694d60aae820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 47/47] fix: removing the first of several equal INI sections
 or entries left the hash pointing at a freed name

---
 bss-util/INIstorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7077574..f412d83 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -181,8 +181,10 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
     if(!instance && secnode->instances.Capacity() > 0)
     {
       instance = 1;
+      _sections.RemoveIter(iter); // The hash refers to the name stored in the section we are about to replace
       secnode->val = std::move(secnode->next->val);
       secnode->val._index = 0;
+      _sections.Insert(secnode->val.GetName(), secnode);
       secnode = secnode->next;
     }
 
@@ -256,7 +258,9 @@ char INIstorage::EditEntry(const char* section, const char* key, const char* nva
     if(!keyinstance && entnode->instances.Capacity() > 0)
     {
       keyinstance = 1;
+      psec->_entries.RemoveIter(iter); // The hash refers to the key stored in the entry we are about to replace
       entnode->val = std::move(entnode->next->val);
+      psec->_entries.Insert(entnode->val.GetKey(), entnode);
       entnode = entnode->next;
     }
 
-- 
2.43.0

