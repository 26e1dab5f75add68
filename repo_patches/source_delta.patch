From 1f74bbc4b2f6e6733b534e9de0dd32d6468622fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 001/116] fix: Deque constructors: capacity of a copied small
 buffer, leaks when an element throws

Copying a queue with spare heap capacity but few elements kept the inline
buffer while claiming the heap capacity, so later pushes wrote past it.
A throwing element constructor leaked the array and the elements made.
---
 geomc/Deque.h | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..97c10e6 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -75,54 +75,53 @@ public:
      */
     template <typename InputIterator>
     Deque(InputIterator begin, index_t count):
-            _data((count > N) ? (new storage_t[count]) : _buf),
-            _capacity(std::max(count, N)),
-            _head(0),
-            _size(count)
+            Deque(count)
     {
         // placement construct all the items in the provided range:
         for (index_t i = 0; i < count; ++i, ++begin) {
             T* p = get() + i;
             new (p) T(*begin);
+            // if a constructor throws, the items made so far are destroyed
+            _size += 1;
         }
     }
     
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
-            _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
-            _capacity(std::max(other._capacity, N)),
-            _head(0),
-            _size(other._size)
+            Deque((other._size > N) ? other._capacity : N)
     {
         // copy-construct the populated items:
-        for (index_t i = 0; i < _size; ++i) {
+        for (index_t i = 0; i < other._size; ++i) {
             T* p = get() + i;
             new (p) T(other[i]);
+            _size += 1;
         }
     }
     
     /// Move the contents of `other` to a new Deque
     Deque(Deque<T,N>&& other):
-            _data((other._capacity > N) ? other._data : _buf),
-            _capacity(other._capacity),
-            _head((other._capacity > N) ? other._head : 0),
-            _size(other._size)
+            Deque()
     {
         if (other._capacity <= N) {
             // move-construct individual items.
-            for (index_t i = 0; i < _size; ++i) {
+            for (index_t i = 0; i < other._size; ++i) {
                 T* p = get() + i;
                 new (p) T(std::move(other[i]));
-                other[i].~T();
+                _size += 1;
             }
+            other.clear();
         } else {
-            // we took ownership of `other`'s allocated array.
+            // take ownership of `other`'s allocated array.
+            _data     = other._data;
+            _capacity = other._capacity;
+            _head     = other._head;
+            _size     = other._size;
             // turn `other` back into a static buffer.
             other._capacity = N;
             other._data = other._buf;
+            other._size = 0;
+            other._head = 0;
         }
-        other._size = 0;
-        other._head = 0;
     }
     
     // Destroy this buffer and all the items within.
-- 
2.43.0


From cf7f954d77eef9c0e01c4b07bc07ce730000cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 002/116] fix: Deque assignment: keep the size in step with the
 live elements when an element throws

---
 geomc/Deque.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 97c10e6..b121f6f 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -145,29 +145,29 @@ public:
         reserve(other._size);
         // delegate assignment to T
         for (index_t i = 0; i < n; ++i) {
-            this->operator[](i) = other[i];
+            *item(i) = other[i];
         }
         // copy-construct new items
         for (index_t i = n; i < new_size; ++i) {
             T* p = item(i);
             new (p) T(other[i]);
+            _size += 1;
         }
         // destroy extra items
         for (index_t i = n; i < old_size; ++i) {
             T* p = item(i);
             p->~T();
         }
-        _size = other._size;
+        _size = new_size;
         
         return *this;
     }
     
     /// Move the contents of `other` to this buffer
     Deque& operator=(Deque&& other) {
+        if (this == &other) return *this;
         // destroy all our stuff
-        for (index_t i = 0; i < _size; ++i) {
-            item(i)->~T();
-        }
+        clear();
         if (other._capacity > N) {
             // `other` has a dynamic array, just take ownership of it
             if (_capacity > N) {
@@ -177,27 +177,26 @@ public:
             _data     = other._data;
             _capacity = other._capacity;
             _head     = other._head;
+            _size     = other._size;
             // turn `other` back into a static buffer
             other._data     = other._buf;
             other._capacity = N;
+            other._size     = 0;
+            other._head     = 0;
         } else {
             // `other`'s array cannot be moved; copy items instead.
             // we do not need to reserve(), obviously, because _size < N.
             // if we have space for more than N, that's fine too.
-            _head = 0;
             for (index_t i = 0; i < other._size; ++i) {
                 T* p = get() + i;
                 // move-construct a new item in our own buffer
                 new (p) T(std::move(other.operator[](i)));
-                // destroy its source
-                other.operator[](i).~T();
+                _size += 1;
             }
+            // destroy the sources
+            other.clear();
         }
         
-        _size = other._size;
-        other._size = 0;
-        other._head = 0;
-        
         return *this;
     }
     
-- 
2.43.0


From e4b585ce021649fc02d633010377f68a5b868bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 003/116] fix: Deque::reserve: leave the queue unchanged and
 free the new array when an element throws

---
 geomc/Deque.h | 52 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index b121f6f..15317c8 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -353,23 +353,12 @@ public:
         if (new_cap > _capacity) {
             index_t resize_to = std::max(_capacity * 2, new_cap);
             storage_t* array  = new storage_t[resize_to];
-            
-            // move the items into the new array
-            for (index_t i = 0; i < _size; ++i) {
-                T* p = reinterpret_cast<T*>(array + i);
-                // move-construct
-                new (p) T(std::move(*item(i)));
-                // destroy the source
-                item(i)->~T();
+            try {
+                relocate(array, resize_to);
+            } catch (...) {
+                delete [] array;
+                throw;
             }
-            
-            if (_capacity > N) {
-                delete [] _data;
-            }
-            
-            _data = array;
-            _head = 0;
-            _capacity = resize_to;
         }
     }
         
@@ -377,6 +366,37 @@ public:
     
 protected:
     
+    // move all the items to the start of the new, larger `array`, and make it our buffer.
+    // if moving an item throws, nothing changes.
+    void relocate(storage_t* array, index_t new_cap) {
+        index_t n = 0;
+        try {
+            for (; n < _size; ++n) {
+                T* p = reinterpret_cast<T*>(array + n);
+                // move-construct (or copy, if moving might throw)
+                new (p) T(std::move_if_noexcept(*item(n)));
+            }
+        } catch (...) {
+            while (n > 0) {
+                reinterpret_cast<T*>(array + --n)->~T();
+            }
+            throw;
+        }
+        
+        // destroy the sources
+        for (index_t i = 0; i < _size; ++i) {
+            item(i)->~T();
+        }
+        
+        if (_capacity > N) {
+            delete [] _data;
+        }
+        
+        _data = array;
+        _head = 0;
+        _capacity = new_cap;
+    }
+    
     // get the buffer
     inline T* get() {
         return reinterpret_cast<T*>(_data);
-- 
2.43.0


From 6f44698f1430c730b0635003579dcb3ca1a1ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 004/116] fix: Deque::push_back/push_front: accept an element
 of the queue itself, and survive a throwing constructor

---
 geomc/Deque.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 15317c8..bb2aa4f 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -259,7 +259,7 @@ public:
     /// Add an element to the end of the buffer.
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_back(U&& t) {
-        reserve(_size + 1);
+        if (_size >= _capacity) return grow(std::forward<U>(t), false);
         T* p = item(_size);
         // placement new, using move semantics if applicable:
         new (p) T(std::forward<U>(t));
@@ -275,12 +275,13 @@ public:
      */
     template <typename U> // templated so that we can deduce and collapse lvalues
     T& push_front(U&& t) {
-        reserve(_size + 1);
+        if (_size >= _capacity) return grow(std::forward<U>(t), true);
         const index_t n = capacity();
-        _head = (_head + n - 1) % n;
-        T* place = get() + _head;
+        const index_t new_head = (_head + n - 1) % n;
+        T* place = get() + new_head;
         // placement new, using move semantics if applicable:
         new (place) T(std::forward<U>(t));
+        _head = new_head;
         _size += 1;
         return *place;
     }
@@ -366,6 +367,28 @@ public:
     
 protected:
     
+    // enlarge the buffer and add `t` to one end. `t` may be one of our own items,
+    // so it is put into the new array before the items move out of the old one.
+    template <typename U>
+    T& grow(U&& t, bool at_front) {
+        const index_t new_cap = std::max(_capacity * 2, _size + 1);
+        storage_t* array = new storage_t[new_cap];
+        T* p = reinterpret_cast<T*>(array + (at_front ? new_cap - 1 : _size));
+        bool made = false;
+        try {
+            new (p) T(std::forward<U>(t));
+            made = true;
+            relocate(array, new_cap);
+        } catch (...) {
+            if (made) p->~T();
+            delete [] array;
+            throw;
+        }
+        if (at_front) _head = new_cap - 1;
+        _size += 1;
+        return *p;
+    }
+    
     // move all the items to the start of the new, larger `array`, and make it our buffer.
     // if moving an item throws, nothing changes.
     void relocate(storage_t* array, index_t new_cap) {
-- 
2.43.0


From 9aa7c7e817bcecf84b112ebaa09944582c9936a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 005/116] fix: Deque::pop_front/pop_back: keep the element when
 moving it out throws

---
 geomc/Deque.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index bb2aa4f..fc4cd9a 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -294,10 +294,10 @@ public:
     std::optional<T> pop_front() {
         if (_size == 0) return std::nullopt;
         const index_t old = _head;
+        // move-construct a new T into the return value
+        std::optional<T> ret(std::move(get()[old]));
         _head  = (_head + 1) % capacity();
         _size -= 1;
-        // move-construct a new T into the return value
-        T ret(std::move(get()[old]));
         // destroy the old source of the return value
         get()[old].~T();
         return ret;
@@ -307,9 +307,9 @@ public:
     std::optional<T> pop_back() {
         if (_size == 0) return std::nullopt;
         index_t i = (_head + _size - 1) % capacity();
-        _size -= 1;
         // move-construct a new T into the return value
-        T ret(std::move(get()[i]));
+        std::optional<T> ret(std::move(get()[i]));
+        _size -= 1;
         // destory the source of the return value
         get()[i].~T();
         return ret;
-- 
2.43.0


From 936fc265f964bbdbf7187ab17e03a86da695b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 006/116] fix: SmallStorage: growing moved items that do not
 exist, and leaked when an element threw

Growing to capacity n moved n items out of the old array, though only size()
of them are alive; it read past the old array and made extra elements.
---
 geomc/SmallStorage.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..8ae339b 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -46,18 +46,36 @@ private:
         }
     }
     
+    // move all the items to the start of the new, larger array `new_data`, and
+    // make it our storage. if moving an item throws, nothing changes.
+    void _relocate(storage_t* new_data, size_t new_capacity) {
+        T* src = begin();
+        size_t n = 0;
+        try {
+            for (; n < _size; ++n) {
+                // (copies instead, if moving might throw)
+                new (new_data + n) T{std::move_if_noexcept(src[n])};
+            }
+        } catch (...) {
+            _destroy(new_data, n);
+            throw;
+        }
+        _destroy(_data, _size); // destroy the sources
+        if (_capacity > N) delete [] _data;
+        _data     = new_data;
+        _capacity = new_capacity;
+    }
+    
     void _ensure_capacity(size_t n) {
         if (n > _capacity) {
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
-            T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
-                new (new_data + i) T{std::move(src[i])};
-                src[i].~T(); // destroy the source
+            try {
+                _relocate(new_data, new_capacity);
+            } catch (...) {
+                delete [] new_data;
+                throw;
             }
-            if (_capacity > N) delete [] _data;
-            _data     = new_data;
-            _capacity = new_capacity;
         }
     }
     
-- 
2.43.0


From 531772e68343360143ccf1a3134d22ff791da2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 007/116] fix: SmallStorage construction and assignment: items
 destroyed twice, freed storage kept after a failure

Move-constructing from inline storage left the source claiming items that had
already been destroyed. Constructors and assignments that failed partway leaked
items or left dangling or uninitialised items behind.
---
 geomc/SmallStorage.h | 103 +++++++++++++++++--------------------------
 1 file changed, 40 insertions(+), 63 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 8ae339b..21410c2 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -96,84 +96,55 @@ public:
     
     /// Construct an array containing `n` default-constructed items.
     explicit SmallStorage(size_t n):
-        _capacity(std::max(n,N)),
-        _size(n),
-        _data(n > N ? new storage_t[n] : _buffer)
+        SmallStorage()
     {
-        for (size_t i = 0; i < n; ++i) {
+        _ensure_capacity(n);
+        for (; _size < n; ++_size) {
             // default construct
-            new (_data + i) T{};
+            new (_data + _size) T{};
         }
     }
     
     /// Construct an array by move-constructing the items in the given initializer list.
     SmallStorage(std::initializer_list<T> items):
-        _capacity(std::max(items.size(), N)),
-        _size(items.size()),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
+        SmallStorage()
     {
-        for (size_t i = 0; i < _size; ++i) {
+        _ensure_capacity(items.size());
+        for (; _size < items.size(); ++_size) {
             // move construct
-            new (_data + i) T{std::move(items.begin()[i])};
+            new (_data + _size) T{std::move(items.begin()[_size])};
         }
     }
     
     /// Construct an array of `n` items by copy-constructing the items from the given array.
     SmallStorage(const T* items, size_t n):
-        _capacity(std::max(n, N)),
-        _size(n),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
+        SmallStorage()
     {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) T {items[i]};
+        _ensure_capacity(n);
+        for (; _size < n; ++_size) {
+            new (_data + _size) T {items[_size]};
         }
     }
     
     /// Construct an array containing `count` copies of `value`.
     SmallStorage(const T& value, size_t count):
-        _capacity(std::max(count, N)),
-        _size(count),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
+        SmallStorage()
     {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) T {value};
+        _ensure_capacity(count);
+        for (; _size < count; ++_size) {
+            new (_data + _size) T {value};
         }
     }
     
     /// Construct an array containing the elements of `other`.
     SmallStorage(const SmallStorage<T,N>& other):
-        _capacity(std::max(other._size, N)),
-        _size(other._size),
-        _data(_capacity > N ? new storage_t[_size] : _buffer)
-    {
-        const T* src = other.begin();
-        for (size_t i = 0; i < _size; ++i) {
-            // copy construct
-            new (_data + i) T {src[i]};
-        }
-    }
+        SmallStorage(other.begin(), other._size) {}
     
     /// Move the contents of `other` to this array.
     SmallStorage(SmallStorage<T,N>&& other):
-        _capacity(other._capacity),
-        _size(other._size),
-        _data(_capacity > N ? other._data : _buffer)
+        SmallStorage()
     {
-        if (_capacity <= N) {
-            // move the items from the other container to this one
-            T* src = other.begin();
-            for (size_t i = 0; i < _size; ++i) {
-                // move construct
-                new (_data + i) T {std::move(src[i])};
-                src[i].~T(); // destroy the source
-            }
-        } else {
-            // array was stolen.
-            // empty the other container
-            other._capacity = N;
-            other._data     = other._buffer;
-            other._size     = 0;
-        }
+        *this = std::move(other);
     }
     
     /// Destroy this array and its contents.
@@ -186,40 +157,46 @@ public:
     
     /// Move the contents of `other` into this array.
     SmallStorage<T,N>& operator=(SmallStorage<T,N>&& other) {
-        _destroy(_data, _size);
+        if (&other == this) return *this; // no self-assign
+        clear();
         // if we have allocated storage, free it. we're going to clobber
         if (_capacity > N) delete [] _data;
-        _capacity = other._capacity;
-        _size     = other._size;
+        _data     = _buffer;
+        _capacity = N;
         if (other._capacity > N) {
             // the donor container has allocated storage, just grab it
-            _data = other._data;
+            _data           = other._data;
+            _capacity       = other._capacity;
+            _size           = other._size;
+            other._data     = other._buffer;
+            other._capacity = N;
+            other._size     = 0;
         } else {
-            // the donor container has static storage. copy the items.
-            _data = _buffer;
+            // the donor container has static storage. move the items.
             T* src = other.begin();
-            for (size_t i = 0; i < _size; ++i) {
+            for (size_t i = 0; i < other._size; ++i) {
                 new (_data + i) T {std::move(src[i])};
-                src[i].~T();
+                _size += 1;
             }
+            other.clear();
         }
-        other._data     = other._buffer;
-        other._capacity = N;
-        other._size     = 0;
         return *this;
     }
     
     /// Copy the contents of `other` into this array.
     SmallStorage<T,N>& operator=(const SmallStorage<T,N>& other) {
         if (&other == this) return *this; // no self-assign
-        _destroy(_data, _size);
         if (_capacity < other._size) {
             // we cannot hold the incoming items without allocating.
             // create the array anew
+            size_t new_capacity = std::min(other._capacity, 2 * other._size);
+            storage_t* new_data = new storage_t[new_capacity];
+            clear();
             if (_capacity > N) delete [] _data;
-            _capacity = std::min(other._capacity, 2 * other._size);
-            _data     = new storage_t[_capacity];
+            _capacity = new_capacity;
+            _data     = new_data;
         } else {
+            clear();
             // todo: we could copy-assign to the live items,
             //   but we'd probably also want to statically check that
             //   copy-assign exists to avoid splitting the loop into live/non-live
@@ -228,8 +205,8 @@ public:
         const T* src = other.begin();
         for (size_t i = 0; i < other._size; ++i) {
             new (_data + i) T {src[i]};
+            _size += 1;
         }
-        _size = other._size;
         return *this;
     }
     
-- 
2.43.0


From 2fa5d47d8a7b901bcc6a967b99c7da428040a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 008/116] fix: SmallStorage append and resize: accept an item
 of the array itself, and survive a throwing constructor

---
 geomc/SmallStorage.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 21410c2..132f0f8 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -79,6 +79,25 @@ private:
         }
     }
     
+    // add `n` items to the end, each constructed by `make(place)`. `make` may refer to items
+    // in this array, so new items are made before the others are moved to a larger array.
+    template <typename F>
+    void _append(size_t n, F make) {
+        bool grow = _size + n > _capacity;
+        size_t new_capacity = grow ? std::max(_size + n, _capacity * 2) : _capacity;
+        storage_t* dst = grow ? new storage_t[new_capacity] : _data;
+        size_t made = 0;
+        try {
+            for (; made < n; ++made) make(dst + _size + made);
+            if (grow) _relocate(dst, new_capacity);
+        } catch (...) {
+            _destroy(dst + _size, made);
+            if (grow) delete [] dst;
+            throw;
+        }
+        _size += n;
+    }
+    
     T* _item(size_t i) {
         return reinterpret_cast<T*>(_data) + i;
     }
@@ -228,21 +247,14 @@ public:
     
     /// Add a copy of the given item to the end of the array, increasing its size by 1.
     T& push_back(const T& item) {
-        _ensure_capacity(_size + 1);
-        T* place = reinterpret_cast<T*>(_data + _size);
-        new (place) T {item};
-        _size += 1;
-        return *place;
+        return emplace_back(item);
     }
     
     /// Construct a new item at the end of the array from the given constructor arguments.
     template <typename... Args>
     T& emplace_back(Args&&... args) {
-        _ensure_capacity(_size + 1);
-        T* place = reinterpret_cast<T*>(_data + _size);
-        new (place) T {std::forward<Args>(args)...};
-        _size += 1;
-        return *place;
+        _append(1, [&](storage_t* place) { new (place) T {std::forward<Args>(args)...}; });
+        return back();
     }
     
     /// Remove the last item from the array and return it, if one exists.
@@ -294,10 +306,7 @@ public:
     void resize(size_t count, const Args&... args) {
         if (count > _size) {
             // construct the missing items
-            _ensure_capacity(count);
-            for (size_t i = _size; i < count; ++i) {
-                new (_data + i) T {args...};
-            }
+            _append(count - _size, [&](storage_t* place) { new (place) T {args...}; });
         } else if constexpr (not std::is_trivially_destructible_v<T>) {
             // destroy the excess items
             for (size_t i = count; i < _size; ++i) {
-- 
2.43.0


From f2f3931fb929493812bf06523751144bf95054e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 009/116] fix: SmallStorage::pop_back: keep the item when
 moving it out throws

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 132f0f8..86257f0 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -261,7 +261,7 @@ public:
     std::optional<T> pop_back() {
         if (_size == 0) return std::nullopt;
         T* last = _item(_size - 1);
-        T out = std::move(*last);
+        std::optional<T> out(std::move(*last));
         last->~T();
         _size -= 1;
         return out;
-- 
2.43.0


From 5cfc9c3ac775170b7298c2f403728d3f22345369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 010/116] fix: Random: bounded unsigned draws reject exactly
 the incomplete last chunk

---
 geomc/random/Random.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..5d905ad 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -11,10 +11,6 @@
 
 #include <geomc/random/Random.h>
 
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
-
 using namespace std;
 using namespace geom;
 
@@ -193,9 +189,8 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
         bits = rand<unsigned int>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
+        //while this chunk is incomplete, i.e. wraps around past zero:
+    } while ( lo > std::numeric_limits<unsigned int>::max() - (hi - 1) );
     return val;
 }
 
@@ -216,9 +211,8 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
         bits = rand<unsigned long>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        //while this chunk is incomplete, i.e. wraps around past zero:
+    } while ( lo > std::numeric_limits<unsigned long>::max() - (hi - 1) );
     return val;
 }
 
@@ -239,9 +233,8 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
         bits = rand<unsigned long long>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        //while this chunk is incomplete, i.e. wraps around past zero:
+    } while ( lo > std::numeric_limits<unsigned long long>::max() - (hi - 1) );
     return val;
 }
 
-- 
2.43.0


From 833e93ddb47ab941bf705180916d828d4a5cdcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 011/116] fix: Random: two-sided integer draws over ranges
 wider than the signed maximum

---
 geomc/random/Random.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 5d905ad..f58f879 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -261,19 +261,16 @@ template <> double Random::rand<double>(double hi) {
  * Full Range Specializations     *
  **********************************/
 
-// todo: some of these will fail for ranges crossing zero where lo - hi is
-// greater than INT_MAX.
-
-
 template <> int Random::rand<int>(int lo, int hi) {
-    int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    // unsigned arithmetic, because the width may exceed the largest int
+    unsigned int lo1 = min(hi,lo);
+    return rand<unsigned int>((unsigned int) max(hi,lo) - lo1) + lo1;
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
-    long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    unsigned long long lo1 = min(hi,lo);
+    return rand<unsigned long long>((unsigned long long) max(hi,lo) - lo1) + lo1;
 }
 
 
-- 
2.43.0


From 35a2cdb337194e216446eeba0e505ed2c326fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 012/116] fix: Random: draws of unsigned long use all of its
 bits (ULONG_MAX was undefined)

---
 geomc/random/Random.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index f58f879..d7e1d89 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <assert.h>
+#include <climits>
 #include <algorithm>
 #include <limits>
 
-- 
2.43.0


From 5ee31984dedfbafa89f5390de925f516316d12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 013/116] fix: Sampler::unit: the zero vector has no direction

---
 geomc/random/RandomTools.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..3782513 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -132,13 +132,15 @@ public:
     template <index_t N> 
     Vec<T,N> unit() {
         Vec<T,N> v;
+        T m2;
         do {
             for (index_t i = 0; i < N; i++) {
                 // pick a point inside the unit cube
                 v[i] = this->rng->template rand<T>(-1,1);
             }
-            // discard points outside the unit ball
-        } while (v.mag2() > 1);
+            m2 = v.mag2();
+            // discard points outside the unit ball, and the origin, which has no direction
+        } while (m2 > 1 or m2 == 0);
         return v.unit(); // return point on ball surface
     }
     
-- 
2.43.0


From 93d883a2ae070d3d46c4597b6bcf85656afd1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 014/116] fix: Sampler::solidball(radius): samples were crowded
 towards the center

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 3782513..cf87382 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -179,8 +179,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From 5b81e132fadd96dc637072a1d65f75cb46f4840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 015/116] fix: Sampler: shells, solid caps and solid arcs cover
 the region down to the inner radius

---
 geomc/random/RandomTools.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index cf87382..47851f9 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -193,7 +193,8 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T inner  = std::pow(minradius / maxradius, (T)N);
+        T radius = std::pow(this->rng->template rand<T>(inner, 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -287,7 +288,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T inner = minR / maxR;
+        T r = this->rng->template rand<T>(inner * inner * inner, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
@@ -377,7 +379,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T inner = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(inner * inner, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From c268a5fd95c58d74c93e16cf4a13af63f258a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 016/116] fix: Vec2::from_polar: the radius is the first
 coordinate, as documented and as to_polar returns it

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..38c2608 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From 7a02ed33d888106bb8525df1b072d50b3d27ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 017/116] fix: Sampler: caps and disks about directions close
 to and opposite the z axis

---
 geomc/random/RandomTools.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 47851f9..7c85529 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -273,9 +273,7 @@ public:
      */
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
-        Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
-        return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
+        return _align(v, dir);
     }
     
     /**
@@ -302,10 +300,8 @@ public:
     Vec<T,3> oriented_disk(Vec<T,3> normal, T r) {
         //choose a point on 2D disk first, then
         //rotate the disk to be aligned with <axis>
-        Vec<T,3> raxis = Vec<T,3>(0,0,1).cross(normal);
         Vec<T,3> disk = this->disk(r).template resized<3>();
-        if (raxis.is_zero()) return disk;
-        return disk.rotate(raxis, std::acos(normal.z/normal.mag()));
+        return _align(disk, normal);
     }
 
     /**
@@ -392,6 +388,17 @@ public:
         return Vec<T,2>(this->rng->template rand<T>(minx, maxx),
                         this->rng->template rand<T>(miny, maxy));
     }
+    
+private:
+    
+    // rotate `v` by the rotation which takes the z+ axis to the direction `dir`.
+    static Vec<T,3> _align(Vec<T,3> v, Vec<T,3> dir) {
+        dir = dir.unit();
+        Vec<T,3> axis = Vec<T,3>(0,0,1).cross(dir);
+        T m = axis.mag();
+        if (m == 0) return dir.z < 0 ? Vec<T,3>(v.x, -v.y, -v.z) : v;
+        return v.rotate(axis / m, std::atan2(m, dir.z));
+    }
 };
 
 /// @} ingroup random
-- 
2.43.0


From 2aba396db1c8e6bda67427ac73e58a6c25161110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 018/116] fix: generators: reseeding discards bits left over
 from the old state

---
 geomc/random/LCRand.cpp | 1 +
 geomc/random/MTRand.cpp | 1 +
 geomc/random/Xorshiro.h | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..0732388 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0; // forget bits drawn from the old state
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..a121ad9 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -71,4 +71,5 @@ void MTRand::rseed(uint64_t seed){
         mt_buffer[i] = seeder.rand32();
     }
     mt_index = 0;
+    _bitsleft = 0; // forget bits drawn from the old state
 }
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..f15eb32 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -39,6 +39,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        _bitsleft = 0; // forget bits drawn from the old state
     }
     
     template <typename F>
@@ -52,6 +53,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        _bitsleft = 0; // forget bits drawn from the old state
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -59,6 +61,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        _bitsleft = 0; // forget bits drawn from the old state
     }
     
     uint64_t rand64() {
-- 
2.43.0


From e252cc87c5ad81501cf4b3d14022d870975f31bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 019/116] fix: default-seeded generators: distinct whatever the
 clock does, and without a data race

---
 geomc/random/LCRand.cpp | 11 +++++++++--
 geomc/random/LCRand.h   |  3 ++-
 geomc/random/MTRand.cpp | 11 +++++++++--
 geomc/random/MTRand.h   |  3 ++-
 geomc/random/Xorshiro.h |  6 +++---
 5 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index 0732388..fa442b9 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -10,9 +10,16 @@
 
 namespace geom {
 
-int LCRand::uniq = 0;
+std::atomic<uint64_t> LCRand::uniq(0);
 
-LCRand::LCRand():state(std::time(0) ^ (std::clock() + uniq++)) {}
+// The clock is read only once; if it were read on each construction, its progress (or correction)
+// could cancel out the increment of the counter. The odd multiplier spreads the counter bijectively.
+static uint64_t lcrand_unique_seed(uint64_t n) {
+    static const uint64_t base = std::time(0) ^ (uint64_t) std::clock();
+    return base + n * 0x9E3779B97F4A7C15ULL;
+}
+
+LCRand::LCRand():state(lcrand_unique_seed(uniq++)) {}
 
 LCRand::LCRand(uint64_t seed):state(seed) {}
 
diff --git a/geomc/random/LCRand.h b/geomc/random/LCRand.h
index fe03b84..3e2459d 100644
--- a/geomc/random/LCRand.h
+++ b/geomc/random/LCRand.h
@@ -10,6 +10,7 @@
 #ifndef LCRAND_H_
 #define LCRAND_H_
 
+#include <atomic>
 #include <geomc/random/Random.h>
 
 namespace geom {
@@ -53,7 +54,7 @@ public:
     
 private:
     uint64_t state;
-    static int uniq; //used to prevent successive unseeded constructions from
+    static std::atomic<uint64_t> uniq; //used to prevent successive unseeded constructions from
                      //mapping to the same state due to clock collision.
 };
 
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a121ad9..aa0d8ba 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -18,7 +18,14 @@
 
 using namespace geom;
 
-int MTRand::uniq = 0;
+std::atomic<uint64_t> MTRand::uniq(0);
+
+// The clock is read only once; if it were read on each construction, its progress (or correction)
+// could cancel out the increment of the counter. The odd multiplier spreads the counter bijectively.
+static uint64_t mtrand_unique_seed(uint64_t n) {
+    static const uint64_t base = time(0) ^ (uint64_t) clock();
+    return base + n * 0x9E3779B97F4A7C15ULL;
+}
 
 #define MT_IA           397
 #define MT_IB           (MT_LEN - MT_IA)
@@ -29,7 +36,7 @@ int MTRand::uniq = 0;
 #define MAGIC(s)        (((s)&1)*MATRIX_A)
 
 MTRand::MTRand(){
-    this->rseed(time(0) ^ (clock() + uniq++));
+    this->rseed(mtrand_unique_seed(uniq++));
 }
 
 MTRand::MTRand(uint64_t seed){
diff --git a/geomc/random/MTRand.h b/geomc/random/MTRand.h
index 8498238..c2bd048 100644
--- a/geomc/random/MTRand.h
+++ b/geomc/random/MTRand.h
@@ -11,6 +11,7 @@
 //TODO: Supply a way to fill the entire buffer with supplied entropy;
 //      right now there are only 2^64 possible sequences. 
 
+#include <atomic>
 #include <geomc/random/Random.h>
 
 #ifndef MERSENNERAND_H_
@@ -49,7 +50,7 @@ namespace geom {
         int mt_index;
         uint32_t mt_buffer[MT_LEN];
         
-        static int uniq;
+        static std::atomic<uint64_t> uniq;
     };
 
 }
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index f15eb32..8ec6e51 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -20,9 +20,9 @@ public:
     
     XoshiroRand() {
         static std::atomic<uint64_t> uniq = 0;
-        uint64_t x = std::chrono::steady_clock::now().time_since_epoch().count();
-        x ^= uniq++;
-        rseed(x);
+        // the clock is read only once, so that its progress cannot cancel out the counter
+        static const uint64_t base = std::chrono::steady_clock::now().time_since_epoch().count();
+        rseed(base + uniq++);
     }
     
     XoshiroRand(uint64_t seed) {
-- 
2.43.0


From 5993d5549ed4eb0b28015a3c2338c0f8d67bbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 020/116] fix: UniqueStorage constructors: free the array when
 copying an element throws

---
 geomc/Storage.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index c0d7be2..4ecc9e3 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -250,15 +250,15 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
             data(new T[n]),
             sz(n) {}
 
+    // (the delegated constructor completes first, so that the array
+    // is freed if copying an element throws)
     UniqueStorage(index_t n, const T* srcdata):
-            data(new T[n]),
-            sz(n) {
+            UniqueStorage(n) {
         std::copy(srcdata, srcdata + n, data);
     }
     
     UniqueStorage(std::initializer_list<T> srcdata):
-            data(new T[srcdata.size()]),
-            sz(srcdata.size()) {
+            UniqueStorage((index_t)srcdata.size()) {
         std::copy(srcdata.begin(), srcdata.end(), data);
     }
 
@@ -272,8 +272,7 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
 #endif
 
     UniqueStorage(const UniqueStorage<T,0>& other):
-            data(new T[other.sz]),
-            sz(other.sz) {
+            UniqueStorage(other.sz) {
         std::copy(other.data, other.data + sz, data);
     }
     
-- 
2.43.0


From 7af8b202c1e8b91166d4c6d0c5516459d26e892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 021/116] fix: UniqueStorage assignment: keep the array when
 allocation fails or when moved to itself

---
 geomc/Storage.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index 4ecc9e3..ecbda04 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -282,6 +282,7 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
 
 #if __cplusplus >= 201103L
     UniqueStorage& operator=(UniqueStorage<T,0>&& other) {
+        if (&other == this) return *this;
         if (data) delete[] data;
         data = other.data;
         sz = other.sz;
@@ -294,10 +295,12 @@ struct UniqueStorage<T, DYNAMIC_DIM> {
     UniqueStorage& operator=(const UniqueStorage<T,0>& other) {
         if (&other == this) return *this;
         if (sz != other.sz) {
+            // allocate first: the old array must remain if this fails
+            T* replacement = new T[other.sz];
             if (data) delete [] data;
-            data = new T[other.sz];
+            data = replacement;
+            sz   = other.sz;
         }
-        sz = other.sz;
         std::copy(other.data, other.data + sz, data);
         return *this;
     }
-- 
2.43.0


From 49768cfc2b95d49def220ecaf808ee40e586bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 022/116] fix: GenericStorage: the initializer list constructor
 did not compile for shared arrays

---
 geomc/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index ecbda04..e0ba86a 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -407,7 +407,7 @@ struct GenericStorage : public Storage<T,N> {
     GenericStorage(index_t n):type(n) {}
     
     GenericStorage(std::initializer_list<T> list):type(list.size()) {
-        std::copy(list.begin(), list.end(), type::data);
+        std::copy(list.begin(), list.end(), type::get());
     }
 
 #ifdef PARSING_DOXYGEN
-- 
2.43.0


From 5f0dee7c53e58a17e869a201a57d1149ac054812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 023/116] fix: trace_simplex: return the solved ray parameter,
 not the element past the end of the solution

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..b808b49 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -583,7 +583,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From bb6bc94b309c0da239368a81b00a7ecc44b3879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 024/116] fix: Tree: the successor of a node or of its items
 lies to its right, not in its own subtree

---
 geomc/Tree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..e3c9656 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -861,8 +861,9 @@ protected:
         while (ancestor != _storage->_nodes.end()) {
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
-            // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            // look for a populated node to the right of us (not `child`
+            // itself, whose descendents are the ones to be hopped over)
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
@@ -889,7 +890,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From 356100c094c1597f56a460031a2a3a8a586b9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 025/116] fix: Tree: item ranges of ancestors when their edge
 children have no items

---
 geomc/Tree.h | 53 +++++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index e3c9656..de78364 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -358,37 +358,34 @@ protected:
             ItemRef new_first,
             ItemRef new_last,
             index_t delta_items) {
-        
-        NodeRef prev_child = _nodes.end();
-        NodeRef n = leaf;
-        
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
+        leaf->n_items += delta_items;
+        if (leaf->n_items == 0) {
+            leaf->items_first = leaf->items_last = _items.end();
+        } else {
+            leaf->items_first = new_first;
+            leaf->items_last  = new_last;
+        }
         
         // update ancestors' item count and boundary items
-        while (n != _nodes.end()) {
+        for (NodeRef n = leaf->parent; n != _nodes.end(); n = n->parent) {
             n->n_items += delta_items;
-            
-            if (n->n_items == 0) {
-                n->items_first = n->items_last = _items.end();
-            } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
-            }
-            
-            prev_child = n;
-            n = n->parent;
+            update_boundary_items(n);
+        }
+    }
+    
+    
+    // find the edge items of an internal node, given those of its children.
+    void update_boundary_items(NodeRef n) {
+        if (n->n_items == 0) {
+            n->items_first = n->items_last = _items.end();
+        } else {
+            // the edge children might not have any items.
+            NodeRef c = n->child_first;
+            while (c->n_items == 0) ++c;
+            n->items_first = c->items_first;
+            c = n->child_last;
+            while (c->n_items == 0) --c;
+            n->items_last  = c->items_last;
         }
     }
     
-- 
2.43.0


From ef7216285037b6498ef734ecb0358b5fd3e601d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 026/116] fix: Subtree::erase(item): did not compile, and lost
 the last item of the node

---
 geomc/Tree.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index de78364..8d69f0f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1486,8 +1486,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
@@ -1496,21 +1496,13 @@ public:
             }
             
             if (found) {
-                ItemRef next_item = this->_storage->_items.erase(item);
-                ItemRef prev_item = next_item; --prev_item;
-                
                 // figure out the new begin / end items
-                ItemRef new_begin, new_end;
-                if (item == n->items_first) {
-                    new_begin = next_item;
-                } else {
-                    new_begin = n->items_first;
-                }
-                if (item == n->items_last) {
-                    new_end = prev_item;
-                } else {
-                    new_end = prev_item;
-                }
+                ItemRef new_begin = n->items_first;
+                ItemRef new_end   = n->items_last;
+                if (item == new_begin) ++new_begin;
+                if (item == new_end and n->n_items > 1) --new_end;
+                
+                ItemRef next_item = this->_storage->_items.erase(item);
                 
                 this->_storage->update_boundary_items(
                     n, 
@@ -1519,7 +1511,7 @@ public:
                     -1);
                 
                 ok  = true;
-                ret = next_item;
+                ret = n->n_items > 0 ? next_item : this->items_end();
             }
         }
         
-- 
2.43.0


From e2ed20ee65f3f44250eab520da90283b485aaf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 027/116] fix: Subtree::clear: advanced an iterator to an item
 it had erased

---
 geomc/Tree.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 8d69f0f..27cfd26 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1532,16 +1532,10 @@ public:
             ItemRef endpt = n->items_last; ++endpt;
             
             // delete the items
-            ItemRef next_item;
-            index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
-                ++n_deleted;
-            }
-            ItemRef prev_item = next_item; --prev_item;
+            this->_storage->_items.erase(n->items_first, endpt);
             
             // update item boundaries / counts
-            this->_storage->update_boundary_items(n, next_item, prev_item, -n_deleted);
+            this->_storage->update_boundary_items(n, endpt, endpt, -n->n_items);
         }
     }
     
-- 
2.43.0


From 3d8a21d7a3f7281a8b1291279e3943a14d9766fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 028/116] fix: Subtree::erase(child): read the erased node, and
 the result when no child is left

---
 geomc/Tree.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 27cfd26..212ec58 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1551,10 +1551,10 @@ public:
      * deleted one (which may be `end()`).
      */
     self_t erase(const self_t& child, bool* success=nullptr) const {
-        // child must be our child
-        if (child._root->parent != this->_root or 
-            // and must not be global root
-            child._root->parent == this->_storage->_nodes.end()) {
+        // must not be the off-end node
+        if (child._root == this->_storage->_nodes.end() or
+            // child must be our child
+            child._root->parent != this->_root) {
             if (success) *success = false;
             return this->end();
          }
@@ -1562,8 +1562,6 @@ public:
         child.clear();
         
         NodeRef x = child._root;
-        NodeRef next_node = this->_storage->_nodes.erase(x);
-        NodeRef prev_node = next_node; --prev_node;
         
         // remove deleted child from its parent (us)
         this->_root->n_children--;
@@ -1573,13 +1571,15 @@ public:
                 this->_root->child_last = 
                     this->_storage->_nodes.end();
         } else if (this->_root->child_first == x) {
-            this->_root->child_first = next_node;
+            this->_root->child_first = std::next(x);
         } else if (this->_root->child_last == x) {
-            this->_root->child_last = prev_node;
+            this->_root->child_last = std::prev(x);
         }
         
+        NodeRef next_node = this->_storage->_nodes.erase(x);
+        
         if (success) *success = true;
-        return self_t(next_node, this->_storage);
+        return this->node_count() > 0 ? self_t(next_node, this->_storage) : this->end();
     }
     
     
-- 
2.43.0


From 90ae7971c6c85bd4e023ca4d41776cacf21897e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 029/116] fix: Subtree::insert_child_node: read the parent of
 the off-end node

---
 geomc/Tree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 212ec58..498f174 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1008,7 +1008,8 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and 
+               (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
-- 
2.43.0


From d893533084c0d41273f2d37025901a22abf8b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 030/116] fix: Subtree::insert_child_nodes: did not compile,
 and kept stray nodes if one could not be created

---
 geomc/Tree.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 498f174..da3fa68 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1090,7 +1090,8 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (n != this->end()._root and 
+               (n == this->_storage->_nodes.end() or n->parent != p)) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
@@ -1098,12 +1099,18 @@ public:
             n = this->node_successor(p);
         }
         
-        // create the first node, and keep a reference to it
-        // todo: this->_storage->_nodes.reserve(n_items);
+        // create the nodes, then insert them all at once, so that the
+        // tree is unaffected if one of them cannot be created.
+        std::list<typename base_t::Node> new_nodes;
+        for (; i_begin != i_end; ++i_begin) {
+            new_nodes.push_back(typename base_t::Node(this->_storage, p, *i_begin));
+        }
+        
         NodeRef prev_end_node  = this->end()._root;
-        NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
-        NodeRef last_new_node  = first_new_node;
+        NodeRef first_new_node = new_nodes.begin();
+        NodeRef last_new_node  = std::prev(new_nodes.end());
+        index_t ct             = new_nodes.size();
+        this->_storage->_nodes.splice(n, new_nodes);
         
         // transfer ownership of the parent's items to the first child.
         // (every item must belong to a leaf node, and the parent
@@ -1114,13 +1121,6 @@ public:
             first_new_node->n_items     = p->n_items;
         }
         
-        // add the rest of the nodes
-        index_t ct = 1;
-        for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
-            last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
-        }
-        
         // adjust child endpoints if necessary
         if (insert_before._root == prev_end_node) {
             p->child_last = last_new_node;
-- 
2.43.0


From 3c32289e9b831ca0949b269ba9760605a384a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 031/116] fix: Subtree::insert_item: looked for the item before
 the first one of the tree

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index da3fa68..2005c36 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1199,7 +1199,7 @@ public:
         } else {
             new_begin = n->items_first;
         }
-        if (std::prev(new_item) == n->items_last or n->n_items == 0) {
+        if (n->n_items == 0 or std::next(n->items_last) == new_item) {
             new_end = new_item;
         } else {
             new_end = n->items_last;
-- 
2.43.0


From ee187cf40ca9cad89e604088c71ee63f6708aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 032/116] fix: Subtree::insert_items: did not compile

---
 geomc/Tree.h | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 2005c36..53f2a29 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1251,7 +1251,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+            const LeafItemIterator& begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1269,30 +1269,26 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
-        // insert the first item
-        ItemRef first_new_item = this->_storage->_items.insert(insert_pt, *begin_item);
-        ItemRef last_new_item  = first_new_item;
-        ++begin_item;
-        
-        // insert the remaining items
-        index_t item_ct = 1;
-        for (LeafItemIterator i = begin_item; i != end_item; ++i) {
-            last_new_item = this->_storage->_items.insert(insert_pt, *i);
-            ++item_ct;
-        }
+        // copy the items, then insert them all at once. this leaves the tree unaffected
+        // if one of them cannot be copied, and lets them come from the tree itself.
+        std::list<LeafItem> new_items(begin_item, end_item);
+        ItemRef first_new_item = new_items.begin();
+        ItemRef last_new_item  = std::prev(new_items.end());
+        index_t item_ct        = new_items.size();
+        this->_storage->_items.splice(insert_pt, new_items);
         
         // figure out the new begin/end items
         ItemRef new_begin, new_end;
-        if (insert_before == n->items_first) {
+        if (insert_pt == n->items_first or n->n_items == 0) {
             new_begin = first_new_item;
         } else {
             new_begin = n->items_first;
         }
-        if (std::prev(first_new_item) == n->items_last or n->n_items == 0) {
+        if (n->n_items == 0 or std::next(n->items_last) == first_new_item) {
             new_end = last_new_item;
         } else {
             new_end = n->items_last;
-- 
2.43.0


From e262216366c0adc1957e4b32f9614b95ef2a597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 033/116] fix: Subtree::split: keep all the items and the
 structure when comparing or moving an item throws

---
 geomc/Tree.h | 70 +++++++++++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 53f2a29..b8defc6 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1381,8 +1381,8 @@ public:
      * at least two items. If any of these is the case, the tree will not be changed 
      * and the off-end node will be returned.
      *
-     * All iterators to the items under this node are invalidated
-     * by this operation, as well as potentially any `end()` `item_iterator`s.
+     * The order of the items in each node is unchanged. Potentially invalidates
+     * any `items_end()` or `items_begin()`, but no iterator to an item.
      *
      * @param compare A callable object `compare(a,b)` which accepts a 
      * `LeafItem` as its left argument and a `P` as its right 
@@ -1406,52 +1406,44 @@ public:
         NodeRef hi = this->_root;
         NodeRef lo = new_node._root;
         
-        // todo: if we had splice operations on list<>, we could avoid
-        //       invalidating the item iterators.
-        
-        // traverse `node` looking for items to move to the new `lo` node.
-        // because `lo` is adjacent to `hi`, we can add items to `lo` by moving the 
-        // boundary between `lo` and `hi` and swapping the contents of the iterators.
-        // we traverse backwards so that our swapping does not unsort our items.
-        
-        for (ItemRef i = hi->items_last; i != std::prev(hi->items_first); ) {
-            if (compare(*i, pivot) < 0) {
-                // move the item to the lower node
-                
-                // grab one item from the beginning of `hi`.
-                // swap `*i` and the stolen item, so that the 
-                // tested item lies in the low node where it belongs, 
-                // and the stolen item lies under `i`. we'll check it
-                // on the next iteration.
+        // traverse `hi` looking for items to move to the new `lo` node. because `lo`
+        // is adjacent to `hi`, we can add items to `lo` by moving them to the boundary 
+        // between `lo` and `hi`. the tree is consistent before each comparison, in case
+        // it throws an exception.
+        
+        const index_t n = hi->n_items;
+        ItemRef i = hi->items_first;
+        for (index_t k = 0; k < n; ++k) {
+            ItemRef item = i++;
+            if (compare(*item, pivot) < 0) {
+                const bool is_edge = lo->n_items == 0 or item == hi->items_last;
                 
-                if (lo->n_items == 0) {
-                    lo->items_first = lo->items_last = hi->items_first;
+                // take the item from the `hi` node
+                if (item == hi->items_first) {
+                    ++(hi->items_first);
                 } else {
-                    lo->items_last = hi->items_first;
+                    if (item == hi->items_last) --(hi->items_last);
+                    this->_storage->_items.splice(hi->items_first, this->_storage->_items, item);
+                }
+                if (--(hi->n_items) == 0) {
+                    hi->items_first = hi->items_last = this->_storage->_items.end();
                 }
                 
+                // append it to the `lo` node
+                if (lo->n_items == 0) lo->items_first = item;
+                lo->items_last = item;
                 ++(lo->n_items);
-                --(hi->n_items);
-                ++(hi->items_first);
-                std::swap(*i, *(lo->items_last));
                 
-                // we do not decrement i, because we've just moved
-                // an untested item underneath it. we should test
-                // it first before moving on to the next one.
-            } else {
-                // `*i` is in the right place.
-                --i;
+                // the edge items of the ancestors may have moved.
+                if (is_edge) {
+                    NodeRef p = hi->parent;
+                    for (; p != this->_storage->_nodes.end(); p = p->parent) {
+                        this->_storage->update_boundary_items(p);
+                    }
+                }
             }
         }
         
-        // if the `hi` node was emptied, fix up its item boundaries.
-        if (hi->n_items == 0) {
-            hi->items_first = hi->items_last = this->_storage->_items.end();
-        }
-        
-        // we didn't delete/add/move any LeafItems (only their contents), 
-        // so we don't need to update the boundary items.
-        
         return new_node;
     }
     
-- 
2.43.0


From 8ee87eb09cdb3c306cf61f7dd91ebee485293af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 034/116] fix: Tree: access to const trees did not compile

---
 geomc/Tree.h | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index b8defc6..c6b3021 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -237,7 +237,7 @@ public:
     
     /// Get a const subtree iterator to the root of this tree.
     inline ConstSubtree<NodeItem, LeafItem> root() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.begin(), this);
+        return ConstSubtree<NodeItem, LeafItem>(nodes().begin(), this);
     }
     
     
@@ -273,7 +273,7 @@ public:
      * in sibling-contiguous order.
      */
     ConstSubtree<NodeItem, LeafItem> end() const {
-        return ConstSubtree<NodeItem, LeafItem>(_nodes.end(), this);
+        return ConstSubtree<NodeItem, LeafItem>(nodes().end(), this);
     }
     
     
@@ -340,6 +340,12 @@ public:
     
 protected:
     
+    // the node and item lists, for the construction of iterators to them. 
+    // (the nodes of a const tree refer to one another by non-const iterators,
+    // but ConstSubtree only gives const access.)
+    inline std::list<Node>&     nodes() const { return const_cast<Tree*>(this)->_nodes; }
+    inline std::list<LeafItem>& items() const { return const_cast<Tree*>(this)->_items; }
+    
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
         n->child_first = std::next(n);
@@ -411,7 +417,7 @@ protected:
     typedef Tree<NodeItem, LeafItem>  Storage;
     typedef typename Storage::NodeRef NodeRef;
     typedef typename Storage::ItemRef ItemRef;
-    typedef typename Storage::ItemRef ConstItemRef;
+    typedef typename Storage::ConstItemRef ConstItemRef;
     typedef typename Storage::Node    Node;
     typedef typename std::conditional<
             Const,
@@ -608,7 +614,7 @@ public:
     
     /// Return whether this node is the root of the entire tree.
     inline bool is_root() const {
-        return _root == _storage->_nodes.begin();
+        return _root == _storage->nodes().begin();
     }
     
     /// `+i`: Become first child
@@ -732,7 +738,7 @@ public:
      * Alias for `this->tree().begin()`.
      */
     inline self_t global_begin() const {
-        return self_t(_storage->_nodes.begin(), _storage);
+        return self_t(_storage->nodes().begin(), _storage);
     }
     
     /**
@@ -742,7 +748,7 @@ public:
      * Alias for `this->tree().end()`.
      */
     inline self_t global_end() const {
-        return self_t(_storage->_nodes.end(), _storage);
+        return self_t(_storage->nodes().end(), _storage);
     }
     
     
@@ -853,9 +859,9 @@ protected:
         NodeRef child     = node;
         // if there is no subtree to the right,
         // this is the conceptual successor:
-        NodeRef successor = _storage->_nodes.end();
+        NodeRef successor = _storage->nodes().end();
         
-        while (ancestor != _storage->_nodes.end()) {
+        while (ancestor != _storage->nodes().end()) {
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us (not `child`
@@ -866,7 +872,7 @@ protected:
                     break;
                 }
             }
-            if (successor != _storage->_nodes.end()) {
+            if (successor != _storage->nodes().end()) {
                 // found the successor
                 break;
             } else {
@@ -883,7 +889,7 @@ protected:
     // rooted at `node`, including if that subtree is empty.
     ItemRef item_successor(NodeRef node) const {
         for (NodeRef parent = node->parent; 
-                parent != _storage->_nodes.end(); 
+                parent != _storage->nodes().end(); 
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
@@ -894,7 +900,7 @@ protected:
                 }
             }
         }
-        return this->_storage->_items.end();
+        return this->_storage->items().end();
     }
     
 }; // class SubtreeBase
@@ -913,10 +919,17 @@ protected:
     friend class SubtreeBase<NodeItem, LeafItem, true>;
     friend class Tree<NodeItem, LeafItem>;
     
+    using typename base_t::NodeRef;
+    using typename base_t::StorageRef;
+    friend class Subtree<NodeItem, LeafItem>;
+    
     // allow myself to construct myself.
     // curiously recurring pattern is weird :[
     ConstSubtree(const base_t& other):base_t(other) {}
     
+    ConstSubtree(const NodeRef& root, StorageRef storage):
+        base_t(root, storage) {}
+    
     ConstSubtree() {}
     
 public:
@@ -951,6 +964,7 @@ protected:
     using typename base_t::StorageRef;
     
     friend class SubtreeBase<NodeItem, LeafItem, false>;
+    friend class ConstSubtree<NodeItem, LeafItem>;
     friend class Tree<NodeItem, LeafItem>;
     
     // allow myself to construct myself.
-- 
2.43.0


From ad46fb9ef995d3f25e7d7c1f4dde08013af6c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 035/116] fix: SubtreeBase::subtree_begin: did not compile; the
 range of a childless node is empty

---
 geomc/Tree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index c6b3021..ed2b4bd 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -718,7 +718,8 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return _root->child_first;
+        // (the sequence is empty if there are no children)
+        return _root->n_children > 0 ? this->begin() : this->subtree_end();
     }
     
     
-- 
2.43.0


From 2d4ac5dd464d51aeef843d69f0491a39efa35196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 036/116] fix: SubtreeBase::find_parent: searched nodes outside
 of the subtree, and skipped some within it

---
 geomc/Tree.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index ed2b4bd..4d45f52 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -760,15 +760,20 @@ public:
      * If `i` is not in the subtree under this node, then return `end()`.
      */
     self_t find_parent(const const_item_iterator& i) const {
+        if (_root->n_items == 0) return this->end();
+        // visit this node, and then its descendents, which
+        // may be distant from it:
         NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
+        NodeRef n = _root;
+        do {
             if (n->n_children == 0 and n->n_items > 0) {
                 ItemRef end_item = n->items_last; ++end_item;
                 for (ItemRef j = n->items_first; j != end_item; ++j) {
                     if (j == i) return self_t(n, _storage);
                 }
             }
-        }
+            n = (n == _root) ? subtree_begin()._root : std::next(n);
+        } while (n != subtree_last);
         return this->end();
     }
     
@@ -788,14 +793,14 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
-            if (BoundingFn(cur_root->data, *i)) {
+        NodeRef cur_root = _root;
+        while (true) {
+            if (cur_root->n_items > 0 and BoundingFn(cur_root->data, *i)) {
                 // cur_root may contain `i`
                 if (cur_root->n_children > 0) {
                     // recurse
                     cur_root = cur_root->child_first;
+                    continue;
                 } else {
                     // look for item
                     ItemRef end_item = cur_root->items_last; ++end_item;
@@ -803,15 +808,17 @@ public:
                         // found it
                         if (j == i) return self_t(cur_root, _storage);
                     }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
+            // nothing further here. ascend while we are a last child
+            while (cur_root != _root and cur_root == cur_root->parent->child_last) {
+                cur_root = cur_root->parent;
+            }
+            if (cur_root == _root) break;
+            // check next sibling
+            ++cur_root;
         }
-        return this->end();;
+        return this->end();
     }
     
     
-- 
2.43.0


From 4170f5d0a36d5fba3531b2a1edf09a0d3bf6ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 037/116] fix: QueryIterator: assignment returned nothing

---
 geomc/Tree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4d45f52..bc67e20 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -539,6 +539,7 @@ public:
         QueryIterator& operator=(const I& other) {
             _item = other;
             find_result();
+            return *this;
         }
     
     private:
-- 
2.43.0


From 36a09f4779c9081c26cd726e801a3d9e2a6f9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 038/116] fix: Tree constructor from a range of items: count
 the items, not the nodes

---
 geomc/Tree.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index bc67e20..cf2544c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -202,9 +202,11 @@ public:
         NodeRef node = _nodes.begin();
         
         // assign items to root
-        node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        node->n_items = _items.size();
+        if (node->n_items > 0) {
+            node->items_first = _items.begin();
+            node->items_last  = std::prev(_items.end());
+        }
     }
     
     
-- 
2.43.0


From 79ada1c5751723434993f735508413886478528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 039/116] fix: Tree move constructor: nodes referred to the
 off-end nodes and items of the source

---
 geomc/Tree.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index cf2544c..3dae7c5 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -184,8 +184,17 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor.
+    Tree(Tree<NodeItem, LeafItem>&& other):
+            _nodes(std::move(other._nodes)),
+            _items(std::move(other._items)) {
+        // the nodes still refer to the off-end nodes and items of `other`
+        for (NodeRef n = _nodes.begin(); n != _nodes.end(); ++n) {
+            if (n == _nodes.begin()) n->parent = _nodes.end();
+            if (n->n_children == 0)  n->child_first = n->child_last = _nodes.end();
+            if (n->n_items    == 0)  n->items_first = n->items_last = _items.end();
+        }
+    }
     
     
     /**
-- 
2.43.0


From 6d303a14652633f1ee1dc5a74bec4b99134ae7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 040/116] fix: Tree copy construction: parents, children and
 item ranges of the copied nodes

---
 geomc/Tree.h | 80 +++++++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 3dae7c5..195e12a 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -185,7 +185,7 @@ public:
     
     
     /// Move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other):
+    Tree(Tree<NodeItem, LeafItem>&& other) noexcept:
             _nodes(std::move(other._nodes)),
             _items(std::move(other._items)) {
         // the nodes still refer to the off-end nodes and items of `other`
@@ -229,7 +229,7 @@ public:
     
     /// Construct a new tree from the given subtree.
     Tree(const ConstSubtree<NodeItem, LeafItem>& other):
-            _nodes(other.subtree_begin(), other.subtree_end()),
+            _nodes(other.subtree_begin()._root, other.subtree_end()._root),
             _items(other.items_begin(), other.items_end()) {
         // make a root (we only added the children)
         _nodes.push_front(*other._root);
@@ -359,10 +359,9 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
-        n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-        n->items_last  = _items.end(); --(n->items_last);
         root().recalculate_references();
     }
     
@@ -1631,12 +1630,13 @@ public:
     
 protected:
     
-    // use all the child counts to recompute the first/last 
+    // use all the child counts to recompute the parents and the first/last 
     // references in internal nodes. useful when taking ownership
     // of another tree's internal node list.
     // preconditions: 
-    //   - first item AND child pointers of this node are correct
-    //   - the descendents of this subtree have correct child and item counts
+    //   - the parent of this node is correct
+    //   - first item AND child pointers of this node are correct, if it has any
+    //   - this node and its descendents have correct child and item counts
     //   - the nodes belonging to this subtree exist and are correctly ordered
     //     and placed in the tree
     //   - item boundaries of all ancestors are already correct
@@ -1644,56 +1644,48 @@ protected:
     // This should be an effective no-op if the subtree is already owned
     // (though it may still take O(n) to execute).
     void recalculate_references() const {
+        // next unassigned child node:
         NodeRef begin_child = this->_root->child_first;
         // next unassigned leaf item:
         ItemRef begin_items = this->_root->items_first;
-        // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
         
         // in essence we "build" the tree by simply taking ownership of 
-        // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
-            node->child_first = node->child_last = 
-                (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
-            node->items_first = node->items_last = 
-                (node->n_items    > 0) ? begin_items : this->_storage->_items.end();
+        // the nodes/items that already exist. we walk over the nodes 
+        // depth-first, which is the order in which families of children
+        // and lists of items occur.
+        NodeRef node = this->_root;
+        while (true) {
+            node->child_first = node->child_last = this->_storage->_nodes.end();
+            node->items_first = node->items_last = this->_storage->_items.end();
+            
+            // all descendent items follow the ones already assigned
+            if (node->n_items > 0) node->items_first = begin_items;
             
             if (node->n_children > 0) {
-                node->child_first->parent = node;
-                
                 // acquire direct children
-                for (index_t c = 0; c < node->n_children - 1; ++c) {
-                    ++(node->child_last);
+                node->child_first = begin_child;
+                for (index_t c = 0; c < node->n_children; ++c) {
+                    node->child_last = begin_child++;
                     node->child_last->parent = node;
                 }
-                
-                // move the node "free space"
-                begin_child = node->child_last; ++begin_child;
-                
                 // populate first child's subtree
                 node = node->child_first;
-            } else {
-                if (node->n_items > 0) {
-                    for (index_t i = 0; i < node->n_items - 1; ++i) {
-                        ++(node->items_last);
-                    }
-                    // move the item "free space"
-                    begin_items = last_item = node->items_last; ++begin_items;
-                }
-                    
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
-                }
-                
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+                continue;
+            }
+            
+            // acquire direct items
+            for (index_t i = 0; i < node->n_items; ++i) {
+                node->items_last = begin_items++;
+            }
+            
+            // done populating this tree. finish all the subtrees which end here.
+            while (node != this->_root and node == node->parent->child_last) {
+                node = node->parent;
+                if (node->n_items > 0) node->items_last = std::prev(begin_items);
             }
+            if (node == this->_root) break;
+            // populate the next sibling tree.
+            ++node;
         }
     }
     
-- 
2.43.0


From dd876037eb0c164820afe83c18ca94371e0a9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 041/116] fix: Subtree::adopt: did not compile; copy everything
 before the tree is changed

---
 geomc/Tree.h | 77 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 195e12a..114b7af 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1358,6 +1358,9 @@ public:
      * If `insert_before` is not a child or end-child of this node, the
      * tree is unchanged and `end()` is returned.
      *
+     * If this node was previously empty of child nodes, then its `LeafItem`s become
+     * the first items of the first leaf of the new subtree.
+     *
      * Invalidates all `end()` subtrees.
      *
      * @param other_subtree The subtree to copy and adopt as a child.
@@ -1365,37 +1368,63 @@ public:
      * @return An iterator pointing at the root of the new adopted subtree.
      */
     self_t adopt(const const_iterator& other_subtree, const self_t& insert_before) const {
-        self_t new_node = insert_child_node(insert_before, *other_subtree);
-        if (new_node == this->end()) return new_node;
-        
-        NodeRef n = new_node._root;
-        
-        // insert all the items
-        // (also updates the boundary items; etc.)
-        // new node is now a valid leaf with a buncha items:
-        ItemRef first_new_item = n.insert_items(
+        // copy everything first, so that this tree is unaffected if something cannot
+        // be copied, and so that the other subtree may be a part of this tree.
+        std::list<typename base_t::Node> nodes(
+            other_subtree.subtree_begin()._root,
+            other_subtree.subtree_end()._root);
+        std::list<LeafItem> items(
             other_subtree.items_begin(),
             other_subtree.items_end());
+        index_t n_children = other_subtree.node_count();
+        index_t n_items    = items.size();
         
-        // todo: _storage->_nodes.reserve(...)
+        NodeRef prev_end = this->end()._root;
+        self_t new_node  = insert_child_node(insert_before, *other_subtree);
+        if (new_node._root == prev_end) return new_node;
         
-        // insert all the descendent nodes
-        NodeRef subtree_end    = this->node_successor(n);
-        NodeRef first_new_node = this->_storage->_nodes.insert(
-            subtree_end, 
-            other_subtree.subtree_begin()._root, 
-            other_subtree.subtree_end()._root);
+        // if we had items of our own, the new node has them now.
+        NodeRef n       = new_node._root;
+        index_t n_taken = n->n_items;
         
-        // update the new root's child list
-        n->n_children = other_subtree.node_count();
-        if (first_new_node != subtree_end) {
-            n->child_first = first_new_node;
-            n->child_last  = subtree_end; --(n->child_last);
+        // insert all the items
+        if (n_items > 0) {
+            ItemRef first_new_item = items.begin();
+            ItemRef last_new_item  = std::prev(items.end());
+            this->_storage->_items.splice(
+                n_taken > 0 ? std::next(n->items_last) : this->item_successor(n),
+                items);
+            this->_storage->update_boundary_items(
+                n,
+                n_taken > 0 ? n->items_first : first_new_item,
+                last_new_item,
+                n_items);
         }
         
-        // all the pointers/iterators inside the subtree have to point
-        // to *our* storage; not the original storage
-        new_node.recalculate_references();
+        // insert all the descendent nodes
+        if (n_children > 0) {
+            NodeRef first_new_node = nodes.begin();
+            this->_storage->_nodes.splice(this->node_successor(n), nodes);
+            
+            // update the new root's child list
+            n->n_children  = n_children;
+            n->child_first = first_new_node;
+            
+            // the items we had belong to the first leaf now. the children of
+            // the first sibling follow directly after the last sibling.
+            index_t n_siblings = n_children;
+            for (NodeRef c = first_new_node; ; ) {
+                c->n_items += n_taken;
+                if (c->n_children == 0) break;
+                NodeRef first_child = std::next(c, n_siblings);
+                n_siblings = c->n_children;
+                c = first_child;
+            }
+            
+            // all the pointers/iterators inside the subtree have to point
+            // to *our* storage; not the original storage
+            new_node.recalculate_references();
+        }
         
         return new_node;
     }
-- 
2.43.0


From 09f77bb196a2c1a22dc4ccd24e41502639ef6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 042/116] fix: QueryIterator: stop only once the subtree is
 exhausted, not at a descendent found in the position of end()

---
 geomc/Tree.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 114b7af..af7b76a 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -522,6 +522,9 @@ public:
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
+        // whether the sequence is exhausted. `_root.end()` cannot tell: the node in
+        // that position may be a descendent of `_root`, which is yet to be visited.
+        bool       _done = false;
         
     public:
         
@@ -535,19 +538,24 @@ public:
             find_result();
         }
         
-        /// Return true if this iterator points to the subtree at `other`.
+        /**
+         * @brief Return true if this iterator points to the subtree at `other`.
+         *
+         * The `end()` of the queried node is equal to an exhausted iterator only.
+         */
         bool operator==(const I& other) const {
-            return other == _item;
+            return other == _item and (_done or other != _root.end());
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = other == _root.end() or other == _item.tree().end();
             find_result();
             return *this;
         }
@@ -558,20 +566,23 @@ public:
             if (_item.node_count() > 0 and _bound(_item, _key)) {
                 // descend into tree
                 _item = _item.begin();
-            } else if (_item == _root) {
-                _item = _root.end();
             } else {
                 // nothing further for us here. pop back out.
                 // while item is the last child of its parent, ascend:
-                while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
+                while (_item != _root and _item._root == _item.parent()._root->child_last) {
                     _item = _item.parent();
                 }
-                ++_item;
+                if (_item == _root) {
+                    _item = _root.end();
+                    _done = true;
+                } else {
+                    ++_item;
+                }
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -584,7 +595,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _item == other._item and _done == other._done;
         }
         
         const I& dereference() const {
-- 
2.43.0


From 9c33d9ae5e9ace639c0a58ab095d6d528302e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 043/116] fix: mtx_aliases_storage: partially overlapping
 matrices share storage; token ranges of diagonal and permutation matrices

---
 geomc/linalg/Matrix.h                     | 4 ++--
 geomc/linalg/mtxtypes/DiagMatrix.h        | 2 +-
 geomc/linalg/mtxtypes/PermutationMatrix.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..cd731d1 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,11 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo < tkb.hi and tkb.lo < tka.hi) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
diff --git a/geomc/linalg/mtxtypes/DiagMatrix.h b/geomc/linalg/mtxtypes/DiagMatrix.h
index db323e5..4b1fbf6 100644
--- a/geomc/linalg/mtxtypes/DiagMatrix.h
+++ b/geomc/linalg/mtxtypes/DiagMatrix.h
@@ -160,7 +160,7 @@ public:
     
     inline void get_storage_tokens(storage_token_t* buf) const {
         const T* p = data.get();
-        *buf = {p, p + rows()};
+        *buf = {p, p + diag};
     }
     
     constexpr index_t storage_token_count() const {
diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..f83ad12 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -395,7 +395,7 @@ public:
     inline void get_storage_tokens(storage_token_t* buf) const {
         // currently, this kind of matrix owns all its memory. two matrices
         // cannot alias unless they are the same object.
-        *buf = {this, this};
+        *buf = {this, this + 1};
     }
     
     constexpr index_t storage_token_count() const {
-- 
2.43.0


From b9f5eef4997516a91612c04eff41f8973f29197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 044/116] fix: mul: multiplication into a Vec did not compile
 (aliasing of vectors with matrices)

---
 geomc/linalg/Matrix.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index cd731d1..0265e4a 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -328,9 +328,21 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
     return false;
 }
 
-template <typename T, index_t N>
-inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
-    return a.begin() == b.begin();
+template <typename T, index_t M, index_t N>
+inline bool mtx_aliases_storage(const Vec<T,M>& a, const Vec<T,N>& b) {
+    return a.begin() < b.end() and b.begin() < a.end();
+}
+
+template <typename T, index_t N, typename Mb>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Mb& b) {
+    // vectors are contiguous; examine them as a wrapped column
+    typedef SimpleMatrix<T,N,1,COL_MAJOR,STORAGE_WRAPPED> wrapped_t;
+    return mtx_aliases_storage(wrapped_t(const_cast<T*>(a.begin())), b);
+}
+
+template <typename Ma, typename T, index_t N>
+inline bool mtx_aliases_storage(const Ma& a, const Vec<T,N>& b) {
+    return mtx_aliases_storage(b, a);
 }
 
 
-- 
2.43.0


From bbe2a736fedbe2ed9c79fffdffe0d3107e578ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 045/116] fix: transpose: the result was overwritten when the
 destination aliases the source

---
 geomc/linalg/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 0265e4a..00bf277 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -682,6 +682,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From e33b50c65b8ba0e0f95b928d7a6da204583366bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 046/116] fix: transpose(), scale() and as_transpose() of
 wrapper matrices did not compile

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h   | 13 ++++++++++++-
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h |  3 ++-
 geomc/linalg/mtxtypes/SimpleMatrix.h        | 14 ++++++++++----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index da8a99f..22a121c 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -147,9 +147,20 @@ struct _ImplMatrixAddReturnType <Ma, Mb,
  * Matrix scalar mul                *
  ************************************/
 
+template <typename Mx>
+struct _ImplMatrixScaleResult {
+    typedef Mx type;
+};
+
+// a wrapper has no array of its own to put a result in
+template <typename T, index_t M, index_t N, MatrixLayout Lyt>
+struct _ImplMatrixScaleResult < SimpleMatrix<T,M,N,Lyt,STORAGE_WRAPPED> > {
+    typedef SimpleMatrix<T,M,N,Lyt,STORAGE_UNIQUE> type;
+};
+
 template <typename Mx>
 struct _ImplMatrixScale {
-    typedef Mx return_t;
+    typedef typename _ImplMatrixScaleResult<Mx>::type return_t;
     
     template <typename Md, typename U>
     static void scale(Md *d, U k, const Mx &m) {
diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..d9e7d9d 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -113,7 +113,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // (a wrapper has no array of its own to put a result in)
+    typedef geom::SimpleMatrix<T,N,M,Lyt,(P == STORAGE_WRAPPED) ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..a9f22ca 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -489,10 +489,16 @@ public:
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
     as_transpose() const {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> wrap_t;
+        T* p = const_cast<T*>(data.get());
+        // run-time sizes are given for the dynamic dimensions only
+        if constexpr (M != 0 and N != 0) {
+            return wrap_t(p);
+        } else if constexpr (M == 0 and N == 0) {
+            return wrap_t(p, cols(), rows());
+        } else {
+            return wrap_t(p, M == 0 ? rows() : cols());
+        }
     }
     
     /**
-- 
2.43.0


From 0599d6f3a720249c9b97e8a1fc77c711d1961dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 047/116] fix: mtxcopy: source was overwritten while being read
 when it aliases a destination of another layout

---
 geomc/linalg/mtxdetail/MatrixCopy.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixCopy.h b/geomc/linalg/mtxdetail/MatrixCopy.h
index cf99651..a8e3359 100644
--- a/geomc/linalg/mtxdetail/MatrixCopy.h
+++ b/geomc/linalg/mtxdetail/MatrixCopy.h
@@ -45,6 +45,28 @@ namespace detail {
     {
         std::copy(src.data_begin(), src.data_end(), into->data_begin());
     }
+    
+    // SimpleMatrixes with different layouts must not be overwritten while they are being read.
+    template <typename T, typename S, 
+        index_t M0, index_t N0,
+        index_t M1, index_t N1,
+        MatrixLayout Lyt0, MatrixLayout Lyt1,
+        StoragePolicy P0, StoragePolicy P1>
+    void _mtxcopy(
+                  geom::SimpleMatrix<T,M0,N0,Lyt0,P0>* into, 
+            const geom::SimpleMatrix<S,M1,N1,Lyt1,P1>& src)
+    {
+        const void* d_lo = into->data_begin();
+        const void* d_hi = into->data_end();
+        const void* s_lo = src.data_begin();
+        const void* s_hi = src.data_end();
+        if (d_lo < s_hi and s_lo < d_hi) {
+            const geom::SimpleMatrix<S,M1,N1,Lyt1> tmp(src.data_begin(), src.rows(), src.cols());
+            std::copy(tmp.begin(), tmp.end(), into->begin());
+        } else {
+            std::copy(src.begin(), src.end(), into->begin());
+        }
+    }
 
 
 }; // namespace detail
@@ -94,7 +116,6 @@ void mtxcopy(Md* into, const Ms& src,
         throw DimensionMismatchException(D::rows(*into), D::cols(*into), S::rows(src), S::cols(src));
     }
 #endif
-    // todo: check mem aliasing?
     detail::_mtxcopy(into, src);
 }
 
-- 
2.43.0


From 305818d601fa1855a2064e7f54eaff26ea798835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 048/116] fix: add, sub, scale: wrong result when the
 destination partially or transposedly aliases an operand

---
 geomc/linalg/Matrix.h | 61 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 00bf277..dc8db39 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -783,6 +783,40 @@ typename detail::_ImplMtxInv<Mx>::return_t inv(const Mx &m, bool *success,
  * Matrix add/sub                *
  *********************************/
 
+namespace detail {
+
+// Would writing the elements of `d` in order disturb the elements of `a` that are still to be read
+// at the corresponding positions? (The dimensions of `d` and `a` are known to agree).
+template <typename Md, typename Ma>
+inline bool _elementwise_hazard(const Md& d, const Ma& a) {
+#if GEOMC_MTX_CHECK_ALIASING
+    return mtx_aliases_storage(d, a);
+#else
+    return false;
+#endif
+}
+
+// elements at the same position have the same location; no hazard
+template <typename T, index_t M, index_t N, index_t J, index_t K,
+          MatrixLayout Lyt, StoragePolicy P, StoragePolicy Q>
+inline bool _elementwise_hazard(
+        const SimpleMatrix<T,M,N,Lyt,P>& d,
+        const SimpleMatrix<T,J,K,Lyt,Q>& a) {
+#if GEOMC_MTX_CHECK_ALIASING
+    return d.data_begin() != a.data_begin() and mtx_aliases_storage(d, a);
+#else
+    return false;
+#endif
+}
+
+// a diagonal matrix aliases only itself
+template <typename T, index_t M, index_t N, typename S, index_t J, index_t K>
+inline bool _elementwise_hazard(const DiagMatrix<T,M,N>& d, const DiagMatrix<S,J,K>& a) {
+    return false;
+}
+
+} // namespace detail
+
 /**
  * Matrix addition. Add the corresponding elements of `a` and `b`, whose dimensions
  * must match.
@@ -806,7 +840,14 @@ add(Md *d, const Ma &a, const Mb &b) {
     detail::MatrixDimensionMatch<Ma,Mb>::check(a,b);
     detail::MatrixDimensionMatch<Md,Ma>::check(*d,a);
 #endif
-    add_t::add(d,a,b);
+    if (detail::_elementwise_hazard(*d, a) or detail::_elementwise_hazard(*d, b)) {
+        typedef typename detail::_ImplMatrixScaleResult<Md>::type buffer_t;
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(a.rows(), a.cols());
+        add_t::add(&tmp,a,b);
+        detail::_mtxcopy(d, tmp);
+    } else {
+        add_t::add(d,a,b);
+    }
 }
 
 /**
@@ -832,7 +873,14 @@ sub(Md *d, const Ma &a, const Mb &b) {
     detail::MatrixDimensionMatch<Ma,Mb>::check(a,b);
     detail::MatrixDimensionMatch<Md,Ma>::check(*d,a);
 #endif
-    add_t::sub(d,a,b);
+    if (detail::_elementwise_hazard(*d, a) or detail::_elementwise_hazard(*d, b)) {
+        typedef typename detail::_ImplMatrixScaleResult<Md>::type buffer_t;
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(a.rows(), a.cols());
+        add_t::sub(&tmp,a,b);
+        detail::_mtxcopy(d, tmp);
+    } else {
+        add_t::sub(d,a,b);
+    }
 }
 
 /**
@@ -917,7 +965,14 @@ scale(Md *d, U k, const Mx &m) {
 #ifdef GEOMC_MTX_CHECK_DIMS
     detail::MatrixDimensionMatch<Mx,Md>::check(m,*d);
 #endif
-    scale_t::scale(d, k, m);
+    if (detail::_elementwise_hazard(*d, m)) {
+        typedef typename detail::_ImplMatrixScaleResult<Md>::type buffer_t;
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(m.rows(), m.cols());
+        scale_t::scale(&tmp, k, m);
+        detail::_mtxcopy(d, tmp);
+    } else {
+        scale_t::scale(d, k, m);
+    }
 }
 
 /**
-- 
2.43.0


From 0936cf1b7b7fd3498670d9cbdd75f589ddbc081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 049/116] fix: mul_acc: wrong result when the destination
 aliases an operand

---
 geomc/linalg/Matrix.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index dc8db39..7c8147d 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -465,7 +465,20 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
         throw DimensionMismatchException(D::rows(*into), D::cols(*into), A::rows(a), B::cols(b));
     }
 #endif
+    
+#if GEOMC_MTX_CHECK_ALIASING
+    if (mtx_aliases_storage(*into, a) or mtx_aliases_storage(*into, b)) {
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(A::rows(a), B::cols(b));
+        detail::_mtxcopy(&tmp, *into);
+        mult_t::mul_acc(&tmp, a, b);
+        detail::_mtxcopy(into, tmp);
+    } else {
+        mult_t::mul_acc(into, a, b);
+    }
+#else
     mult_t::mul_acc(into, a, b);
+#endif
+    
     return *into;
 }
 
@@ -542,7 +555,20 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
         throw DimensionMismatchException(Dr::rows(*into), Dr::cols(*into), A::rows(a), B::cols(b));
     }
 #endif
+    
+#if GEOMC_MTX_CHECK_ALIASING
+    if (mtx_aliases_storage(*into, a) or mtx_aliases_storage(*into, b)) {
+        buffer_t tmp = detail::_ImplMtxInstance<buffer_t>::instance(A::rows(a), B::cols(b));
+        detail::_mtxcopy(&tmp, *into);
+        mult_t::mul_acc(&tmp, a, b);
+        detail::_mtxcopy(into, tmp);
+    } else {
+        mult_t::mul_acc(into, a, b);
+    }
+#else
     mult_t::mul_acc(into, a, b);
+#endif
+    
     return *into;
 }
 
-- 
2.43.0


From 6889c99adf34acf141ac46146736fb5ffdd06dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 050/116] fix: mul: products with diagonal matrices ignored the
 right operand, or read beyond a nonsquare diagonal

---
 geomc/linalg/mtxdetail/MatrixMult.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..3d13235 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -93,9 +93,12 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        const index_t n = std::min(b.rows(), b.cols());
+        for (index_t c = 0; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                // (columns beyond the diagonal are zero)
+                if (c < n) d->set(r,c, dp[c] * a(r,c));
+                else       d->set(r,c, 0);
             }
         }
     }
@@ -109,13 +112,16 @@ public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
     
-    // (M x N) * (N x a) -> (N x a)
+    // (M x N) * (N x a) -> (M x a)
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t n = std::min(a.rows(), a.cols());
+        for (index_t r = 0; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                // (rows beyond the diagonal are zero)
+                if (r < n) d->set(r,c, dp[r] * b(r,c));
+                else       d->set(r,c, 0);
             }
         }
     }
-- 
2.43.0


From e9f521e49654eda1f4045606b7f74f99bb62f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 051/116] fix: mul: diagonal * diagonal and diagonal *
 permutation did not compile, and read beyond a nonsquare diagonal

---
 geomc/linalg/mtxdetail/MatrixMult.h | 84 ++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 3d13235..566da9f 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -25,7 +25,7 @@ namespace detail {
 
 // This is necessary because c++ gets confused by all the different matrix mult 
 // implementations which involve permutation matrixes:
-#define REQUIRE_NONPERMUTE_MATRIX_T(Mt) \
+#define REQUIRE_GENERAL_MATRIX_T(Mt) \
     typename std::enable_if< \
         std::is_base_of< \
             geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
@@ -34,6 +34,23 @@ namespace detail {
         std::is_base_of< \
             geom::PermutationMatrix<Mt::ROWDIM>, \
             Mt \
+        >::value and not \
+        std::is_base_of< \
+            geom::DiagMatrix<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM>, \
+            Mt \
+        >::value \
+    >::type
+
+// likewise for diagonal matrixes:
+#define REQUIRE_NONDIAG_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not \
+        std::is_base_of< \
+            geom::DiagMatrix<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM>, \
+            Mt \
         >::value \
     >::type
 
@@ -84,7 +101,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_NONDIAG_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -107,7 +124,7 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_NONDIAG_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
@@ -130,48 +147,65 @@ public:
 
 // diag * diag
 template <typename T, index_t L, index_t M1, index_t M2, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,L,M1>, geom::DiagMatrix<T,M2,N>, void> {
+class _ImplMtxMul<
+        geom::DiagMatrix<T,L,M1>,
+        geom::DiagMatrix<T,M2,N>,
+        void> {
+    
+    typedef geom::DiagMatrix<T,L,M1> Ma;
+    typedef geom::DiagMatrix<T,M2,N> Mb;
+    
+    // number of elements on the diagonal of the product which may be nonzero.
+    static inline index_t n_products(const Ma& a, const Mb& b) {
+        return std::min(std::min(a.rows(), a.cols()), b.cols());
+    }
+    
 public:
     
     typedef geom::DiagMatrix<T,L,N> return_t;
     
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
-    static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+    static void mul(geom::DiagMatrix<U,I,J>* d, const Ma& a, const Mb& b) {
+        const index_t n = n_products(a, b);
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        std::fill(pc, d->diagonal_end(), 0);
     }
     
     template <typename U, index_t I, index_t J>
-    static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+    static void mul_acc(geom::DiagMatrix<U,I,J>* d, const Ma& a, const Mb& b) {
+        const index_t n = n_products(a, b);
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
     
     // arbitrary destination matrix
     template <typename Md>
-    static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+    static void mul(Md* d, const Ma& a, const Mb& b) {
+        const index_t n = n_products(a, b);
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
-    static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+    static void mul_acc(Md* d, const Ma& a, const Mb& b) {
+        const index_t n = n_products(a, b);
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        for (index_t i = 0; i < n; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
@@ -290,7 +324,7 @@ public:
 // (row x col) * (col x col) = (row x col)
 // xxx this might fail.
 template <typename Mat, index_t N>
-class _ImplMtxMul<Mat, geom::PermutationMatrix<N>, REQUIRE_NONPERMUTE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::PermutationMatrix<N>, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
     typedef typename Mat::elem_t T;
     static const index_t M = Mat::ROWDIM;
@@ -312,7 +346,7 @@ public:
 // permutation * mtx
 // (row x row) * (row x col) = (row x col)
 template <typename Mat, index_t M>
-class _ImplMtxMul<geom::PermutationMatrix<M>, Mat, REQUIRE_NONPERMUTE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::PermutationMatrix<M>, Mat, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
     typedef typename Mat::elem_t T;
     
@@ -419,6 +453,8 @@ public:
 //      can increment matrix ptr and use     v++ % N.
 
 #undef REQUIRE_MATRIX_T
+#undef REQUIRE_NONDIAG_MATRIX_T
+#undef REQUIRE_GENERAL_MATRIX_T
 
 }; // namespace geom
 }; // namespace detail
-- 
2.43.0


From a38ab3007b69f2d862986db37c8db9bd3f449d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 052/116] fix: operator*=: a nonsquare diagonal matrix wrote
 beyond the end of the destination

---
 geomc/linalg/Matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 7c8147d..130703f 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -1145,6 +1145,10 @@ operator*=(Mx& m, const DiagMatrix<T,M,N>& d) {
     if ((Mx::COLDIM == 0 or M == 0) and (m.cols() != d.rows())) {
         throw DimensionMismatchException(m.rows(), m.cols(), d.rows(), d.cols());
     }
+    // `m` keeps its dimensions
+    if (d.rows() != d.cols()) {
+        throw NonsquareMatrixException(d.rows(), d.cols());
+    }
 #endif
     
     // diagonal matrixes don't care if they alias; there is
-- 
2.43.0


From ff33e0f73bbb6631466b9752a010c2e15f292019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 053/116] fix: mul: permutation * permutation gave the
 transposed product in an arbitrary matrix, and kept the old sign in a
 permutation matrix

---
 geomc/linalg/mtxdetail/MatrixMult.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 566da9f..73f44c5 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -372,13 +372,13 @@ public:
     typedef geom::PermutationMatrix<((M < N) ? M : N)> return_t;
     
     template <typename Md>
-    static void mul(Md* d, const Ma& a, const Ma& b) {
-        const index_t* d_a = a.getRowDestinations();
-        const index_t* d_b = b.getRowDestinations();
+    static void mul(Md* d, const Ma& a, const Mb& b) {
+        const index_t* s_a = a.getRowSources();
+        const index_t* s_b = b.getRowSources();
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(i, s_b[s_a[i]], 1);
         }
     }
     
@@ -398,6 +398,9 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        
+        // not known unless both operands' signs are known
+        d->_sign = a._sign * b._sign;
     }
 };
 
-- 
2.43.0


From 8c7d77f763de2892c4bd37bf0a7c443141ad185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 054/116] fix: PermutationMatrix: sign of every even cycle, and
 of exchanging a row or column with itself

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f83ad12..b5a37b2 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
@@ -340,7 +339,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -359,7 +358,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -486,7 +485,8 @@ index_t permutation_sign(index_t* p, index_t n) {
         do {
             // source of the new element at this position:
             index_t next = p[cur];
-            odd = not odd;
+            // a cycle of k elements is made of k - 1 exchanges
+            if (next != i) odd = not odd;
             // mark this element as visited by mapping it to itself
             p[cur] = cur;
             // ...and then proceed
-- 
2.43.0


From c98e60fff6ca45a592cebc5908032926e4af7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 055/116] fix: permutation_apply: the permutation was not reset
 to the identity

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index b5a37b2..b743352 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -463,6 +463,7 @@ void permutation_apply(index_t* p, index_t n, RandomAccessIterator v) {
             // (we only need to do this if we might encounter the cycle again)
             p[cur] = cur;
         } while (next != i);
+        p[i] = i;
     }
 }
 
-- 
2.43.0


From 3e376195abc2165361520a99b232cdf9cdbd93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 056/116] fix: inv: of a matrix with run-time size did not
 compile

---
 geomc/linalg/mtxdetail/MatrixInv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..29be054 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
-- 
2.43.0


From 1a53e4e8677ccee08dfbc789b019504238be4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 057/116] fix: inv: of a diagonal matrix did not compile

---
 geomc/linalg/mtxdetail/MatrixInv.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 29be054..74f4635 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -378,7 +378,7 @@ public:
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
             T elem = *p;
             if (elem == 0) return false;
@@ -386,6 +386,19 @@ public:
         }
         return true;
     }
+    
+    // diagonal destination. may be `m` itself.
+    template <typename S, index_t J, index_t K>
+    static bool inv(geom::DiagMatrix<S,J,K> *into, const geom::DiagMatrix<T,M,N>& m) {
+        const T *p = m.diagonal_begin();
+        S *d = into->diagonal_begin();
+        for (; p != m.diagonal_end(); ++p, ++d) {
+            T elem = *p;
+            if (elem == 0) return false;
+            *d = 1/elem;
+        }
+        return true;
+    }
 };
 
 // inverse of permutation matrix is its transpose.
-- 
2.43.0


From 07a6f268fa0142aa3f31c7743ad4cf2ad5f25e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 058/116] fix: decomp_plu, decomp_lup: the last pivot was not
 examined, so that singular matrices were inverted

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From 2a21f4f4ccdb2255ec9ff515875fd6e141778ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 059/116] fix: det: of matrices larger than 4 x 4 multiplied
 the wrong elements, or did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..d4b851d 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * n + i];
     }
     return d;
 }
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * n + i];
     }
     return d;
 }
-- 
2.43.0


From 7189f3599dc08223fe682c51316020b93cef9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 060/116] fix: det: of 4 x 4, run-time size, diagonal and
 permutation matrices did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index d4b851d..e0b193c 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
-- 
2.43.0


From 28e0330d1832e1bf3d9665f1f62f8b1bda696621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 061/116] fix: SimpleMatrix: construction of a static matrix
 from one of another run-time size copied out of bounds

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index a9f22ca..20ddbef 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -279,6 +279,12 @@ protected:
             data(m.rows() * m.cols()) {
         Dimension<M>::set(n_rows, m.rows());
         Dimension<N>::set(n_cols, m.cols());
+#ifdef GEOMC_MTX_CHECK_DIMS
+        // a static dimension cannot take on the size of the source
+        if (rows() != m.rows() or cols() != m.cols()) {
+            throw DimensionMismatchException(rows(), cols(), m.rows(), m.cols());
+        }
+#endif
         detail::_mtxcopy(this, m);
     }
     
-- 
2.43.0


From ac08838f8ca21f9ec3c0e260cbd1fed18238e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 062/116] fix: DiagMatrix: failed assignment changed the length
 of the diagonal

---
 geomc/linalg/mtxtypes/DiagMatrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/mtxtypes/DiagMatrix.h b/geomc/linalg/mtxtypes/DiagMatrix.h
index 4b1fbf6..6db2b97 100644
--- a/geomc/linalg/mtxtypes/DiagMatrix.h
+++ b/geomc/linalg/mtxtypes/DiagMatrix.h
@@ -36,11 +36,11 @@ namespace detail {
 template <typename T, index_t M, index_t N>
 class DiagMatrix : public detail::MatrixBase<T,M,N, DiagMatrix<T,M,N> > {
     
-    index_t diag;
 #ifndef PARSING_DOXYGEN
     // this shit confuses doxygen because it am stoopid
     UniqueStorage<T, ((M<N)?M:N) > data;
 #endif
+    index_t diag; // (assigned after `data`, whose assignment may fail)
     typename Dimension<M>::storage_t n_rows;
     typename Dimension<N>::storage_t n_cols;
     
@@ -60,8 +60,8 @@ public:
 #else
     explicit DiagMatrix(index_t nrows=detail::DefinedIf<M != DYNAMIC_DIM, M>::value, 
                index_t ncols=detail::DefinedIf<N != DYNAMIC_DIM, N>::value) :
-                     diag(nrows < ncols ? nrows : ncols),
-                     data(diag) {
+                     data(nrows < ncols ? nrows : ncols),
+                     diag(nrows < ncols ? nrows : ncols) {
         Dimension<M>::set(n_rows, nrows);
         Dimension<N>::set(n_cols, ncols);
         set_identity(); 
@@ -79,8 +79,8 @@ public:
 #else
     DiagMatrix(const T src[], 
                index_t n=detail::DefinedIf<M * N != DYNAMIC_DIM, (M < N ? M : N)>::value) :
-                   diag(n),
-                   data(diag) {
+                   data(n),
+                   diag(n) {
         Dimension<M>::set(n_rows, n);
         Dimension<N>::set(n_cols, n);
         std::copy(src, src + n, data.get());
-- 
2.43.0


From 75797a3a6ef103bd485ef4b1606186a8cacf6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 063/116] fix: PermutationMatrix: failed assignment left the
 row and column maps with different permutations

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index b743352..905517a 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -65,6 +65,16 @@ public:
                 row_src(n),
                 row_dst(n) {}
     
+    PermuteMatrixBase(const PermuteMatrixBase& other) = default;
+    PermuteMatrixBase(PermuteMatrixBase&& other) = default;
+    PermuteMatrixBase& operator=(PermuteMatrixBase&& other) = default;
+    
+    // copy both maps before changing either; copying may fail.
+    PermuteMatrixBase& operator=(const PermuteMatrixBase& other) {
+        PermuteMatrixBase tmp(other);
+        return *this = std::move(tmp);
+    }
+    
 protected:
     inline index_t _rows() const { return row_src.size(); }
     inline index_t _cols() const { return row_src.size(); }
-- 
2.43.0


From 0623a395977bdcded85713f900c6e35d6abef6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 064/116] fix: add, sub: sums with permutation matrices were
 truncated to bool

---
 geomc/linalg/mtxdetail/MatrixArithmetic.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixArithmetic.h b/geomc/linalg/mtxdetail/MatrixArithmetic.h
index 22a121c..7f7d4ec 100644
--- a/geomc/linalg/mtxdetail/MatrixArithmetic.h
+++ b/geomc/linalg/mtxdetail/MatrixArithmetic.h
@@ -22,8 +22,7 @@ namespace detail {
 template <typename Ma, typename Mb>
 struct _ImplMatrixAdd {
     
-    //todo: should use decltype(Ma::elem_t + Mb::elem_t)
-    typedef SimpleMatrix<typename Ma::elem_t, 
+    typedef SimpleMatrix<decltype(std::declval<typename Ma::elem_t>() + std::declval<typename Mb::elem_t>()), 
                          Ma::ROWDIM * Mb::COLDIM == 0 ? 0 : Ma::ROWDIM, 
                          Ma::COLDIM * Mb::COLDIM == 0 ? 0 : Ma::COLDIM>
             return_t;
-- 
2.43.0


From fb9b8dfb62277d61d73205b3a06c0206ee18a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 065/116] fix: mul, mul_acc: operands with disagreeing inner
 dimensions were not rejected for all destinations

---
 geomc/linalg/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 130703f..641e343 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -501,6 +501,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
@@ -545,6 +549,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
-- 
2.43.0


From b3175020f80ca1703f48982fedaef28e57339c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 066/116] fix: SimpleMatrix: set_identity wrote ones off the
 diagonal of non-square matrices

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 20ddbef..935603b 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -512,9 +512,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t n = std::min(rows(), cols());
+        for (index_t i = 0; i < n; i++) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From 6823f47b024b6d295962f6ac9859213b7bbe94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 067/116] fix: PerlinNoise: the gradient in one dimension
 started from an uninitialised value

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..4773389 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w = point_t();
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From fb95371ec2d204f870ada895ed794663ed4835b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 068/116] fix: Raster: the value beyond a constant edge was not
 zero by default

---
 geomc/function/Raster.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..6782b40 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -146,6 +146,7 @@ public:
             m_extent(dims),
             m_size(detail::array_product<M>(PointType<index_t,M>::iterator(dims)) * N),
             m_data(new O[m_size]),
+            m_abyss((O)0),
             m_domain((I)0, (coord_t)dims - (coord_t)1) {
         std::fill(m_data.get(), m_data.get()+m_size, 0);
     }
@@ -162,6 +163,7 @@ public:
             m_extent(dims),
             m_size(detail::array_product<M>(PointType<index_t,M>::iterator(dims)) * N),
             m_data(new O[m_size]),
+            m_abyss((O)0),
             m_domain(domain) {
         std::fill(m_data.get(), m_data.get()+m_size, 0);
     }
@@ -181,6 +183,7 @@ public:
             m_extent(dims),
             m_size(detail::array_product<M>(PointType<index_t,M>::iterator(dims)) * N),
             m_data(new O[m_size]),
+            m_abyss((O)0),
             m_domain((I)0, (coord_t)dims - (coord_t)1) {
         std::copy(src_data, src_data + m_size, m_data.get());
     }
@@ -201,6 +204,7 @@ public:
             m_extent(dims),
             m_size(detail::array_product<M>(PointType<index_t,M>::iterator(dims)) * N),
             m_data(new O[m_size]),
+            m_abyss((O)0),
             m_domain(domain) {
         std::copy(src_data, src_data + m_size, m_data.get());
     }
-- 
2.43.0


From f00c4232db27baa76bb847e87375051d623bb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 069/116] fix: Raster: sample_discrete() and copy() with a
 run-time edge did not compile for scalar samples

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 6782b40..c4108b7 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -375,7 +375,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
-- 
2.43.0


From 849eda10f14da99579219c583156f8c68cf7ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 070/116] fix: Raster: mirroring along an axis with one sample
 divided by zero

---
 geomc/function/functiondetail/RasterDetail.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..798bea2 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -44,6 +44,7 @@ public:
     static inline index_t coord(index_t c, index_t max) {
         c = std::abs(c);
         max -= 1;
+        if (max == 0) return 0;
         int cyc = c/max;
         int i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
-- 
2.43.0


From 2c4425e68e2f65873700ff7598377dabdc139aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 071/116] fix: Raster: the domain was stretched by one sample
 over the grid

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index c4108b7..51addda 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -435,7 +435,7 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        return ((coord_t)m_extent - (coord_t)1) * m_domain.unmap(pt);
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From c15950d33432925316ffe376368f320a968e58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 072/116] fix: Raster: sample positions below zero were rounded
 the wrong way

---
 geomc/function/functiondetail/RasterDetail.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 798bea2..d29d94e 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -87,7 +87,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = (grid_t)std::floor(pt + coord_t(0.5));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -101,7 +101,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -120,7 +120,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = (grid_t)std::floor(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From 322436336b5bf19cd101ed7ab9c1b89a053a6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 073/116] fix: Raster: linear and cubic sampling did not
 compile in one dimension

---
 geomc/function/functiondetail/RasterDetail.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index d29d94e..862ea6a 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -105,7 +105,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -124,7 +124,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From 1bcac89163f2d2a547210aad1f6609ca493cfa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 074/116] fix: BinLatticePartition: query(Rect) did not compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From 73be18284728256a795025b64811e926025f19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 075/116] fix: Raster: sample() with run-time edge and
 interpolation did not compile

---
 geomc/function/Raster.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 51addda..cdfe2dd 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -289,33 +289,33 @@ public:
      */
     sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
         grid_t gridPt;
-        pt = toGridSpace(pt);
+        coord_t p = toGridSpace(pt);
         
         switch (interp) {
         case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
+            gridPt = (grid_t)std::floor(p + coord_t(0.5));
             return sample_discrete(gridPt, edge);
         case INTERP_LINEAR:
         {
             sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
-            coord_t s = pt - ((coord_t)gridPt);
+            gridPt = (grid_t)std::floor(p);
+            coord_t s = p - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
+            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(1)), edge);
             
-            return interp_linear(s.begin(), buf_l, M);
+            return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
         case INTERP_CUBIC:
         {
             sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
-            coord_t s = pt - ((coord_t)gridPt);
+            gridPt = (grid_t)std::floor(p);
+            coord_t s = p - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
+            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(2)), edge);
             
-            return interp_cubic(s.begin(), buf_c, M);
+            return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
         default:
             return m_abyss;
-- 
2.43.0


From 5dfbb378e6852c80aa2cb38fbc016068437e95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 076/116] fix: Raster: samplecount() counted the components of
 samples

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index cdfe2dd..2286a8f 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -429,7 +429,7 @@ public:
      * Number of grid sample points in this raster.
      */
     inline index_t samplecount() const {
-        return m_size;
+        return m_size / N;
     }
     
 protected:
-- 
2.43.0


From 9b8d4f117611d8151883cf647403ba785c0bd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 077/116] fix: BinLatticePartition: queries missed items on the
 upper border of the region

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 8924b3f..d0619ec 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -307,7 +307,7 @@ public:
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).ceil())
+                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
         );
     }
 
-- 
2.43.0


From ba916810d58d5c3ffa150fe883c9c82cfe27c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 078/116] fix: SphericalHarmonics::operator+ returns the sum

The operator had no return statement, started its loop at an uninitialised
index, took the number of coefficients for the number of bands, and read past
the end of the shorter operand when the two differ in size: any use of it
crashed. Sum through operator+=, which handles unequal sizes.
---
 geomc/function/SphericalHarmonics.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..1ce3e7a 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -544,12 +544,11 @@ class SphericalHarmonics {
     /**
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
-    SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
-        SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
-        }
+    SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) const {
+        SphericalHarmonics<T,Bands> out(std::max(sh.bands(), bands()));
+        out += *this;
+        out += sh;
+        return out;
     }
     
     /**
-- 
2.43.0


From e769b8ee0c5542c6a52ce0b413b9c4f821a21a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 079/116] fix: Intersector: a test after one that found an
 overlap could start without a direction

An overlap leaves a zero separation_axis behind. The next test used it as its
first search direction; shapes which normalise the direction (spheres and the
shapes made of them) then return NaN, every comparison is false, and the test
runs to its iteration limit and reports an overlap for shapes that are far
apart.
---
 geomc/shape/Intersect.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..02ecbc0 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -46,6 +46,12 @@ public:
         const AnyConvex<T,N>& shape_a,
         const AnyConvex<T,N>& shape_b)
     {
+        // the previous test may have left no usable axis to start from: it is zero after
+        // finding certain overlaps, and not finite if a shape had a non-finite support point
+        T axis2 = separation_axis.mag2();
+        if (not (axis2 > 0 and axis2 <= std::numeric_limits<T>::max())) {
+            separation_axis = Vec<T,N>::unit_x;
+        }
         // `a` is a point on the minkowski difference
         Vec<T,N> a = shape_a.convex_support( separation_axis) -
                      shape_b.convex_support(-separation_axis);
-- 
2.43.0


From d4e1cd8c767d5a9b8922adc7084387e48c50c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 080/116] fix: orthogonal() and nullspace() returned zero for
 independent vectors

Both took the first columns of the row-pivoted decomposition to be
independent. Independent vectors whose leading components are not, such as
(0,1,0,0), (0,0,1,0), (0,0,0,1), were reported as dependent and the result was
zero; in four and more dimensions the intersection test then answered 'overlap'
for separated boxes. Pivot by columns, and restore their order in the result.
---
 geomc/linalg/Orthogonal.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..61fa3c2 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -67,7 +67,7 @@ namespace geom {
  */
 template <typename T, index_t N>
 Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
-    Vec<T,N> o;
+    Vec<T,N> o, out;
     index_t  P[N];
     T        m[N * (N-1)];
     const T* v0 = v[0].begin();
@@ -76,7 +76,8 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    // pivot columns, so that the leading columns are independent if the rows are
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
@@ -90,7 +91,10 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
         o[r] /= mx(r,r);
     }
     
-    return o;
+    // restore the original order of the columns
+    for (index_t i = 0; i < N; i++) out[P[i]] = o[i];
+    
+    return out;
 }
 
 
@@ -138,7 +142,7 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+    index_t P[N];         //     (N-1 and N cases handled above)
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -154,7 +158,8 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     
     // get V to row-echelon form
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    // (pivot columns, so that the leading columns are independent if the rows are)
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
@@ -168,6 +173,10 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
             }
             x_i /= V(r, r);
         }
+        // restore the original order of the columns
+        T x[N];
+        for (index_t r = 0; r < N; r++) x[P[r]] = X(r, b);
+        for (index_t r = 0; r < N; r++) X(r, b) = x[r];
     }
     
     return true;
-- 
2.43.0


From 0067aab49962b91fe7008b121584f2eda5eb87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 081/116] fix: Intersector: a copy worked in the buffers of the
 original

---
 geomc/shape/Intersect.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 02ecbc0..809eb48 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -34,13 +34,12 @@ protected:
     // two "buffers":
     Simplex<T,N> simplex_a;
     Simplex<T,N> simplex_b;
-    // front and back buffer:
-    Simplex<T,N>* cur_simplex  = &simplex_a;
-    Simplex<T,N>* next_simplex = &simplex_b;
+    // which one is in front? (not a pointer, so that a copy refers to its own buffers)
+    bool b_in_front = false;
 
 public:
 
-    const Simplex<T,N>& simplex() const { return *cur_simplex; }
+    const Simplex<T,N>& simplex() const { return b_in_front ? simplex_b : simplex_a; }
     
     bool intersects(
         const AnyConvex<T,N>& shape_a,
@@ -57,6 +56,11 @@ public:
                      shape_b.convex_support(-separation_axis);
         // `d` is the previous search direction
         Vec<T,N> d = -a;
+        // front and back buffer:
+        Simplex<T,N>* cur_simplex  = &simplex_a;
+        Simplex<T,N>* next_simplex = &simplex_b;
+        b_in_front     = false;
+        was_degenerate = false;
         // initialize the simplex with a single point:
         cur_simplex->n = 0;
         cur_simplex->insert(a);
@@ -93,6 +97,7 @@ public:
             }
 #endif
             std::swap(cur_simplex, next_simplex);
+            b_in_front = not b_in_front;
             if (cur_simplex->n == N + 1 or d.is_zero()) {
                 // the simplex is full, and the origin is inside it.
                 separation_axis = d;
-- 
2.43.0


From 42bbf60e43f70e0de6ada65e3a308aa8db45b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 082/116] fix: Cylinder::convex_support returned NaN in the
 axial direction

---
 geomc/shape/Cylinder.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..c161b10 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -194,8 +194,16 @@ class Cylinder:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
-        return (d.dot(a) > 0 ? p1 : p0) + perp;
+        Vec<T,N> perp = d - d.project_on(a);
+        // if `d` is axial, then `perp` is a rounding residue with no meaningful
+        // direction. any point on the cap will do; take its center.
+        T tol = 16 * std::numeric_limits<T>::epsilon();
+        if (perp.mag2() <= tol * tol * d.mag2()) {
+            perp = {};
+        } else {
+            perp -= perp.project_on(a);
+        }
+        return (d.dot(a) > 0 ? p1 : p0) + perp.with_length(radius);
     }
     
     /// Ray/shape intersection test.
-- 
2.43.0


From 26f24059bb7166d2e473593b2577bed2011144d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 083/116] fix: Sphere::intersects(Rect) measured the distance
 to the wrong point

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..4c6ab53 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -74,7 +74,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From 9a58fe3f8d38796c721f5c6cab557987a4faa07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 084/116] fix: Sphere::intersects(Sphere) ignored the radius of
 the other sphere

---
 geomc/shape/Sphere.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 4c6ab53..e97aa13 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,8 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        T r_sum = r + s.r;
+        return ptype::mag2(center - s.center) <= r_sum * r_sum;
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From 50fef20dfb7e8c5cc7fddae6d8613cd9b42fe37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 085/116] fix: row iterators of diagonal and permutation
 matrices could not be compared

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..9417cd6 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
-- 
2.43.0


From 70af2c11461a552499cf5e14295c1e44e5c29dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 086/116] fix: GridIterator: stepping back, jumping and
 assigning

---
 geomc/shape/GridIterator.h | 45 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..a3f37f7 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -24,8 +24,6 @@ namespace geom {
  ***********************************************/
 
 // TODO: somehow add docs for the inherited operators.
-// xxx: this is apparently broken for negative regions.
-//    (it's probably a truncating division issue)
     
 /**
  * @ingroup shape
@@ -74,7 +72,7 @@ public:
     typedef typename PointType<T,N>::point_t point_t;
     
     /// Region over which to iterate
-    const Rect<T,N> region;
+    Rect<T,N> region;
     /// Current point
     point_t pt;
     
@@ -145,36 +143,39 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
-        point_t dim  = region.dimensions();
-        index_t vol  = region.volume();
-        
-        for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
-            vol     = vol / dim[i];
-            dest[i] = n / vol;
-            n       = n % vol;
+        // add `n` to the first coordinate, and carry into the following ones.
+        // the last coordinate is not bounded, because it places the end iterator.
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            index_t dim = std::max(extent(i), (index_t)1);
+            n += (index_t)(pt[i] - region.lo[i]);
+            // rounding down
+            index_t carry = (n >= 0) ? (n / dim) : -((dim - 1 - n) / dim);
+            pt[i] = region.lo[i] + (T)(n - carry * dim);
+            n = carry;
         }
-        
-        pt = dest;
+        pt[dim_last] += (T)n;
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
-        point_t dim  = region.dimensions(); 
-        point_t jump = other.pt - pt;
         index_t dist = 0;
         index_t vol  = 1;
         for (index_t i = dim_first; i != dim_end; i += dim_increment) {
-            dist += vol * jump[i];
-            vol  *= std::max(dim[i], (T)0);
+            dist += vol * ((index_t)other.pt[i] - (index_t)pt[i]);
+            vol  *= extent(i);
         }
         return dist;
     }
     
+    // number of grid points along axis `i` (the high bound is included)
+    inline index_t extent(index_t i) const {
+        return std::max((index_t)(region.hi[i] - region.lo[i]) + 1, (index_t)0);
+    }
+    
     inline const point_t& dereference() const {
         return pt;
     }
@@ -206,21 +207,21 @@ class GridIterator<T,1,Order> :
 
 public:
 
-    static const ArrayOrder order;
+    static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
-    const Rect<T,1> region;
+    Rect<T,1> region;
     point_t pt;
     
     GridIterator(const Rect<T,1> &r):
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From f9335870beda6d55a7036039e855db178ada9ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 087/116] fix: the row iterator of a permutation matrix could
 not be dereferenced

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 9417cd6..d953e9b 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
-- 
2.43.0


From 2beeeb331e887d28083b664d512e4917d8847dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 088/116] fix: AffineTransform::resized lost the translation of
 the inverse

---
 geomc/linalg/AffineTransform.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..759dc42 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,6 +184,7 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
-- 
2.43.0


From 47f1b0a152dfcb933d5bed3de1eb5a3ae2250076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 089/116] fix: direction_align between opposite directions kept
 the direction, or reflected

---
 geomc/linalg/AffineTransform.h | 49 +++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 759dc42..c79e389 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -11,6 +11,7 @@
 #define AFFINETRANSFORM_H_
 
 #include <algorithm>
+#include <limits>
 
 #include <geomc/Hash.h>
 #include <geomc/linalg/LinalgTypes.h>
@@ -438,6 +439,33 @@ inline void rotmat(
     rotmat(into, axis.x, axis.y, axis.z, ctr.x, ctr.y, ctr.z, theta);
 }
 
+// half turn about an axis perpendicular to `dir`, which takes `dir` to `-dir`.
+// (there is no unique shortest rotation between opposite directions).
+template <typename T, typename Mx>
+inline void rotmat_direction_flip(Mx* into, const Vec<T,3>& dir) {
+    // pick a coordinate axis which is well away from `dir`
+    index_t i = 0;
+    for (index_t j = 1; j < 3; ++j) {
+        if (std::abs(dir[j]) < std::abs(dir[i])) i = j;
+    }
+    Vec<T,3> axis;
+    axis[i] = 1;
+    axis = (dir ^ axis).unit();
+    into->set_identity();
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, 2 * axis[r] * axis[c] - (r == c ? 1 : 0));
+        }
+    }
+}
+
+// do two unit vectors with dot product `c` point in opposite directions
+// (up to rounding)?
+template <typename T>
+inline bool is_opposite_direction(T c) {
+    return 1 + c < 16 * std::numeric_limits<T>::epsilon();
+}
+
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
@@ -450,13 +478,12 @@ inline void rotmat_direction_align(
     const T c = dir.dot(alignWith);
     
     // handle poles
-    if (std::abs(c) == 1) {
-        into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+    if (is_opposite_direction(c)) {
+        rotmat_direction_flip(into, dir);
         return;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
     T m[16] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y, 0,
                 v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 0, 
@@ -475,14 +502,13 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     const T c = dir.dot(alignWith);
     
     // handle poles
-    if (std::abs(c) == 1) {
+    if (is_opposite_direction(c)) {
         SimpleMatrix<T,3,3> out;
-        // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
+        rotmat_direction_flip(&out, dir);
         return out;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
     return {
         v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
@@ -570,13 +596,12 @@ inline void rotmat_direction_align(
     const T c = dir.dot(alignWith);
     
     // handle poles
-    if (std::abs(c) == 1) {
-        into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+    if (is_opposite_direction(c)) {
+        rotmat_direction_flip(into, dir);
         return;
     }
     
-    const T k = (1 - c) / (1 - c * c);
+    const T k = 1 / (1 + c);
 
     T m[9] = { v.x*v.x*k + c,     v.y*v.x*k - v.z,    v.z*v.x*k + v.y,
                v.x*v.y*k + v.z,   v.y*v.y*k + c,      v.z*v.y*k - v.x, 
-- 
2.43.0


From a209152b5dbd9de511ad95c7a61ce32940566fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 090/116] fix: Quat::rotation_direction_align turned by twice
 the angle

---
 geomc/linalg/Quaternion.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..a986b90 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -9,6 +9,7 @@
 #define QUATERNION_H_
 
 #include <cmath>
+#include <limits>
 #include <geomc/linalg/Vec.h>
 
 namespace geom {
@@ -101,9 +102,19 @@ public:
             const Vec<T,3>& v,
             const Vec<T,3>& alignWith)
     {
-        Vec<T,3> axis = v ^ alignWith;
         T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        if (1 + d < 16 * std::numeric_limits<T>::epsilon()) {
+            // opposite directions: half turn about any perpendicular axis
+            index_t i = 0;
+            for (index_t j = 1; j < 3; ++j) {
+                if (std::abs(v[j]) < std::abs(v[i])) i = j;
+            }
+            Vec<T,3> axis;
+            axis[i] = 1;
+            return Quat<T>((v ^ axis).unit(), 0);
+        }
+        // the half angle bisects `v` and `alignWith`
+        return Quat<T>(v ^ alignWith, 1 + d).unit();
     }
 
     /*******************************
-- 
2.43.0


From d1242c1835b0c2ae957a26ca01839f231c2899af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 091/116] fix: dividing an AffineTransform by itself in place
 broke its inverse

---
 geomc/linalg/AffineTransform.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index c79e389..924fc9b 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -169,8 +169,10 @@ public:
      * the inverse of `xf`.
      */
     AffineTransform<T,N>& operator/=(const AffineTransform<T,N>& xf) {
-        mat = xf.inv * mat;
+        // (`xf` may be this object)
+        SimpleMatrix<T,N+1,N+1> m = xf.inv * mat;
         inv = inv * xf.mat;
+        mat = m;
         return *this;
     }
     
-- 
2.43.0


From b115419e9693d0ebef4fe61d60cfa8ecd645486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 092/116] fix: SphericalHarmonics read past the bands of the
 ZonalHarmonics it is made from

---
 geomc/function/SphericalHarmonics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 1ce3e7a..cbbec49 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < b; l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -213,8 +213,10 @@ class SphericalHarmonics {
         clear();
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
+            // the kernel has no content above its own bands
+            const T k = l < b ? zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1)) : 0;
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= k;
             }
         }
     }
-- 
2.43.0


From f73c5c3240c7ba16e94a8ff2095ecb3806d89668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 093/116] fix: ZonalHarmonics made from SphericalHarmonics had
 a NaN band and wrong scales

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index cbbec49..cc0c19f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -616,7 +616,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
-- 
2.43.0


From c85e4aa9165d2e2034392d7224d2b8ca169a0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 094/116] fix: ZonalHarmonics::dot read past the bands of the
 shorter operand

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index cc0c19f..5b275d4 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -662,7 +662,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From 38cfec58f2531a08c8a47a2f3a5ff0b4926411fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 095/116] fix: a failed assignment changed the band count of a
 harmonics object but not its coefficients

---
 geomc/function/SphericalHarmonics.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 5b275d4..ca822d8 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -152,11 +152,14 @@ inline T spherical_harmonic_coeff(index_t l, index_t m, T cos_alt, T azi) {
  */
 template <typename T, index_t Bands>
 class SphericalHarmonics {
-    protected:
-    typename Dimension<Bands>::storage_t n_bands;
     public:
     /// Coefficient vector.
+    // (declared before `n_bands`, so that an assignment whose allocation
+    // fails leaves the band count alone)
     UniqueStorage<T,Bands*Bands> coeffs;
+    protected:
+    typename Dimension<Bands>::storage_t n_bands;
+    public:
     
     /**
      * Construct a new SphericalHarmonics. 
@@ -579,11 +582,14 @@ class SphericalHarmonics {
  */
 template <typename T, index_t Bands>
 class ZonalHarmonics {
-    protected:
-    typename Dimension<Bands>::storage_t n_bands;
     public:
     /// Coefficient vector.
+    // (declared before `n_bands`, so that an assignment whose allocation
+    // fails leaves the band count alone)
     UniqueStorage<T,Bands> coeffs;
+    protected:
+    typename Dimension<Bands>::storage_t n_bands;
+    public:
     
     /**
      * Construct a new ZonalHarmonics.
-- 
2.43.0


From 8efa7e9f6185f2bb58fcf5c1bbdd4560675e339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 096/116] fix: SphericalHarmonics::normalize did not make the
 integral 1

---
 geomc/function/SphericalHarmonics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index ca822d8..d0b4634 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -290,9 +290,10 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        // the integral of the constant basis function is sqrt(4 * pi)
+        T nh = coeffs[0] * std::sqrt(4 * boost::math::constants::pi<T>());
         if (nh == 0) return;
-        for (index_t i = 1; i < size(); i++) {
+        for (index_t i = 0; i < size(); i++) {
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From a365103469a2dbc98fb5f3b3f1c8d8f567e63922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 097/116] fix: adding a constant to a SphericalHarmonics added
 another constant

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index d0b4634..aa3c25a 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -532,7 +532,8 @@ class SphericalHarmonics {
      * @param k Bias.
      */
     SphericalHarmonics<T,Bands>& operator+=(T k) {
-        coeffs[0] += k;
+        // the constant basis function has the value 1 / sqrt(4 * pi)
+        coeffs[0] += k * std::sqrt(4 * boost::math::constants::pi<T>());
         return *this;
     }
     
-- 
2.43.0


From d1e6a093357e89c47af35509bf0d849a32c52a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 098/116] fix: ZonalHarmonics::generate_lambertian(1) filled
 two bands

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index aa3c25a..b253eda 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -694,7 +694,7 @@ class ZonalHarmonics {
         clear();
         T fac = 1;
         coeffs[0] = 0.25;
-        if (bands() > 1) {
+        if (ct > 1) {
             coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
-- 
2.43.0


From 684087aae707feb7bd4f38fab6264582eb328a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 099/116] fix: ZonalHarmonics::project used a wrong recurrence,
 and wrote each band into the one below

---
 geomc/function/SphericalHarmonics.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index b253eda..0f76004 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -771,11 +771,12 @@ class ZonalHarmonics {
         if (bands() > 1) coeffs[1] = x * val;
         T p_0 = 1;
         T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        for (index_t i = 1; i < bands() - 1; i++) {
+            // P(i + 1, x):
+            T p_i = ((2 * i + 1) * x * p_1 - i * p_0) / ((T)i + 1);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
+            coeffs[i + 1] = val * p_i;
         }
     }
     
-- 
2.43.0


From 119df5ba6d4e277f9fb043129986ff467b953d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 100/116] fix: ZonalHarmonics::convolve read past the bands of
 a shorter kernel

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 0f76004..22e8f1f 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -787,7 +787,8 @@ class ZonalHarmonics {
     void convolve(const ZonalHarmonics<T,Bands> &kernel) {
         for (index_t l = 0; l < bands(); l++) {
             T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
-            coeffs[l] *= k * kernel.coeffs[l];
+            // (a kernel of dynamic size may have fewer bands)
+            coeffs[l] *= l < kernel.bands() ? k * kernel.coeffs[l] : 0;
         }
     }
     
-- 
2.43.0


From f6462b97f15698fb3c1b4a5c50c43ea68ddb2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 101/116] fix: ZonalHarmonics::diffuse turned bands without
 content into NaN

---
 geomc/function/SphericalHarmonics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 22e8f1f..94024a1 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -19,6 +19,8 @@ namespace detail {
     
     template <typename T>
     inline T cpow(const T& a, const T& b) {
+        // (the logarithm of zero would give NaN)
+        if (a == 0) return b == 0 ? 1 : 0;
         return std::pow(std::complex<T>(a), std::complex<T>(b)).real();
     }
     
-- 
2.43.0


From fbc9c11757256595a43cac960a53ca81cbf2c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 102/116] fix: ZonalHarmonics::normalize scaled by band 1,
 which may not exist, instead of by the integral

---
 geomc/function/SphericalHarmonics.h | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 94024a1..6b566ae 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -817,25 +817,12 @@ class ZonalHarmonics {
     /**
      * Ensure the integral over the entire sphere is 1. 
      * If the integral is currently 0, no change will be made.
-     */ /*
-    void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>());
-        T nh = coeffs[0] * k;
-        if (nh == 0) return;
-        coeffs[0] = 1 / k;
-        for (index_t i = 1; i < bands(); i++) {
-            coeffs[i] /= nh;
-        }
-    }*/
-    
-    // xxx debug
+     */
     void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>() / 3);
-        T nh = coeffs[1] * k;
+        // only band 0 has an integral: its value, over the area 4 * pi
+        T nh = coeffs[0] * 4 * boost::math::constants::pi<T>();
         if (nh == 0) return;
-        coeffs[1] = 1 / k;
         for (index_t i = 0; i < bands(); i++) {
-            if ( i == 1) continue;
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From 4fd5573b32940b39c56158e28e221304335cdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 103/116] fix: the hash of a Simplex could not be instantiated

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index b808b49..edf38fb 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array<Vec<T,N>,H>(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 09c5f77c19281f44023b05ef65283fa2d0ed992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 104/116] fix: equal dual numbers hashed differently

---
 geomc/function/functiondetail/DualFunctions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..920ee60 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -253,10 +253,8 @@ constexpr Dual<T,Dp> operator-(const Dual<T,Dp>& d) {
 template <typename T, DiscontinuityPolicy Dp, typename H>
 struct Digest<Dual<T,Dp>, H> {
     H operator()(const Dual<T,Dp>& d) const {
-        return hash_combine<H>(
-            geom::hash<T,H>(d.x),
-            geom::hash<T,H>(d.dx)
-        );
+        // (equality compares the primal component only)
+        return geom::hash<T,H>(d.x);
     }
 };
 
-- 
2.43.0


From be20cf638d6056aacdac4ea4fbe8d4ea601534c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 105/116] fix: constant dual numbers could not be compared

---
 geomc/function/functiondetail/DualImpl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..37a048b 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From 67495762f89f78c7e733d3e2535b2db9ee4c4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 106/116] fix: Rects sharing only boundary points did not
 intersect

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..0d95571 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -626,8 +626,8 @@ public:
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
             // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            if (ptype::iterator(hi)[axis]     < ptype::iterator(box.lo)[axis] or
+                ptype::iterator(box.hi)[axis] < ptype::iterator(lo)[axis]) {
                 return false;
             }
         }
-- 
2.43.0


From 849d651ea3bd48a15b610deb06e058d23f6750f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 107/116] fix: Rect::abs could not be instantiated

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 0d95571..f22c2db 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -723,8 +723,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 29c6a6ddb4740f7a6b57f6f2da950b8054c18d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 108/116] fix: the union of a constant Rect and a point did not
 compile

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f22c2db..6d36a04 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -300,7 +300,7 @@ public:
      *
      * @return A Rect fully containing `this` and the point `p`.
      */
-    Rect<T,N> operator|(const point_t& p) {
+    Rect<T,N> operator|(const point_t& p) const {
         // point union
         return Rect<T,N>(
             std::min(lo, p),
-- 
2.43.0


From 03f6ac1d9c7b578bba83e7fa3046edab11ce6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 109/116] fix: slices of a Rect could not be instantiated

---
 geomc/shape/Rect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 6d36a04..ab4a71b 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -265,8 +265,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From 36c7e1ddaff119625f1f8813b01b1f2e9c1c41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 110/116] fix: the volume of the empty integer Rect was not
 zero

---
 geomc/shape/Rect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index ab4a71b..272b4a3 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -798,6 +798,7 @@ public:
      * @return The volume of this region.
      */
     T volume() const {
+        if (is_empty()) return 0;
         T vol = 1;
         point_t dim = dimensions();
         for (index_t axis = 0; axis < N; axis++) {
-- 
2.43.0


From 6c1973b0409d8309d555f8851ab2478b78c1b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 111/116] fix: Rect::contact_vector truncated distances to
 integers

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 272b4a3..99e10b0 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -912,8 +912,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From 0a4804eb9c3aca8a728025652fe210b064b659db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 112/116] fix: Rect::project and sdf went to a corner instead
 of the nearest surface point

---
 geomc/shape/Rect.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 99e10b0..7013448 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -849,15 +849,25 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        if (not contains(p)) return clip(p);
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        // p is inside; move it to the closest face
+        index_t axis = 0;
+        T dist = std::numeric_limits<T>::max();
+        T face = p_i[0];
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            T d    = std::min(d_lo, d_hi);
+            if (d < dist) {
+                dist = d;
+                axis = i;
+                face = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            }
         }
+        p_i[axis] = face;
         return p;
     }
 
@@ -866,7 +876,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(p - project(p));
     }
 
     /**
-- 
2.43.0


From fe0d6f2eaa33f18535d90dec2e8dbcffc3716abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 113/116] fix: scaling an empty Rect made it full

---
 geomc/shape/Rect.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 7013448..1ea9152 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -480,13 +480,14 @@ public:
      * @return A new Rect, scaled about the origin by factor `a`.
      */
     Rect<T,N> operator*(point_t a) const {
-        // a sign change can swap lo and hi for any coordinate.
-        // we have to do max and min again after the multiply:
-        point_t lo_a = lo * a;
-        point_t hi_a = hi * a;
-        return Rect<T,N>(
-            std::min(lo_a, hi_a),
-            std::max(lo_a, hi_a));
+        Rect<T,N> r(lo * a, hi * a);
+        // a sign change swaps lo and hi
+        for (index_t axis = 0; axis < N; ++axis) {
+            if (ptype::iterator(a)[axis] < 0) {
+                std::swap(ptype::iterator(r.lo)[axis], ptype::iterator(r.hi)[axis]);
+            }
+        }
+        return r;
     }
 
     /**
@@ -498,10 +499,7 @@ public:
      * @return A reference to `this`, for convenience.
      */
     Rect<T,N>& operator*=(point_t a) {
-        point_t lo_a = lo * a;
-        point_t hi_a = hi * a;
-        lo = std::min(lo_a, hi_a);
-        hi = std::max(lo_a, hi_a);
+        *this = (*this) * a;
         return *this;
     }
 
@@ -512,12 +510,14 @@ public:
      * @return A new Rect, scaled about the origin by multiple `1 / a`.
      */
     Rect<T,N> operator/(point_t a) const {
-        auto lo_a = lo / a;
-        auto hi_a = hi / a;
-        return {
-            std::min(lo_a, hi_a),
-            std::max(lo_a, hi_a)
-        };
+        Rect<T,N> r(lo / a, hi / a);
+        // a sign change swaps lo and hi
+        for (index_t axis = 0; axis < N; ++axis) {
+            if (ptype::iterator(a)[axis] < 0) {
+                std::swap(ptype::iterator(r.lo)[axis], ptype::iterator(r.hi)[axis]);
+            }
+        }
+        return r;
     }
 
     /**
-- 
2.43.0


From 10110b9e1afd5ece9455d6521af2a391b5470fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 114/116] fix: the center of an integer Rect depended on the
 sign of its coordinates

---
 geomc/shape/Rect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 1ea9152..ecb2b3f 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -653,7 +653,12 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        if constexpr (std::is_integral<T>::value) {
+            // (the sum may be negative, and would round in the other direction)
+            return lo + dimensions() / 2;
+        } else {
+            return (hi + lo) / 2;
+        }
     }
 
     /**
-- 
2.43.0


From 0cc6874383f6202681e95cc7afb6481378c3dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 115/116] fix: empty Rects intersected others

---
 geomc/shape/Rect.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index ecb2b3f..f291224 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -626,8 +626,9 @@ public:
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
             // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     < ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] < ptype::iterator(lo)[axis]) {
+            T lo_i = std::max(ptype::iterator(lo)[axis], ptype::iterator(box.lo)[axis]);
+            T hi_i = std::min(ptype::iterator(hi)[axis], ptype::iterator(box.hi)[axis]);
+            if (hi_i < lo_i) {
                 return false;
             }
         }
-- 
2.43.0


From 1ff4cd4e1e0876dcf43878be085b017e08fbee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 116/116] fix: a Rect did not contain some empty Rects

---
 geomc/shape/Rect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f291224..a56ecdc 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -598,6 +598,7 @@ public:
      * `this`.
      */
     bool contains(const Rect<T,N>& box) const {
+        if (box.is_empty()) return true;
         for (index_t axis = 0; axis < N; axis++) {
             // inner box must not protrude along any axis
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
-- 
2.43.0

