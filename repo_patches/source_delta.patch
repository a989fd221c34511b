From cbaa3bfa9e062b4a273a0952694b32366e3e6f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 01/48] fix: growing hash table loses insertions that overlap a
 migration

An insertion that passed the epoch check could still write into a slot of
the old table after that slot had been migrated; late helpers could also
publish an unfilled table, and the shared table pointer was read while it
was being replaced.
---
 include/datastructures/Growing_LP.hxx | 72 +++++++++++++++++----------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..6221811 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -23,7 +23,7 @@ public:
 
     template<typename... Args>
     GrowingHashTable(Args... args)
-            : g_epoch_r(0), g_epoch_w(0), helperThreads(0) {
+            : g_epoch_r(0), g_epoch_w(0), helperThreads(0), activeInserts(0) {
         g_table_r = std::make_shared<HT>(std::forward<Args>(args)...);
         g_table_w = g_table_r;
     }
@@ -35,7 +35,8 @@ public:
               g_table_r(other.g_table_r),
               g_epoch_w(other.g_epoch_w.load()),
               g_table_w(other.g_table_w),
-              helperThreads(0) { }
+              helperThreads(0),
+              activeInserts(0) { }
 
     ~GrowingHashTable() = default;
 
@@ -45,6 +46,7 @@ public:
         g_epoch_w.store(other.g_epoch_w.load());
         g_table_w = other.g_table_w;
         helperThreads.store(0);
+        activeInserts.store(0);
 
         return *this;
     }
@@ -72,7 +74,8 @@ private:
     }
 
     std::atomic_uint helperThreads;
-    std::mutex grow_mutex;
+    std::atomic_uint activeInserts; // insertions currently writing to the table in R-position
+    mutable std::mutex grow_mutex;  // protects both table pointers
 
 };
 
@@ -180,12 +183,9 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
+        std::lock_guard<std::mutex> lock(parent.grow_mutex);
         l_table = parent.g_table_r;
-
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+        l_epoch = l_table->m_version;
     }
 
 private:
@@ -215,19 +215,21 @@ public:
 
     template<typename... Args>
     InsertReturn insert(Args... args) {
-        uint t_epoch = parent.g_epoch_w.load();
-        if (t_epoch > l_epoch) {
-            getTable();
-            if (t_epoch > l_epoch) {
-                grow();
+        for (;;) {
+            {
+                // announce the insertion before looking at the epoch: a migration starts only
+                // after all insertions that could still write to the old table are done
+                ActiveInsert guard(parent.activeInserts);
+
+                if (parent.g_epoch_w.load() <= l_epoch) {
+                    auto result = l_table->insert(args...);
+                    if (!(result == InsertReturn::State::Full))
+                        return result;
+                }
             }
-        }
-        auto result = l_table->insert(args...);
-        if (result == InsertReturn::State::Full) {
+
             grow();
-            return insert(args...);
-        } else
-            return result;
+        }
     }
 
     template<typename... Args>
@@ -337,12 +339,9 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
+        std::lock_guard<std::mutex> lock(parent.grow_mutex);
         l_table = parent.g_table_r;
-
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+        l_epoch = l_table->m_version;
     }
 
     void grow() {
@@ -354,6 +353,12 @@ private:
         HashPtr w_table;
         { //should be atomic
             std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            if (parent.g_table_r->m_version > l_table->m_version) {
+                //our table has already been replaced, there is nothing to migrate
+                l_table = parent.g_table_r;
+                l_epoch = l_table->m_version;
+                return;
+            }
             if (parent.g_table_w->m_version == l_table->m_version) {
                 auto temp = std::make_shared<HT>(l_table->capacity() << 1,
                                                  l_table->m_version + 1);
@@ -366,6 +371,10 @@ private:
         auto t_epoch = l_table->m_version;
         parent.g_epoch_w.compare_exchange_strong(t_epoch, w_table->m_version);
 
+        //wait for insertions still writing to the old table
+        while (parent.activeInserts.load())
+        {};
+
         //nhelper ++
         parent.helperThreads.fetch_add(1);
 
@@ -394,17 +403,26 @@ private:
             if (parent.g_table_r->m_version < w_table->m_version) {
                 parent.g_table_r = w_table;
             }
+
+            //CAS epoch_r up
+            t_epoch = l_table->m_version;
+            parent.g_epoch_r.compare_exchange_strong(t_epoch, w_table->m_version);
         }
 
-        //CAS epoch_r up
-        t_epoch = l_table->m_version;
-        parent.g_epoch_r.compare_exchange_strong(t_epoch, w_table->m_version);
         getTable();
     }
 
 private:
     using HashPtr = std::shared_ptr<HT>;
 
+    struct ActiveInsert {
+        explicit ActiveInsert(std::atomic_uint &count_) : count(count_) { count.fetch_add(1); }
+
+        ~ActiveInsert() { count.fetch_sub(1); }
+
+        std::atomic_uint &count;
+    };
+
     GrowingHashTable<HT> &parent;
     mutable uint l_epoch;
     mutable HashPtr l_table;
-- 
2.43.0


From 10d4e1761b43d0f657ba5aa4532b9fea7c701ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 02/48] fix: probing a completely filled concurrent hash set or
 map never ends

Concurrent insertions can fill every slot between the load check and the
insertion; looking up an absent key, or inserting another one, then looped
for ever. The maps' load check used an integer division, and a key was
visible before its (uninitialised) value.
---
 include/datastructures/LP_Map.hxx | 13 +++++++++----
 include/datastructures/LP_Set.hxx | 10 +++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..8d6d056 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
@@ -296,7 +296,8 @@ public:
         if (m_items.load() >= m_arraySize >> 1)
             return InsertReturn::State::Full;
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        for (std::size_t probes = 0; probes < m_arraySize; ++probes, ++idx) {
             idx &= m_arraySize - 1;
             ASSERT(idx < m_arraySize);
 
@@ -326,6 +327,8 @@ public:
                     continue; // another thread inserted a different key in this position
             }
         }
+
+        return InsertReturn::State::Full; // concurrent insertions filled the table
     }
 
     InsertReturn insert(const std::pair<K, V> &pair) {
@@ -334,7 +337,8 @@ public:
 
     V get(const K &key) const {
         ASSERT(key != 0);
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        for (std::size_t probes = 0; probes < m_arraySize; ++probes, ++idx) {
             idx &= m_arraySize - 1;
             K probedKey = m_keys[idx].load();
             if (probedKey == key)
@@ -343,6 +347,7 @@ public:
                 return 0;
         }
 
+        return 0; // the table is full and does not contain the key
     }
 
     bool contains(const K &key) const {
@@ -432,7 +437,7 @@ private:
 
     inline void _allocate(const std::size_t size) {
         m_keys.reset(new std::atomic<K>[size]()); // zero init
-        m_values.reset(new std::atomic<V>[size]); // random init
+        m_values.reset(new std::atomic<V>[size]()); // zero init, readers may see a key before its value
     }
 
 public:
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..ba923bb 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -332,7 +332,8 @@ public:
     bool contains(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        for (std::size_t probes = 0; probes < m_arraySize; ++probes, ++idx) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx];
             if (probedKey == key)
@@ -341,6 +342,7 @@ public:
                 return false;
         }
 
+        return false; // the table is full and does not contain the key
     }
 
     std::size_t count(const K &key) const {
@@ -580,7 +582,7 @@ public:
         K cols = 0;
         for (K idx = m_hasher(key); ; idx++) {
 
-            if (Growing && cols > c_growThreshold) {
+            if ((Growing && cols > c_growThreshold) || cols >= m_arraySize) {
                 return InsertReturn::State::Full;
             }
 
@@ -620,7 +622,8 @@ public:
     K get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        for (std::size_t probes = 0; probes < m_arraySize; ++probes, ++idx) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx].load();
             if (probedKey == key)
@@ -629,6 +632,7 @@ public:
                 return 0;
         }
 
+        return 0; // the table is full and does not contain the key
     }
 
     bool contains(const K &key) const {
-- 
2.43.0


From eaf50e95e4c23f4936bd6b765522b97e6b01d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 03/48] fix: multimap lookups in full or tiny tables

Concurrent insertions could fill every slot, a chain of capacity-1 entries
was returned as an empty range, values were read uninitialised, the load
check used an integer division and unsafe_copy compared capacity with size.
---
 include/datastructures/LP_MultiMap.hxx | 29 ++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..7f212cb 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -403,9 +403,12 @@ public:
     InsertReturn insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-
-        if (m_items.load() >= m_arraySize >> 1)
-            return InsertReturn::State::Full;
+        // reserve the slot before probing, so that concurrent insertions cannot fill up the table
+        std::size_t items = m_items.load();
+        do {
+            if (items >= m_arraySize >> 1)
+                return InsertReturn::State::Full;
+        } while (!m_items.compare_exchange_weak(items, items + 1));
 
         std::size_t cols = 0; //count number of steps
         for (K idx = m_hasher(key); ; idx++) {
@@ -429,7 +432,6 @@ public:
             bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
             if (cas) {
                 m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                ++m_items;
                 return true; // we just added the key to the set
             } else {
                 cols += prevKey != key;
@@ -464,13 +466,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -524,12 +526,13 @@ public:
 
     template<class Source>
     void unsafe_copy(const Source &other) {
-        ASSERT(m_arraySize == other.size());
+        ASSERT(m_arraySize == other.capacity());
         for (std::size_t i = 0; i < m_arraySize; ++i) {
             auto pair = other.at(i);
             m_keys[i] = pair.first;
             m_values[i] = pair.second;
         }
+        m_items.store(other.size());
     }
 
     template<class Source, class Filter>
@@ -593,7 +596,7 @@ public:
 
     inline void _allocate(const std::size_t size) {
         m_keys.reset(new std::atomic<K>[size]()); // zero init
-        m_values.reset(new std::atomic<V>[size]); // random init
+        m_values.reset(new std::atomic<V>[size]()); // zero init, readers may see a key before its value
     }
 
 private:
-- 
2.43.0


From 3a997312226b6a7b6b4cc0e44746176d2ce04cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 04/48] fix: merging two empty hash tables leaves a table
 without any slot

---
 include/datastructures/LP_MultiMap.hxx | 2 +-
 include/datastructures/LP_Set.hxx      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 7f212cb..56a4586 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -542,7 +542,7 @@ public:
         std::size_t oldSize = m_arraySize;
 
         std::size_t combinedItems = size() + other.size();
-        std::size_t newSize = nextPow2(combinedItems);
+        std::size_t newSize = nextPow2(std::max(std::size_t(1), combinedItems));
 
         while (combinedItems > newSize >> 1)
             newSize <<= 1;
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index ba923bb..0f2bedd 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -668,7 +668,7 @@ public:
         std::size_t oldSize = m_arraySize;
 
         std::size_t combinedItems = size() + other.size();
-        std::size_t newSize = nextPow2(combinedItems);
+        std::size_t newSize = nextPow2(std::max(std::size_t(1), combinedItems));
 
         while (combinedItems > newSize >> 1)
             newSize <<= 1;
-- 
2.43.0


From 7740d2eb5acbc12b1a86e736fd8063d9bd0b67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 05/48] fix: concurrent block array exposes blocks that are not
 constructed yet; at() accepts the end index

---
 include/datastructures/BlockedArray.hxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..81283d0 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -3,6 +3,7 @@
 #include <vector>
 #include <memory>
 #include <atomic>
+#include <mutex>
 
 #include "utils/TBB_Containers.h"
 
@@ -41,13 +42,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -78,6 +79,13 @@ public:
 
     void reserve(const std::size_t &capacity) {
 
+        if (m_nBlocks.load() * BS >= capacity)
+            return;
+
+        // one thread grows at a time: m_nBlocks may only count blocks that, together
+        // with all their predecessors, are constructed
+        std::lock_guard<std::mutex> lock(m_growMutex);
+
         while (m_nBlocks.load() * BS < capacity) {
             m_blocks.emplace_back(new T[BS]);
             ++m_nBlocks;
@@ -93,13 +101,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -107,5 +115,6 @@ public:
 private:
     std::atomic<std::size_t> m_nBlocks;
     tbb::concurrent_vector<block_ptr> m_blocks;
+    std::mutex m_growMutex;
 
 };
\ No newline at end of file
-- 
2.43.0


From 86d8858609c059d1f186880fc2588a4e929699df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:17 +0000
Subject: [PATCH 06/48] fix: bit set batch updates destroy or miscount other
 bits; failed allocations are swallowed

---
 include/datastructures/Bit_Set.hxx | 43 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..cf79d25 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -168,7 +168,7 @@ public:
                 m_array.reset(new tKeyType[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
     }
 
@@ -225,28 +225,26 @@ public:
             std::cout << std::endl;
         };*/
 
+        if (from >= to)
+            return;
+
         std::size_t fromBlock = _block(from);
         std::size_t toBlock = _block(to - 1); // to not included
 
         //print("before");
 
-        // special case: first block
-        m_array[fromBlock] = (~(tKeyType) 0) << (from % cENTRIES);
-
-        //print("first ");
-
-        // middle block: all ones
-        for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
-            m_array[i] = (~(tKeyType) 0);
-
-        //print("middle");
+        for (std::size_t i = fromBlock; i <= toBlock; ++i) {
+            tKeyType mask = ~(tKeyType) 0; // middle block: all ones
 
-        // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
-                           (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
+            if (i == fromBlock) // special case: first block
+                mask &= (~(tKeyType) 0) << (from % cENTRIES);
 
-        m_ones = to - from;
+            if (i == toBlock) // special case: last block
+                mask &= (~(tKeyType) 0) >> (cENTRIES - 1 - ((to - 1) % cENTRIES));
 
+            m_ones += popcount(mask & ~m_array[i]);
+            m_array[i] |= mask;
+        }
 
         //print("after ");
     }
@@ -295,7 +293,7 @@ public:
             m_array.reset(new tKeyType[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
 
         for (std::size_t i = 0; i < m_arraySize; ++i) {
@@ -325,7 +323,7 @@ public:
             m_array.reset(new tKeyType[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
 
         std::size_t i;
@@ -356,7 +354,7 @@ public:
             m_array.reset(new tKeyType[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
 
         m_ones = 0;
@@ -375,12 +373,11 @@ public:
     template<class BitSet>
     void filter(const BitSet &filter) {
 
-        m_ones = 0;
         for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
              i < std::min(m_upperBound, filter.m_upperBound);
              i += cENTRIES) {
+            m_ones -= popcount(m_array[_block(i)] & filter.m_array[filter._block(i)]);
             m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
-            m_ones += popcount(m_array[_block(i)]);
         }
     }
 
@@ -400,7 +397,7 @@ public:
             m_array.reset(new tKeyType[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
 
         m_ones = 0;
@@ -513,7 +510,7 @@ private:
             m_array.reset(new tKeyType[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
         ar >> boost::serialization::make_array<tKeyType>(m_array.get(), m_arraySize);
     }
@@ -546,7 +543,7 @@ public:
                 m_array.reset(new std::atomic<tKeyType>[m_arraySize]); //random init
         } catch (std::bad_alloc &e) {
             std::cerr << e.what() << std::endl;
-            ASSERT(SIGINT);
+            throw;
         }
     }
 
-- 
2.43.0


From 526025f7634e33e0a1135c49ca1b3c4a42eab956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 07/48] fix: concurrent increments of a profiling counter get
 lost

---
 include/utils/Timings.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 530411c..5e3bef4 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -90,7 +90,8 @@ public:
     tMeasurement avgMeasurement(const std::string &name) const;
 
     void incCounter(const std::string &name, const tMeasurement &value = 1) {
-        m_counters[name] += value;
+        // the counter map is concurrent, its values are not
+        __atomic_fetch_add(&m_counters[name], value, __ATOMIC_RELAXED);
     }
 
     const auto &counters() const {
-- 
2.43.0


From 78f793f5cb949931db4a30df5afa4f6759654c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 08/48] fix: increment of the progress display returns the
 count of somebody else

---
 include/utils/ProgressDisplay.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/ProgressDisplay.h b/include/utils/ProgressDisplay.h
index 504e9be..be2965d 100644
--- a/include/utils/ProgressDisplay.h
+++ b/include/utils/ProgressDisplay.h
@@ -55,9 +55,11 @@ public:
             display_tic();
         }
 
+        const unsigned long result = _count; // others may increment once the lock is released
+
         _mtx.clear(std::memory_order_release); // release lock
 
-        return _count;
+        return result;
     }
 
     unsigned long operator++() { return operator+=(1); }
-- 
2.43.0


From e4c1d818fd164d54c1c8f85349c36e27cd020383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 09/48] fix: measured durations are distorted by steps of the
 wall clock

---
 include/load_balancing/monitors/TimingMonitor.h | 2 +-
 include/utils/Timings.h                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/monitors/TimingMonitor.h b/include/load_balancing/monitors/TimingMonitor.h
index 77ab64d..8a9a7cc 100644
--- a/include/load_balancing/monitors/TimingMonitor.h
+++ b/include/load_balancing/monitors/TimingMonitor.h
@@ -39,7 +39,7 @@ namespace LoadBalancing
         static const std::string unitString;
         
     private:
-        using Clock = std::chrono::high_resolution_clock;
+        using Clock = std::chrono::steady_clock; // unaffected by adjustments of the wall clock
         TimingAccumulator* accumulator;
         std::chrono::time_point<Clock> partitionStart;
         std::chrono::time_point<Clock> triangulationStart;
diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 5e3bef4..8970a9a 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -18,7 +18,7 @@
 
 #include "utils/TBB_Containers.h"
 
-typedef std::chrono::high_resolution_clock Clock;
+typedef std::chrono::steady_clock Clock; // durations must not depend on adjustments of the wall clock
 typedef std::chrono::nanoseconds tDuration;
 
 class ExperimentRun {
-- 
2.43.0


From 724310212e0ffbca1ac23cc9a8580a5867314fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 10/48] fix: host name is read from an uninitialised or
 unterminated buffer when gethostname fails or truncates

---
 src/utils/System.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/System.cpp b/src/utils/System.cpp
index 099ce78..0f9f498 100644
--- a/src/utils/System.cpp
+++ b/src/utils/System.cpp
@@ -12,8 +12,10 @@ tGenerator startGen(START_SEED);
 
 
 std::string getHostname() {
-    char hostname[128];
-    gethostname(hostname, sizeof(hostname));
+    // neither failure nor truncation of gethostname guarantees a terminated string
+    char hostname[128] = {};
+    if (gethostname(hostname, sizeof(hostname) - 1) != 0)
+        return "";
     return std::string(hostname);
 }
 
-- 
2.43.0


From 9be3d9f6de6facdbb177f4814d8a3bdcfa9aff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:47 +0000
Subject: [PATCH 11/48] hook: base case cutoff of DCTriangulator can be set at
 compile time (PARDETRIA_SIM_BASE_CUTOFF)

---
 include/DCTriangulator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/DCTriangulator.h b/include/DCTriangulator.h
index f5d6cf2..abc4489 100644
--- a/include/DCTriangulator.h
+++ b/include/DCTriangulator.h
@@ -79,5 +79,9 @@ protected:
 
 public:
     static constexpr Precision SAFETY = 100;
+#ifdef PARDETRIA_SIM_BASE_CUTOFF // simulation only: recurse on small inputs
+    static constexpr uint BASE_CUTOFF = PARDETRIA_SIM_BASE_CUTOFF;
+#else
     static constexpr uint BASE_CUTOFF = 500;
+#endif
 };
-- 
2.43.0


From b0d8e55cd651403bbd0d0a78bd944d78be0a0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 12/48] fix: point statistics and loaded bounds are right for
 negative coordinates

---
 include/Geometry.h    | 2 +-
 include/Partitioner.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..8388ba5 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From cf7d35e7ef5c25386976cc69656cc45d67739314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 13/48] fix: crossCheck reports every missing simplex, not only
 the first of a range

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..981d78b 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -824,7 +824,7 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue;
             }
 
             // check neighbors
-- 
2.43.0


From 891ce7d89dfced455b51ac360e9469a2a40d954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 14/48] fix: verify reports duplicate simplices instead of
 failing an assertion on them

---
 src/lib/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 981d78b..07744b5 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -1069,6 +1069,10 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 for (auto it = range.first; it != range.second; ++it) {
 
                     const auto &b = thisHandle.at(it->second);
+
+                    if (a.id != b.id && a.equalVertices(b))
+                        continue; // already reported as duplicates
+
                     // a and b are neighbors: the neighbor property is symmetric and the
                     // corresponding simplices must be present in the neighbors arrays
                     // accordingly
-- 
2.43.0


From 08360e41f222f581e762f685b847ad9c9e61bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 15/48] fix: failing reads and writes of point files are
 reported

---
 include/Geometry.h              |  4 ++++
 include/utils/Serialization.hxx | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 8388ba5..a6a5ae9 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -17,6 +17,7 @@
 #include <cmath>
 #include <functional>
 #include <set>
+#include <stdexcept>
 
 #include <boost/dynamic_bitset.hpp>
 
@@ -291,6 +292,9 @@ public:
 
                 this->emplace_back(p);
             }
+
+            if(f.bad())
+                throw std::runtime_error("Error reading file " + file);
         } else {
             std::cerr << "File " << file << " not found" << std::endl;
         }
diff --git a/include/utils/Serialization.hxx b/include/utils/Serialization.hxx
index 8230d09..b325985 100644
--- a/include/utils/Serialization.hxx
+++ b/include/utils/Serialization.hxx
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 // boost
 #include <boost/archive/binary_iarchive.hpp>
@@ -16,8 +18,16 @@ template<class Object>
 void storeObject(Object &o, const std::string &file) {
 
     std::ofstream f(file, std::ios::trunc | std::ios::out | std::ios::binary);
-    boost::archive::binary_oarchive oa(f);
-    oa << o;
+    {
+        boost::archive::binary_oarchive oa(f);
+        oa << o;
+
+        f.flush(); // the archive's destructor flushes as well, but drops errors
+    }
+
+    f.close();
+    if (!f)
+        throw std::runtime_error("Error writing file " + file);
 }
 
 template<class Object>
-- 
2.43.0


From 7d9dc25d3ba89121bc2a67e538a545bac731e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 16/48] fix: points at infinity surround the data, wherever it
 lies

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0


From f12f59992156687718100b25a3fe113f850b48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 17/48] fix: circumsphere loses all precision far from the
 origin, triangulation fails there

---
 src/lib/Geometry.cpp | 385 +++++--------------------------------------
 1 file changed, 42 insertions(+), 343 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 07744b5..fce6422 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -191,47 +191,21 @@ public:
 
         dSphere<2, Precision> sphere;
 
-        Precision den = 2 * (s0.coords[0] *
-                             (s1.coords[1] -
-                              s2.coords[1]) +
-                             s1.coords[0] *
-                             (s2.coords[1] -
-                              s0.coords[1]) +
-                             s2.coords[0] *
-                             (s0.coords[1] -
-                              s1.coords[1]));
-
-        sphere.center[0] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s1.coords[1] -
-                             s2.coords[1]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s2.coords[1] -
-                             s0.coords[1]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s0.coords[1] -
-                             s1.coords[1])) /
-                           den;
-
-        sphere.center[1] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s2.coords[0] -
-                             s1.coords[0]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s0.coords[0] -
-                             s2.coords[0]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s1.coords[0] -
-                             s0.coords[0])) /
-                           den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2));
+        // relative to s0, as squares of absolute coordinates lose all precision far from the origin
+        const Precision ax = s1.coords[0] - s0.coords[0], ay = s1.coords[1] - s0.coords[1];
+        const Precision bx = s2.coords[0] - s0.coords[0], by = s2.coords[1] - s0.coords[1];
+
+        const Precision a2 = ax * ax + ay * ay;
+        const Precision b2 = bx * bx + by * by;
+
+        const Precision den = 2 * (ax * by - ay * bx);
+
+        const Precision ux = (by * a2 - ay * b2) / den;
+        const Precision uy = (ax * b2 - bx * a2) / den;
+
+        sphere.center[0] = s0.coords[0] + ux;
+        sphere.center[1] = s0.coords[1] + uy;
+        sphere.radius = sqrt(ux * ux + uy * uy);
 
         return sphere;
     }
@@ -414,308 +388,33 @@ public:
 
         dSphere<3, Precision> sphere;
 
-        Precision den = 2 * (s0.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] +
-                              s1.coords[1] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[1] *
-                              s2.coords[2] -
-                              (s2.coords[1] -
-                               s3.coords[1]) *
-                              s1.coords[2]) -
-                             s1.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] -
-                              s3.coords[1] *
-                              s2.coords[2]) -
-                             s0.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] +
-                              s1.coords[0] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[0] *
-                              s2.coords[2] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[2]) +
-                             s1.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] -
-                              s3.coords[0] *
-                              s2.coords[2]) +
-                             s0.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] +
-                              s1.coords[0] *
-                              (s2.coords[1] -
-                               s3.coords[1]) -
-                              s3.coords[0] *
-                              s2.coords[1] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[1]) -
-                             s1.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] -
-                              s3.coords[0] *
-                              s2.coords[1]));
-
-        sphere.center[0] =
-                (-s0.coords[1] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) +
-                 s1.coords[1] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[2] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[2] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] +
-                  s1.coords[1] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[1] *
-                  s2.coords[2] -
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  s1.coords[2]) -
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] -
-                  s3.coords[1] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[1] =
-                (s0.coords[0] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) -
-                 s1.coords[0] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 s0.coords[2] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[2] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] +
-                  s1.coords[0] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[0] *
-                  s2.coords[2] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[2]) +
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] -
-                  s3.coords[0] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[2] =
-                (-s0.coords[0] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[0] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[1] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[1] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (s2.coords[0] *
-                  s3.coords[1] -
-                  s3.coords[0] *
-                  s2.coords[1]) *
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) +
-                 (s2.coords[0] *
-                  s3.coords[1] +
-                  s1.coords[0] *
-                  (s2.coords[1] -
-                   s3.coords[1]) -
-                  s3.coords[0] *
-                  s2.coords[1] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[1]) *
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2))) /
-                den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2) +
-                     pow(sphere.center[2] - s0.coords[2], 2));
+        // relative to s0, as squares of absolute coordinates lose all precision far from the origin
+        Precision a[3], b[3], c[3];
+        for (uint d = 0; d < 3; ++d) {
+            a[d] = s1.coords[d] - s0.coords[d];
+            b[d] = s2.coords[d] - s0.coords[d];
+            c[d] = s3.coords[d] - s0.coords[d];
+        }
+
+        const Precision a2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
+        const Precision b2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2];
+        const Precision c2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
+
+        const Precision den = 2 * (a[0] * (b[1] * c[2] - b[2] * c[1]) +
+                                   a[1] * (b[2] * c[0] - b[0] * c[2]) +
+                                   a[2] * (b[0] * c[1] - b[1] * c[0]));
+
+        Precision r2 = 0;
+        for (uint d = 0; d < 3; ++d) {
+            const uint e = (d + 1) % 3, f = (d + 2) % 3;
+            const Precision u = (a2 * (b[e] * c[f] - b[f] * c[e]) +
+                                 b2 * (c[e] * a[f] - c[f] * a[e]) +
+                                 c2 * (a[e] * b[f] - a[f] * b[e])) / den;
+
+            sphere.center[d] = s0.coords[d] + u;
+            r2 += u * u;
+        }
+        sphere.radius = sqrt(r2);
 
         return sphere;
     }
-- 
2.43.0


From 7fc36144a724d5a9d12849d1bbc0664f53bf41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 18/48] fix: verify detects links to simplices that share no
 face

---
 src/lib/Geometry.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index fce6422..793bca8 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -795,6 +795,23 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                     }
                 }
             }
+
+            // no link may lead to a simplex that does not share a face with a
+            for (const auto &n : a.neighbors) {
+                if (!dSimplex<D, Precision>::isFinite(n))
+                    continue;
+
+                if (!thisHandle.contains(n)) {
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Neighbor " << n << " of " << a << " does not exist" << std::endl);
+                    result.valid = false;
+                } else if (thisHandle.at(n).countSharedVertices(a) != D) {
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor relation between " << a << " and " << thisHandle.at(n) << std::endl);
+                    result.wrongNeighbors.emplace_back(a, thisHandle.at(n));
+                    result.valid = false;
+                }
+            }
         }
     });
 
@@ -810,7 +827,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
                     continue;
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
-- 
2.43.0


From cf3b23cc727d58ae76408eaa9b1b40458e8dd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 19/48] fix: memory shortage while triangulating writes to a
 destroyed index handler or terminates

The handler was destroyed before the cells and faces that return their ids to
it when they are unwound; returning an id may need memory, in a destructor.
---
 .../Indexed_Triangulation_data_structure_2.h  |  2 +-
 .../Indexed_Triangulation_data_structure_3.h  |  2 +-
 include/utils/IndexHandler.h                  | 19 +++++++++++++++----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/mods/Indexed_Triangulation_data_structure_2.h b/include/mods/Indexed_Triangulation_data_structure_2.h
index 1616051..2b4df8f 100644
--- a/include/mods/Indexed_Triangulation_data_structure_2.h
+++ b/include/mods/Indexed_Triangulation_data_structure_2.h
@@ -110,9 +110,9 @@ namespace CGAL {
 
     protected:
         int _dimension;
+        Ih _indexHandler; // used by the destructors of the faces, must outlive them
         Face_range _faces;
         Vertex_range _vertices;
-        Ih _indexHandler;
 
         //CREATORS - DESTRUCTORS
     public:
diff --git a/include/mods/Indexed_Triangulation_data_structure_3.h b/include/mods/Indexed_Triangulation_data_structure_3.h
index 971ee07..ff22cb6 100644
--- a/include/mods/Indexed_Triangulation_data_structure_3.h
+++ b/include/mods/Indexed_Triangulation_data_structure_3.h
@@ -1391,9 +1391,9 @@ namespace CGAL {
         // ( the boundary of a simplex in dimension i+1 has i+2 vertices )
         int _dimension;
 
+        Ih _indexHandler; // used by the destructors of the cells, must outlive them
         Cell_range _cells;
         Vertex_range _vertices;
-        Ih _indexHandler;
 
         // used by is-valid :
         bool count_vertices(size_type &i, bool verbose = false, int level = 0) const;
diff --git a/include/utils/IndexHandler.h b/include/utils/IndexHandler.h
index 3045e9c..d9bd701 100644
--- a/include/utils/IndexHandler.h
+++ b/include/utils/IndexHandler.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <atomic>
+#include <new>
 #include <queue>
 #include <tbb/concurrent_queue.h>
 
@@ -23,8 +24,13 @@ namespace _detail {
         }
 
         void releaseId(const tIdType & id) const { //needs to be const because of CGAL::Compact_container
-            if(m_enabled)
-                m_freeIds.push(id);
+            if(m_enabled) {
+                try {
+                    m_freeIds.push(id);
+                } catch (const std::bad_alloc &) {
+                    // called from destructors, must not throw: the id is just not reused
+                }
+            }
         }
 
         tIdType maxId() const {
@@ -58,8 +64,13 @@ namespace _detail {
         }
 
         void releaseId(const tIdType & id) const { //needs to be const because of CGAL::Compact_container
-            if(m_enabled)
-                m_freeIds.push(id);
+            if(m_enabled) {
+                try {
+                    m_freeIds.push(id);
+                } catch (const std::bad_alloc &) {
+                    // called from destructors, must not throw: the id is just not reused
+                }
+            }
         }
 
         tIdType maxId() const {
-- 
2.43.0


From a0e477689d89e2f5ed8d76df28e8a76c3cd94bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:04 +0000
Subject: [PATCH 20/48] fix: hash tables created with capacity 0 never
 terminate an insertion

A capacity of 0 (an empty partition, an empty edge) left the table without any
cell; the growing variants doubled 0 forever and LP_MultiMap, which the merge
sizes by the number of edge simplices, looped as well. Allocate at least one
cell, as LP_Set already does.
---
 include/datastructures/LP_Map.hxx      | 4 ++--
 include/datastructures/LP_MultiMap.hxx | 4 ++--
 include/datastructures/LP_Set.hxx      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8d6d056..5f7052b 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -18,7 +18,7 @@ public:
               m_keys(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
         ALLOCATE(m_arraySize);
     }
 
@@ -261,7 +261,7 @@ public:
               m_hasher(hasher),
               m_currentCopyBlock(0) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
         ALLOCATE(m_arraySize);
     }
 
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 56a4586..8b69aba 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -102,7 +102,7 @@ public:
               m_keys(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
 
         ALLOCATE(m_arraySize);
     }
@@ -369,7 +369,7 @@ public:
               m_hasher(hasher),
               m_currentCopyBlock(0) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
 
         ALLOCATE(m_arraySize);
 
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 0f2bedd..23e74a4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -540,7 +540,7 @@ public:
               m_hasher(hasher),
               m_currentCopyBlock(0) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
         ALLOCATE(m_arraySize);
     }
 
-- 
2.43.0


From 29e08f3bf83bcd74707786e88e4ae665e5fee04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:29 +0000
Subject: [PATCH 21/48] fix: load balanced triangulation keeps simplices of
 empty parts

A part without finite points (clustered data, a sampled centre nobody is close
to) was triangulated from the infinite points alone. Its box is not set, so no
border was found towards it and its simplices stayed in the merged result.
Leave such parts out.
---
 include/LoadBalancedDCTriangulator.tpp | 14 ++++++++++++++
 include/load_balancing/PartitionTree.h | 13 +++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 9adb3b8..0e4a0c0 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -579,6 +579,20 @@ namespace LoadBalancing
         LOG("triangulateDAC called on level " << provenance << " with "
             << "unknown number of" << " points" << std::endl);
 
+        auto children = std::get_if<typename PartitionTree<D, Precision>::ChildContainer>(&tree.attachment);
+        if (children && !tree.isEmpty()) {
+            // a part without finite points has no borders that could be detected, its simplices between
+            // the infinite points would end up in the result
+            children->erase(std::remove_if(children->begin(), children->end(),
+                                           [](const PartitionTree<D, Precision>& child) { return child.isEmpty(); }),
+                            children->end());
+
+            if (children->size() == 1) {
+                auto child = std::move(children->front());
+                return recursiveTriangulate(std::move(child), provenance);
+            }
+        }
+
         const auto& bounds = tree.intersectionChecker->bounds();
 
         if (std::holds_alternative<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment)
diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 1536757..06ffe51 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -70,6 +70,19 @@ namespace LoadBalancing
             return std::holds_alternative<Point_Ids>(attachment);
         }
 
+        // true if the tree holds no finite points
+        bool isEmpty() const {
+            if(auto children = std::get_if<ChildContainer>(&attachment)) {
+                return std::all_of(children->begin(), children->end(),
+                                   [](const PartitionTree& child) { return child.isEmpty(); });
+            }
+            for(auto id : std::get<Point_Ids>(attachment)) {
+                if(dPoint<D, Precision>::isFinite(id))
+                    return false;
+            }
+            return true;
+        }
+
 	private:
         static void flattenContainer(ChildContainer& children)
 		{
-- 
2.43.0


From f798e12e9cd12336f98fda366886fa71ed57e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:34 +0000
Subject: [PATCH 22/48] fix: accurate grid checker refers to a destroyed id set

---
 .../AccurateGridIntersectionChecker.h              | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..676786e 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -22,7 +22,6 @@ namespace LoadBalancing
 
 		private:
 		const dPoints<D, Precision>* points;
-		const Point_Ids* pointIds;
 		std::shared_ptr<CellsWithPoints> mCells;
 
 
@@ -41,11 +40,9 @@ namespace LoadBalancing
 
 		AccurateGridIntersectionChecker(GridIntersectionChecker<D, Precision> gic,
 		                                std::shared_ptr<CellsWithPoints> cells,
-		                                const dPoints<D, Precision>& points,
-		                                const Point_Ids& pointIds)
+		                                const dPoints<D, Precision>& points)
 			: GridIntersectionChecker<D, Precision>(std::move(gic)),
 			  points(&points),
-			  pointIds(&pointIds),
 			  mCells(std::move(cells)) { }
 		
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
@@ -56,8 +53,7 @@ namespace LoadBalancing
 				auto it = mCells->find(cell);
 				assert(it != mCells->end());
 				for(tIdType pointId : it->second.pointIds) {
-					if(pointIds->contains(pointId)
-					   && checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
+					if(checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
 						return true;
 				}
 			}
@@ -136,11 +132,11 @@ namespace LoadBalancing
 			std::vector<IntersectionPartition<D, Precision>> result;
 			for(auto& partition : gridIntersectionPartitioning) {
 				auto intersectionChecker = std::move(partition.intersectionChecker);
-				auto gridIntersectionChecker =
-					*(dynamic_cast<GIC*>(intersectionChecker.release()));
+				auto& gridIntersectionChecker =
+					dynamic_cast<GIC&>(*intersectionChecker);
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
-					                       cellsPtr, points, ids);
+					                       cellsPtr, points);
 			}
 
 			return gridIntersectionPartitioning;
-- 
2.43.0


From 9ec636916af4b062777923fb66f701051317fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:34 +0000
Subject: [PATCH 23/48] fix: nearest sample bipartitioner leaves its nodes
 without intersection checker

---
 .../NearestSamplePointAssigningSampleBipartitioner.h            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
index 9a721f8..142d8fc 100644
--- a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
@@ -81,6 +81,8 @@ namespace LoadBalancing
 
 				leftTree.intersectionChecker = std::move(children[0].intersectionChecker);
 				rightTree.intersectionChecker = std::move(children[1].intersectionChecker);
+				result.intersectionChecker =
+					std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 				result.attachment = typename decltype(tree)::ChildContainer {
 					std::move(leftTree), std::move(rightTree)};
 			} else {
-- 
2.43.0


From 9906b150e2687a045d90b61aeca53b4beeef1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 24/48] fix: hyperplane bipartitioner fails when the sample has
 no cut edge

---
 .../sample_partitioner/HyperplaneBipartitioner.h           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
index 9b4b2d3..893f1c8 100644
--- a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
@@ -69,6 +69,13 @@ namespace LoadBalancing
 					}
 				}
 
+				if(splitPoints.empty()) {
+					// all samples are in one part, there is nothing to separate
+					result.intersectionChecker = std::move(intersectionChecker);
+					result.attachment = pointIds;
+					return result;
+				}
+
 				// make hyperplane
 				const auto m = splitPoints.size();
 				constexpr auto n = D + 1;
-- 
2.43.0


From bf402a2453205ab5e25ed0876cee7f54679ba369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:59 +0000
Subject: [PATCH 25/48] fix: load balanced merge misses borders of parts that
 enclose each other

---
 include/LoadBalancedDCTriangulator.tpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 0e4a0c0..4852456 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -151,10 +151,32 @@ namespace LoadBalancing
         * partition or not
         */
 
+        /* The border of a part reaches its convex hull only if the part can be separated from the others,
+        * if it overlaps with them it may as well enclose them -> all its simplices need to be tested
+        */
+        const auto overlaps = [](const dBox<D, Precision> &a, const dBox<D, Precision> &b) {
+            for (uint d = 0; d < D; ++d) {
+                if (a.high[d] <= b.low[d] || b.high[d] <= a.low[d])
+                    return false;
+            }
+            return true;
+        };
+
+        Id_Vector allSimplices;
+        const Id_Vector *startSimplices = &simplices.convexHull;
+        for (uint i = 0; i < partitioning.size(); ++i) {
+            if (i != partition && overlaps(intersectionCheckers[partition]->bounds(), intersectionCheckers[i]->bounds())) {
+                for (const auto &simplex : simplices)
+                    allSimplices.push_back(simplex.id);
+                startSimplices = &allSimplices;
+                break;
+            }
+        }
+
         INDENT
 
         VTUNE_TASK(IdentifyEdge);
-        tbb::parallel_do(simplices.convexHull, [&](const tIdType id,
+        tbb::parallel_do(*startSimplices, [&](const tIdType id,
                                                 tbb::parallel_do_feeder<tIdType> &feeder) {
 
             if (!dSimplex<D, Precision>::isFinite(id))
-- 
2.43.0


From 3aa89e6565483113a41d0622b1866693463d3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:53 +0000
Subject: [PATCH 26/48] fix: AABB tree loses cells when the bounds end on a
 grid line

---
 include/datastructures/AABBTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..8d0a21a 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -249,7 +249,8 @@ private:
         // round bounds to cell size
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            // a coordinate on the border of two cells belongs to the upper one
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From 2d53a18bd65660316be812db3f44678ecf802073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 27/48] fix: centers of sample partitions are biased towards
 the origin

---
 .../CenterDistancePointAssigningSamplePartitioner.h           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h b/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
index 3b461da..bedcfc1 100644
--- a/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
+++ b/include/load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h
@@ -19,8 +19,8 @@ namespace LoadBalancing
         for(size_t i = 0; i < partitioning.size(); ++i) {
             int partition = partitioning[i];
             ++numPoints[partition];
-            result[partition] = result[partition] * ((Precision)numPoints[partition]/(1 + numPoints[partition]))
-                              + samplePoints[i] * ((Precision)1/(1 + numPoints[partition]));
+            result[partition] = result[partition] * ((Precision)(numPoints[partition] - 1)/numPoints[partition])
+                              + samplePoints[i] * ((Precision)1/numPoints[partition]);
         }
         return result;
     }
-- 
2.43.0


From 4fd5c4988dbd37f1374468d69b0c347f05aa33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 28/48] fix: bounds of parts lost to concurrent writes of
 neighbouring bits

---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..5d7643f 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // not bool, elements are written concurrently
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..a0baee3 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // not bool, elements are written concurrently
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From fb3e1f1ada4c2a9c82c955e84b4be93fa5902565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 29/48] fix: extend partitioner fails an assertion on parts
 without extent

---
 src/lib/Partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..8aa0381 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -200,7 +200,7 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
 
     // determine most vast dimension
     Precision maxExtend = 0;
-    int maxDim = -1;
+    int maxDim = 0; // all extends may be 0
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
-- 
2.43.0


From 7cebfdfb3bdc01d6b72ed5988ecec202824dd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:17 +0000
Subject: [PATCH 30/48] fix: edge weights of the sample graph collapse by
 integer scaling

---
 include/load_balancing/sample_partitioner/Sampler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index c07ad68..65eefa7 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -36,7 +36,7 @@ namespace LoadBalancing
 	private:
 		const In minIn, maxIn;
 		const Out minOut, maxOut;
-		const Out scale;
+		const In scale; // not Out, which may be integral
 	};
 	
     struct Graph {
-- 
2.43.0


From 778897c75a863e548cc17702ef5a05bfe065815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 31/48] fix: number of simplices includes deleted ones

---
 include/Geometry.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Geometry.h b/include/Geometry.h
index a6a5ae9..be56dd0 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -932,6 +932,11 @@ public:
         return iterator(*this, this->m_blocks.size() - 1, this->upperBound(), false);
     }
 
+    // number of simplices, base::exact_size() also counts the slots of deleted ones
+    tIdType exact_size() const {
+        return std::distance(begin(), end());
+    }
+
     const_range_type range() const {
         return const_range_type(*this);
     }
-- 
2.43.0


From 0c112768a531e412247b4f99535b68f62e0281f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:49 +0000
Subject: [PATCH 32/48] fix: experiment reports of later runs include earlier
 runs

---
 include/load_balancing/Experiment.h                  |  5 +++--
 .../load_balancing/monitors/ComprehensiveMonitor.h   | 12 ++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 187c71a..889344b 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -34,8 +34,8 @@ namespace LoadBalancing
         Setup setup;
         std::ostream& out;
         std::string partitionerName;
+        ComprehensiveAccumulator acc; // used by the triangulator's monitor
         DCTriangulator<D, Precision, ComprehensiveMonitor> triangulator;
-        ComprehensiveAccumulator acc;
         size_t runs;
         
         void start();
@@ -49,7 +49,7 @@ namespace LoadBalancing
         : setup(std::move(setup)),
           out(out),
           partitionerName(partitioner->info()),
-          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitioner->info().find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
+          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitionerName.find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
           //triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, false, true, ComprehensiveMonitor(acc)),
           runs(0) {
         start();
@@ -62,6 +62,7 @@ namespace LoadBalancing
     
     template<uint D, typename Precision>
     bool Experiment<D, Precision>::runOnce() {
+        acc.reset();
         auto dt = triangulator.triangulate();
         bool result = true;
             
diff --git a/include/load_balancing/monitors/ComprehensiveMonitor.h b/include/load_balancing/monitors/ComprehensiveMonitor.h
index 6437573..9774356 100644
--- a/include/load_balancing/monitors/ComprehensiveMonitor.h
+++ b/include/load_balancing/monitors/ComprehensiveMonitor.h
@@ -15,6 +15,18 @@ namespace LoadBalancing
 		size_t sampleSize = 0;
 		
 		std::mutex mutex;
+
+		// forget what was recorded so far
+		void reset() {
+			std::lock_guard<std::mutex> lock(mutex);
+
+			partitionTime = Duration(0);
+			triangulationTime = Duration(0);
+			numTriangulatedPoints = 0;
+			partitionSizes.clear();
+			baseTriangulations.clear();
+			sampleSize = 0;
+		}
     };
     
     struct ComprehensiveMonitor : public TimingMonitor
-- 
2.43.0


From b31391d9b6669e9007762c0541e1df7b56dd10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 33/48] fix: load balancing partitioners are destroyed through
 a base class without virtual destructor

---
 include/load_balancing/Partitioner.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/load_balancing/Partitioner.h b/include/load_balancing/Partitioner.h
index df783d4..f88a75f 100644
--- a/include/load_balancing/Partitioner.h
+++ b/include/load_balancing/Partitioner.h
@@ -8,6 +8,8 @@ namespace LoadBalancing
     template <uint D, typename Precision, typename MonitorT>
     struct Partitioner
     {
+        virtual ~Partitioner() = default;
+
         virtual PartitionTree<D, Precision> partition(const dBox<D, Precision>& bounds,
                                         dPoints<D, Precision>& points,
                                         const Point_Ids& pointIds,
-- 
2.43.0


From 05a8e38ce9ced50888233d1ff8f01c5c3ee3e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:01 +0000
Subject: [PATCH 34/48] fix: loading a stored block array writes through null
 pointers

---
 include/datastructures/BlockedArray2.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..f45e32f 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -602,6 +602,7 @@ private:
         m_blocks.resize(n);
 
         for (std::size_t i = 0; i < n; ++i) {
+            m_blocks[i] = std::make_unique<block>(0, 0); // load allocates its data
             ar >> *m_blocks[i];
         }
     }
-- 
2.43.0


From c9140227005c1a83fa72991e3a2939af01590b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:01 +0000
Subject: [PATCH 35/48] fix: point location starts at a deleted simplex

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index be56dd0..4ac1bdd 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -846,7 +846,7 @@ public:
         auto cmp = [](const pqItem &a, const pqItem &b) { return a.first > b.first; };
 
         if(hintSimplex == dSimplex<D, Precision>::cINF){
-            hintSimplex = this->lowerBound();
+            hintSimplex = (*begin()).id; // the simplex at the lower bound may be deleted
         }
 
         std::priority_queue<pqItem, std::vector<pqItem>, decltype(cmp)> pQueue(cmp);
-- 
2.43.0


From 0188d30243153afe91a4e96d914cde2d76e143bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:55 +0000
Subject: [PATCH 36/48] hook: grain size of container ranges can be set at
 compile time (PARDETRIA_SIM_GRAIN)

---
 include/datastructures/LP_Set.hxx | 4 ++++
 src/lib/Geometry.cpp              | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 23e74a4..299129a 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -214,7 +214,11 @@ namespace _detail {
         }
 
         //! Init range with container and grainsize specified
+#ifdef PARDETRIA_SIM_GRAIN // simulation only: small ranges can be split, too
+        range_type(Container &cont, const std::size_t &grainsize = PARDETRIA_SIM_GRAIN) :
+#else
         range_type(Container &cont, const std::size_t &grainsize = 1e3) :
+#endif
                 m_container(cont),
                 m_begin(cont.begin()),
                 m_end(cont.end()),
diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 793bca8..3818987 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -674,7 +674,12 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
         }
     });
 
-    tbb::parallel_for(tbb::blocked_range<std::size_t>(std::size_t(0), convexHull.size(), 1000), [&](const auto & r) {
+#ifdef PARDETRIA_SIM_GRAIN // simulation only: small ranges can be split, too
+    const std::size_t hullGrain = PARDETRIA_SIM_GRAIN;
+#else
+    const std::size_t hullGrain = 1000;
+#endif
+    tbb::parallel_for(tbb::blocked_range<std::size_t>(std::size_t(0), convexHull.size(), hullGrain), [&](const auto & r) {
 
         auto &thisHandle = tsThisHandle.local();
 
-- 
2.43.0


From 38916836a981633477ea4493cfe3de69631880ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 37/48] fix: sequential hash set without elements is left
 without any slot by a merge or rehash

---
 include/datastructures/LP_Set.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 299129a..e0076b9 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -373,7 +373,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(1), newSize));
 
         auto oldArray = std::move(m_array);
         m_items = 0;
@@ -406,7 +406,7 @@ public:
         m_rehashing = true;
 
         std::size_t oldSize = m_arraySize;
-        m_arraySize = nextPow2(newSize);
+        m_arraySize = nextPow2(std::max(std::size_t(1), newSize));
 
         auto oldArray = std::move(m_array);
         m_items = 0;
-- 
2.43.0


From 9b39a03bb475f0e48618cac662321aa7d92ffed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 38/48] fix: merge of hash sets applies an inverted filter to
 one of the operands only

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index e0076b9..68a089d 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -429,7 +429,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(2*(size() + other.size()), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From e953d371abbb7a87d7305f73353f177f47973d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 39/48] fix: lookups in sequential hash maps of capacity 1
 never end

---
 include/datastructures/LP_Map.hxx      | 3 ++-
 include/datastructures/LP_MultiMap.hxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 5f7052b..624cc43 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,8 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        // at most half of the slots are taken, one slot at least always stays free
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 8b69aba..b997704 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,8 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        // at most half of the slots are taken, one slot at least always stays free
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From d7c3d03ece5208be1e251dd767f63079446cfdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:17 +0000
Subject: [PATCH 40/48] fix: bubble generators leave the last point unset and
 write the unused one instead

---
 include/load_balancing/MaliciousBubbleGenerator.h | 2 +-
 include/load_balancing/UnboundBubbleGenerator.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..7f37bd1 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -43,7 +43,7 @@ protected:
                 });
                 coords = coords * radius + center;
             } while(!bounds.contains(coords));            
-            points[i] = coords;
+            points[i + 1] = coords;
         }
     }
     
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..aaf4c28 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -61,7 +61,7 @@ protected:
                 return pointDist(gen);
             });
             
-            points[i] = bubbleCenters[centerIndex] + coords;
+            points[i + 1] = bubbleCenters[centerIndex] + coords;
         }
     }
 };
-- 
2.43.0


From ad76ab355384f4b7b58d694bf19bd2e7df3309d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:17 +0000
Subject: [PATCH 41/48] fix: skew line and bubble generators leave points unset
 when the number of points is not divisible

---
 include/utils/Generator.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..24f81f0 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -161,7 +161,10 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            // the last bubble takes the points that are left over
+            tIdType last = b + 1 == bubbles.size() ? n : (b+1)*ppB;
+
+            for (tIdType i = b*ppB + 1; i <= last; ++i) {
                 dPoint<D, Precision> p;
 
                 do {
@@ -274,7 +277,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -286,7 +289,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i + 1 <= n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From 3906c8ff5d37bfeaf03952513e678fe2398de60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:19 +0000
Subject: [PATCH 42/48] fix: point generators are destroyed through a base
 class without virtual destructor

---
 include/utils/Generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index 24f81f0..3ce581c 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -8,6 +8,8 @@ template<uint D, typename Precision>
 class PointGenerator {
 
 public:
+    virtual ~PointGenerator() { }
+
     dPoints<D, Precision> generate(const tIdType n, const dBox<D, Precision> &bounds,
                                      tGenerator &gen) const {
 
-- 
2.43.0


From 013a9eb64061cbefe657cabbfadbf2fa58de590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:17 +0000
Subject: [PATCH 43/48] fix: tasks executed while waiting overwrite the log
 indentation of the suspended one

---
 include/LoadBalancedDCTriangulator.tpp | 12 +++++-------
 include/utils/Logger.h                 | 16 ++++++++++++++++
 src/lib/DCTriangulator.cpp             | 12 +++++-------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 4852456..c3f536d 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -324,7 +324,7 @@ namespace LoadBalancing
         tbb::parallel_do(toCheck.range(), [&](const tIdType &id,
                                             tbb::parallel_do_feeder<tIdType> &feeder) {
 
-            LOGGER.setIndent(saveIndent);
+            const Logger::IndentScope indentScope(saveIndent);
 
             auto &simplicesHandle = tsSimplicesHandle.local();
 
@@ -532,7 +532,7 @@ namespace LoadBalancing
         PROFILER_MEAS(provenance.find('e') == std::string::npos ? "basecaseSize" : "edgeBasecaseSize",
                     size);
 
-        LOGGER.setIndent(provenance.length());
+        const Logger::IndentScope indentScope(provenance.length());
 
         LOG("triangulateBASE called on level " << provenance << " with "
             << size << " points" << std::endl);
@@ -594,7 +594,7 @@ namespace LoadBalancing
     template<uint D, typename Precision, typename MonitorT>
     dSimplices<D, Precision> DCTriangulator<D, Precision, MonitorT>::recursiveTriangulate(PartitionTree<D, Precision> tree, const std::string provenance) {
 
-        LOGGER.setIndent(provenance.length());
+        const Logger::IndentScope indentScope(provenance.length());
 
         PROFILER_MEAS("nPoints", partitionPoints.size());
 
@@ -642,8 +642,7 @@ namespace LoadBalancing
             tbb::parallel_for(
                     std::size_t(0), partSize,
                     [&](const uint i) {
-                        LOGGER.setIndent(
-                                provenance.length()); // new thread, initialize Logger indent
+                        const Logger::IndentScope indentScope(provenance.length()); // new thread, initialize Logger indent
                         INDENT
                         LOG("Partition " << i << " on thread " << std::this_thread::get_id()
                             << std::endl);
@@ -670,8 +669,7 @@ namespace LoadBalancing
             tbb::parallel_for(
                     std::size_t(0), partSize,
                     [&](const uint i) {
-                        LOGGER.setIndent(
-                                provenance.length()); // new thread, initialize Logger indent
+                        const Logger::IndentScope indentScope(provenance.length()); // new thread, initialize Logger indent
                         INDENT
                         VLOG("Partition " << i << ": extracting edge" << std::endl);
                         //TODO how to handle edge detection
diff --git a/include/utils/Logger.h b/include/utils/Logger.h
index 5b321de..ec69309 100644
--- a/include/utils/Logger.h
+++ b/include/utils/Logger.h
@@ -85,6 +85,22 @@ public:
 
     uint getIndent() { return indentLevel; }
 
+    // sets the indent for a scope and restores it afterwards: tasks executed by a thread while it waits
+    // for other tasks to complete must not change the indent of the suspended one
+    class IndentScope {
+    public:
+        explicit IndentScope(const uint i) : previous(indentLevel) { indentLevel = i; }
+
+        ~IndentScope() { indentLevel = previous; }
+
+        IndentScope(const IndentScope &) = delete;
+
+        IndentScope &operator=(const IndentScope &) = delete;
+
+    private:
+        const uint previous;
+    };
+
     template<typename InputIt>
     void logContainer(const InputIt &first, const InputIt &last, Verbosity level,
                       const std::string &prefix = "",
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 9bd87ce..f7b1bc0 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -278,7 +278,7 @@ void DCTriangulator<D, Precision>::updateNeighbors(
     tbb::parallel_do(toCheck.range(), [&](const tIdType &id,
                                           tbb::parallel_do_feeder<tIdType> &feeder) {
 
-        LOGGER.setIndent(saveIndent);
+        const Logger::IndentScope indentScope(saveIndent);
 
         auto &simplicesHandle = tsSimplicesHandle.local();
 
@@ -483,7 +483,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::_triangulateBase(const Po
     PROFILER_MEAS(provenance.find('e') == std::string::npos ? "basecaseSize" : "edgeBasecaseSize",
                   partitionPoints.size());
 
-    LOGGER.setIndent(provenance.length());
+    const Logger::IndentScope indentScope(provenance.length());
 
     LOG("triangulateBASE called on level " << provenance << " with "
         << partitionPoints.size() << " points" << std::endl);
@@ -500,7 +500,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::_triangulate(const Point_
                                                                     const dBox<D, Precision> &bounds,
                                                                     const std::string provenance) {
 
-    LOGGER.setIndent(provenance.length());
+    const Logger::IndentScope indentScope(provenance.length());
 
     PROFILER_MEAS("nPoints", partitionPoints.size());
 
@@ -530,8 +530,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::_triangulate(const Point_
         tbb::parallel_for(
                 std::size_t(0), partioning.size(),
                 [&](const uint i) {
-                    LOGGER.setIndent(
-                            provenance.length()); // new thread, initialize Logger indent
+                    const Logger::IndentScope indentScope(provenance.length()); // new thread, initialize Logger indent
                     INDENT
                     LOG("Partition " << i << " on thread " << std::this_thread::get_id()
                         << std::endl);
@@ -550,8 +549,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::_triangulate(const Point_
         tbb::parallel_for(
                 std::size_t(0), partioning.size(),
                 [&](const uint i) {
-                    LOGGER.setIndent(
-                            provenance.length()); // new thread, initialize Logger indent
+                    const Logger::IndentScope indentScope(provenance.length()); // new thread, initialize Logger indent
                     INDENT
                     VLOG("Partition " << i << ": extracting edge" << std::endl);
                     //TODO how to handle edge detection
-- 
2.43.0


From 268994c892e7b9059ed9626c865a34af8e081479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:17 +0000
Subject: [PATCH 44/48] fix: point dump prints the unused slot 0 as an
 additional point

---
 src/exe/LB_PointDump.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exe/LB_PointDump.cpp b/src/exe/LB_PointDump.cpp
index aa40700..78d5763 100644
--- a/src/exe/LB_PointDump.cpp
+++ b/src/exe/LB_PointDump.cpp
@@ -41,7 +41,8 @@ int main(int argc, char** argv) {
     auto N = vm["n"].as<tIdType>();
     points = pg->generate(N, bounds, startGen);
     
-    for(const auto& point : points) {
+    for(tIdType i = 1; i < points.finite_size(); ++i) { // slot 0 is not a point
+        const auto& point = points[i];
         printf("%f %f %f\n", point.coords[0], point.coords[1], point.coords[2]);
     }
 }
-- 
2.43.0


From 59458b47bdb566840ff043cbfe26815246d9ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:17 +0000
Subject: [PATCH 45/48] fix: experiment program ignores the verbosity and
 accepts missing point files and dimensions

---
 src/exe/LB_Experiments.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exe/LB_Experiments.cpp b/src/exe/LB_Experiments.cpp
index 7b77bc9..4a57272 100644
--- a/src/exe/LB_Experiments.cpp
+++ b/src/exe/LB_Experiments.cpp
@@ -22,6 +22,8 @@ void execute(const po::variables_map& vm, uint threads, const std::string& argSt
     if (vm.count("points")) {
         std::string filename = vm["points"].as<std::string>();
         bounds = points.loadFromFile(filename);
+        if(points.finite_size() <= 1) // slot 0 is not a point
+            throw std::runtime_error("no points in file " + filename);
         distribution = filename;
     } else {
         auto pg = createGenerator<D, Precision>(vm);
@@ -56,7 +58,7 @@ int main(int argc, char *argv[]) {
     uint threads = tbb::task_scheduler_init::default_num_threads();
     std::string pointFile;
     std::string partitionerName;
-    uint dim;
+    uint dim = 0;
     int verbosity = (short)Logger::Verbosity::NORMAL;
 
     auto cCommandLine = defaultOptions<double>();
@@ -66,12 +68,13 @@ int main(int argc, char *argv[]) {
                                "load points from file");
     cCommandLine.add_options()("verbosity", po::value<int>(&verbosity),
                                "verbosity");
-    LOGGER.setLogLevel(static_cast<Logger::Verbosity>(verbosity));
 
     po::variables_map vm;
     po::store(po::parse_command_line(argc, argv, cCommandLine), vm);
     po::notify(vm);
 
+    LOGGER.setLogLevel(static_cast<Logger::Verbosity>(verbosity));
+
     if (vm.count("help")) {
         std::cout << cCommandLine << std::endl;
         return EXIT_SUCCESS;
@@ -112,6 +115,7 @@ int main(int argc, char *argv[]) {
         break;
     default:
         std::cerr << "unsupported dimension\n";
+        return EXIT_FAILURE;
     }
     
     return EXIT_SUCCESS;
-- 
2.43.0


From 1ddf8d2a00e78507dea9faeb0f1e4e027f5369dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:17 +0000
Subject: [PATCH 46/48] fix: unknown partitioners, distributions and split
 dimensions are not refused

---
 include/load_balancing/CommandLineInterface.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/load_balancing/CommandLineInterface.h b/include/load_balancing/CommandLineInterface.h
index 49f583e..0f7957a 100644
--- a/include/load_balancing/CommandLineInterface.h
+++ b/include/load_balancing/CommandLineInterface.h
@@ -62,6 +62,8 @@ std::unique_ptr<PointGenerator<D, Precision>> createGenerator(const po::variable
     } else if("malicious-bubble" == distributionName){
         uint numBubbles = extract<uint>("num-bubbles", vm, std::pow(4, D));
         result = std::make_unique<lb::MaliciousBubbleGenerator<D, Precision>>(numBubbles);
+    } else {
+        throw std::runtime_error("unknown option for argument 'distribution'");
     }
     
     return result;
@@ -190,8 +192,11 @@ std::unique_ptr<lb::Partitioner<D, Precision, MonitorT>> createPartitioner(const
             oldPartitioner = std::make_unique<ExtendPartitioner<D, Precision>>();
         } else if("one-dim" == partitionerName) {
             uint d = vm["split-dimension"].as<uint>();
-            ASSERT(d < D);
+            if(d >= D)
+                throw std::runtime_error("argument 'split-dimension' is out of range");
             oldPartitioner = std::make_unique<OneDimPartitioner<D, Precision>>(d);
+        } else {
+            throw std::runtime_error("unknown option for argument 'partitioner'");
 		}
         auto maxRecursions = oldPartitioner->getRecursionDepth(threads);
         partitioner =
-- 
2.43.0


From 6e5cbd73e8728c5c3238de3896ba54f8b2bff3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:17 +0000
Subject: [PATCH 47/48] fix: experiment reports count slot 0 as a point

---
 include/load_balancing/Experiment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 889344b..b700022 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -122,7 +122,7 @@ namespace LoadBalancing
             << "    \"triangulator\": \"" << "load balanced DC Triangulator\",\n"
             << "    \"partitioner\": \"" << partitionerName << "\",\n"
             << "    \"distribution\": \"" << setup.distribution << "\",\n"
-            << "    \"numpoints\": " << setup.points.finite_size() << ",\n"
+            << "    \"numpoints\": " << setup.points.finite_size() - 1 << ",\n" // slot 0 is not a point
             << "    \"threads\": " << setup.threads << ",\n"
             << "    \"seed\": " << setup.seed << ",\n"
             << "    \"results\": [";
-- 
2.43.0


From 27bc7a673720ace5eda6a55f72cb72450a8ca66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:43 +0000
Subject: [PATCH 48/48] fix: benchmark silently executes no or not all runs
 when the file of runs cannot be read

---
 src/exe/Benchmark.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exe/Benchmark.cpp b/src/exe/Benchmark.cpp
index c3ebdde..afb14f2 100644
--- a/src/exe/Benchmark.cpp
+++ b/src/exe/Benchmark.cpp
@@ -338,6 +338,11 @@ int main(int argc, char *argv[]) {
         for (std::string line; getline(input, line);) {
             runs.emplace_back(line);
         }
+
+        if (!input.is_open() || input.bad()) {
+            std::cerr << "Error reading file " << runFile << std::endl;
+            return EXIT_FAILURE;
+        }
     } else if (vm.count("run-string")) {
         ExperimentRun exRun(run);
 
-- 
2.43.0

