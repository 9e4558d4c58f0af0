From 1997967db0e190561073b8bbebbf63e2342d8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 1/8] fix: stack: ranged push of an empty range must not
 dereference the begin iterator

---
 include/boost/lockfree/stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..e34ca9f 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,6 +284,11 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
+        if ( begin == end ) {
+            ret = begin;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
         ConstIterator it       = begin;
         node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
-- 
2.43.0


From 00320755a2b41240e4d2021927eafcb3ba72b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 2/8] fix: stack: ranged push for fixed-size and
 compile-time-sized stacks (node links are handles, not pointers)

---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index e34ca9f..96ad03e 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -297,7 +297,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -306,14 +306,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From 8b2dcdd74a4032de6861c3907a20e0e57ca3101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 3/8] fix: queue: unsynchronized_push for fixed-size and
 compile-time-sized queues

---
 include/boost/lockfree/queue.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..f6a7415 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -381,17 +381,21 @@ public:
         if ( n == NULL )
             return false;
 
+        handle_type node_handle = pool.get_handle( n );
+
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
+                             memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From 56fabf00f9824e7448d11383dcd9bc47b7dd36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 4/8] fix: queue: pop into a converting type must not convert
 an element another thread may still win

---
 include/boost/lockfree/queue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index f6a7415..1f9c4b4 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -447,10 +447,12 @@ public:
                          * allocation. we can observe a null-pointer here.
                          * */
                         continue;
-                    detail::copy_payload( next_ptr->data, ret );
+                    T element( next_ptr->data );
 
                     tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );
                     if ( head_.compare_exchange_weak( head, new_head ) ) {
+                        /* convert only once the element is ours: U may take ownership of the value */
+                        detail::copy_payload( element, ret );
                         pool.template destruct< true >( head );
                         return true;
                     }
-- 
2.43.0


From aebd415b5df3d7597a99d71d5264323801ac8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 5/8] fix: freelist_stack: return the nodes already allocated
 if the allocator throws during construction

---
 include/boost/lockfree/detail/freelist.hpp | 42 +++++++++++++++-------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..2b13365 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -53,15 +54,25 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            // the destructor will not run: return the nodes which have been allocated so far
+            free_pool();
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
@@ -118,14 +129,7 @@ public:
 
     ~freelist_stack( void )
     {
-        tagged_node_ptr current = pool_.load();
-
-        while ( current ) {
-            freelist_node* current_ptr = current.get_ptr();
-            if ( current_ptr )
-                current = current_ptr->next;
-            Alloc::deallocate( (T*)current_ptr, 1 );
-        }
+        free_pool();
     }
 
     bool is_lock_free( void ) const
@@ -169,6 +173,18 @@ protected: // allow use from subclasses
     }
 
 private:
+    void free_pool( void )
+    {
+        tagged_node_ptr current = pool_.load();
+
+        while ( current ) {
+            freelist_node* current_ptr = current.get_ptr();
+            if ( current_ptr )
+                current = current_ptr->next;
+            Alloc::deallocate( (T*)current_ptr, 1 );
+        }
+    }
+
     template < bool Bounded >
     T* allocate_impl( void )
     {
-- 
2.43.0


From 3ec8b30e29d6f615dc2e08b38b8590d5ca7c69b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 6/8] fix: freelist: give a node back to the pool if
 constructing the element throws

construct() leaked the node it had acquired when the copy constructor of the element threw an exception: the node
was neither in the container nor in the pool any more, so a fixed-size container lost capacity for good and a
node-based container never returned the memory.
---
 include/boost/lockfree/detail/freelist.hpp | 75 +++++++++++++++++++---
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 2b13365..8d6653c 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -89,8 +89,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -98,8 +108,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -107,8 +127,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -459,7 +489,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -471,7 +510,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -483,7 +531,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From 620d14fcf8739107ae0cb87d51d89f3aade45855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 7/8] fix: spsc_queue: destroy the elements already copied if a
 later copy of a wrapped push throws

---
 include/boost/lockfree/spsc_queue.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..44d8ea1 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,17 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                for ( T* element = internal_buffer + write_index; element != internal_buffer + max_size; ++element )
+                    element->~T();
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
-- 
2.43.0


From 9db4504c85d1c2febcdbe841c160a14ab439bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:47 +0000
Subject: [PATCH 8/8] fix: queue: pop touches an element it does not own yet
 only with the trivial assignment

---
 include/boost/lockfree/queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 1f9c4b4..5a2b343 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -447,7 +447,8 @@ public:
                          * allocation. we can observe a null-pointer here.
                          * */
                         continue;
-                    T element( next_ptr->data );
+                    T element;
+                    element = next_ptr->data; // possibly recycled already: only the trivial assignment may touch it
 
                     tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );
                     if ( head_.compare_exchange_weak( head, new_head ) ) {
-- 
2.43.0

