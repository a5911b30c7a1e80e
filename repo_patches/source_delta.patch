From 6c9aa2081be4ed91a7610afba918e8f87eddcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 01/14] fix: stack: range push for fixed-sized stacks

prepare_node_list stored node pointers in next, which is an index for
fixed-sized stacks, so that none of the range push functions compiled.
---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..7dc2193 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -292,7 +292,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -301,14 +301,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From 18df153fff13bb29c2c59f437bd4393b99c61b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 02/14] fix: stack: pushing an empty range

prepare_node_list dereferenced the end iterator of an empty range and ran past it.
---
 include/boost/lockfree/stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 7dc2193..96ad03e 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,6 +284,11 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
+        if ( begin == end ) {
+            ret = begin;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
         ConstIterator it       = begin;
         node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
-- 
2.43.0


From 0d3480737d1d2b0d088f4fc364c6e1f4346a229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 03/14] fix: queue: unsynchronized_push for fixed-sized queues

unsynchronized_push treated handles as pointers and did not compile for
fixed-sized queues.
---
 include/boost/lockfree/queue.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..7f009b9 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -382,16 +382,19 @@ public:
             return false;
 
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                tail_node->next.store( tagged_node_handle( pool.get_handle( n ), next.get_next_tag() ),
+                                       memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( n ), tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
+                             memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From 065d094da1d50aa91ac07ee562b360455810a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 04/14] fix: freelist: return the node when constructing an
 element throws

construct() lost the node it had taken from the pool if the constructor threw.
---
 include/boost/lockfree/detail/freelist.hpp | 76 +++++++++++++++++++---
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..3ac48a3 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -78,8 +79,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -87,8 +98,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -96,8 +117,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -443,7 +474,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -455,7 +495,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -467,7 +516,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From c64d8667155767512b6f5b717828d165effa5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 05/14] fix: freelist_stack: free the nodes when the
 constructor throws

If the allocator failed for one of the initial nodes, those already
allocated were leaked.
---
 include/boost/lockfree/detail/freelist.hpp | 40 +++++++++++++++-------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 3ac48a3..388c3a6 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -54,15 +54,24 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            release_nodes();
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
@@ -149,14 +158,7 @@ public:
 
     ~freelist_stack( void )
     {
-        tagged_node_ptr current = pool_.load();
-
-        while ( current ) {
-            freelist_node* current_ptr = current.get_ptr();
-            if ( current_ptr )
-                current = current_ptr->next;
-            Alloc::deallocate( (T*)current_ptr, 1 );
-        }
+        release_nodes();
     }
 
     bool is_lock_free( void ) const
@@ -200,6 +202,18 @@ protected: // allow use from subclasses
     }
 
 private:
+    void release_nodes( void )
+    {
+        tagged_node_ptr current = pool_.load();
+
+        while ( current ) {
+            freelist_node* current_ptr = current.get_ptr();
+            if ( current_ptr )
+                current = current_ptr->next;
+            Alloc::deallocate( (T*)current_ptr, 1 );
+        }
+    }
+
     template < bool Bounded >
     T* allocate_impl( void )
     {
-- 
2.43.0


From ea011e58b38389ce636ee0569014e6842c51398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 06/14] fix: stack: align nodes for the freelist

The freelist stores a 4-byte aligned tagged_index in unused nodes of
fixed-sized stacks, but nodes with small elements were only 2-byte aligned.
---
 include/boost/lockfree/stack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 96ad03e..83ea40e 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -89,8 +89,8 @@ private:
         {}
 
         typedef typename detail::select_tagged_handle< node, node_based >::handle_type handle_t;
-        handle_t                                                                       next;
-        const T                                                                        v;
+        BOOST_ALIGNMENT( node_based ? sizeof( void* ) : 4 ) handle_t next; // unused nodes may hold a tagged_index
+        const T                                                      v;
     };
 
     typedef typename detail::extract_allocator< bound_args, node >::type node_allocator;
-- 
2.43.0


From 8d84030c64eb0230fd65f2a13ca50dbac1e2f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 07/14] fix: spsc_queue: destroy the first section when copying
 the second one throws

A range push that wraps around and whose copy constructor threw in the second
section leaked the elements already constructed in the first section.
---
 include/boost/lockfree/spsc_queue.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..a64e205 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,17 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                for ( size_t i = write_index; i != max_size; ++i )
+                    internal_buffer[ i ].~T();
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
-- 
2.43.0


From 4f223732497aa25af12de6ee79d538538dfe27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 08/14] fix: queue: convert popped elements only after they are
 removed

---
 include/boost/lockfree/queue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 7f009b9..94d2f65 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -446,11 +446,13 @@ public:
                          * allocation. we can observe a null-pointer here.
                          * */
                         continue;
-                    detail::copy_payload( next_ptr->data, ret );
+                    /* the conversion to U (which may take ownership) must only see the element that is actually popped */
+                    T data( next_ptr->data );
 
                     tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );
                     if ( head_.compare_exchange_weak( head, new_head ) ) {
                         pool.template destruct< true >( head );
+                        detail::copy_payload( data, ret );
                         return true;
                     }
                 }
-- 
2.43.0


From ed4d8ba9e3baf28c62aeca8619ef5e3df12d2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 09/14] fix: queue, stack: do not ignore a third policy

---
 include/boost/lockfree/queue.hpp | 4 +++-
 include/boost/lockfree/stack.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 94d2f65..dadcfa9 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -47,7 +47,9 @@
 namespace boost { namespace lockfree {
 namespace detail {
 
-typedef parameter::parameters< boost::parameter::optional< tag::allocator >, boost::parameter::optional< tag::capacity > >
+typedef parameter::parameters< boost::parameter::optional< tag::allocator >,
+                               boost::parameter::optional< tag::capacity >,
+                               boost::parameter::optional< tag::fixed_sized > >
     queue_signature;
 
 } /* namespace detail */
diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 83ea40e..7580c11 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -31,7 +31,9 @@
 namespace boost { namespace lockfree {
 namespace detail {
 
-typedef parameter::parameters< boost::parameter::optional< tag::allocator >, boost::parameter::optional< tag::capacity > >
+typedef parameter::parameters< boost::parameter::optional< tag::allocator >,
+                               boost::parameter::optional< tag::capacity >,
+                               boost::parameter::optional< tag::fixed_sized > >
     stack_signature;
 
 } // namespace detail
-- 
2.43.0


From 7654d78b0c3ce283457c89f91b359b243134e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 10/14] fix: queue: reject a size whose node count overflows

---
 include/boost/lockfree/queue.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index dadcfa9..9dc6204 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -11,10 +11,14 @@
 #ifndef BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 #define BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 
+#include <limits>
+#include <stdexcept>
+
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY & BOOST_ALIGNMENT
 #include <boost/core/allocator_access.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/throw_exception.hpp>
 #include <boost/type_traits/has_trivial_assign.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 
@@ -149,6 +153,13 @@ private:
         tail_.store( dummy_node, memory_order_release );
     }
 
+    static std::size_t node_count( std::size_t n )
+    {
+        if ( n == ( std::numeric_limits< std::size_t >::max )() )
+            boost::throw_exception( std::length_error( "boost.lockfree: queue size is too large" ) );
+        return n + 1; // the queue uses one dummy node
+    }
+
     struct implementation_defined
     {
         typedef node_allocator allocator;
@@ -231,7 +242,7 @@ public:
     explicit queue( size_type n ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( node_allocator(), n + 1 )
+        pool( node_allocator(), node_count( n ) )
     {
         // Don't use BOOST_STATIC_ASSERT() here since it will be evaluated when compiling
         // this function and this function may be compiled even when it isn't being used.
@@ -249,7 +260,7 @@ public:
     queue( size_type n, typename boost::allocator_rebind< node_allocator, U >::type const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, node_count( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
@@ -264,7 +275,7 @@ public:
     queue( size_type n, allocator const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, node_count( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
-- 
2.43.0


From 242a65b7b193e2fb9235363e923bc96f12f34837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 11/14] fix: spsc_queue: reject sizes that the allocator cannot
 provide

The number of slots, or their size in bytes, wrapped around.
---
 include/boost/lockfree/spsc_queue.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index a64e205..5a79fe0 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -12,6 +12,7 @@
 
 #include <algorithm>
 #include <memory>
+#include <stdexcept>
 
 #include <boost/aligned_storage.hpp>
 #include <boost/assert.hpp>
@@ -20,6 +21,7 @@
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/throw_exception.hpp>
 #include <boost/utility.hpp>
 #include <boost/utility/enable_if.hpp>
 
@@ -544,6 +546,13 @@ class runtime_sized_ringbuffer : public ringbuffer_base< T >, private Alloc
 #endif
     pointer array_;
 
+    static size_type slot_count( Alloc const& alloc, size_type max_elements )
+    {
+        if ( max_elements >= boost::allocator_max_size( alloc ) )
+            boost::throw_exception( std::length_error( "boost.lockfree: spsc_queue size is too large" ) );
+        return max_elements + 1; // one slot always stays empty
+    }
+
 protected:
     size_type max_number_of_elements() const
     {
@@ -552,7 +561,7 @@ protected:
 
 public:
     explicit runtime_sized_ringbuffer( size_type max_elements ) :
-        max_elements_( max_elements + 1 )
+        max_elements_( slot_count( *this, max_elements ) )
     {
 #ifdef BOOST_NO_CXX11_ALLOCATOR
         array_ = Alloc::allocate( max_elements_ );
@@ -565,7 +574,7 @@ public:
     template < typename U >
     runtime_sized_ringbuffer( typename boost::allocator_rebind< Alloc, U >::type const& alloc, size_type max_elements ) :
         Alloc( alloc ),
-        max_elements_( max_elements + 1 )
+        max_elements_( slot_count( *this, max_elements ) )
     {
 #ifdef BOOST_NO_CXX11_ALLOCATOR
         array_ = Alloc::allocate( max_elements_ );
@@ -577,7 +586,7 @@ public:
 
     runtime_sized_ringbuffer( Alloc const& alloc, size_type max_elements ) :
         Alloc( alloc ),
-        max_elements_( max_elements + 1 )
+        max_elements_( slot_count( *this, max_elements ) )
     {
 #ifdef BOOST_NO_CXX11_ALLOCATOR
         array_ = Alloc::allocate( max_elements_ );
-- 
2.43.0


From e73437a5f65854b89c8414c302736ee0cc4fdfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 12/14] fix: freelist: align compile-time sized node storage
 for over-aligned types

The array was aligned to a cache line only, so that nodes of types that are
aligned to more than that ended up at misaligned addresses.
---
 include/boost/lockfree/detail/freelist.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 388c3a6..ecbc79d 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -19,6 +19,7 @@
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/type_traits/alignment_of.hpp>
 
 #include <boost/align/align_up.hpp>
 #include <boost/align/aligned_allocator_adaptor.hpp>
@@ -381,7 +382,11 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     // array-based freelists only support a 16bit address space.
     BOOST_STATIC_ASSERT( size < 65536 );
 
-    boost::array< char, size * sizeof( T ) + 64 > data;
+    static const std::size_t alignment = boost::alignment_of< T >::value > BOOST_LOCKFREE_CACHELINE_BYTES
+                                             ? boost::alignment_of< T >::value
+                                             : BOOST_LOCKFREE_CACHELINE_BYTES;
+
+    boost::array< char, size * sizeof( T ) + alignment > data;
 
     // unused ... only for API purposes
     template < typename Allocator >
@@ -393,7 +398,7 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     T* nodes( void ) const
     {
         char* data_pointer = const_cast< char* >( data.data() );
-        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, BOOST_LOCKFREE_CACHELINE_BYTES ) );
+        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, alignment ) );
     }
 
     std::size_t node_count( void ) const
-- 
2.43.0


From 48aa476f75e2fb071dfc6b3d37464a0095859506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 13/14] fix: queue: do not request less alignment for nodes
 than the element type needs

queue< T > with alignof( T ) larger than a cache line was rejected by clang.
---
 include/boost/lockfree/queue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 9dc6204..12f0351 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -19,6 +19,7 @@
 #include <boost/core/allocator_access.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/throw_exception.hpp>
+#include <boost/type_traits/alignment_of.hpp>
 #include <boost/type_traits/has_trivial_assign.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 
@@ -114,7 +115,10 @@ private:
     static const bool node_based         = !( has_capacity || fixed_sized );
     static const bool compile_time_sized = has_capacity;
 
-    struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) node
+    // not less than T needs
+    struct BOOST_ALIGNMENT( boost::alignment_of< T >::value > BOOST_LOCKFREE_CACHELINE_BYTES
+                                ? boost::alignment_of< T >::value
+                                : BOOST_LOCKFREE_CACHELINE_BYTES ) node
     {
         typedef typename detail::select_tagged_handle< node, node_based >::tagged_handle_type tagged_node_handle;
         typedef typename detail::select_tagged_handle< node, node_based >::handle_type        handle_type;
-- 
2.43.0


From b642fb3bb7ac20900f38a244fce119d1cf3710b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 14/14] fix: spsc_queue: align compile-time sized storage for
 over-aligned types

boost::aligned_storage does not support alignments above 128.
---
 include/boost/lockfree/spsc_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 5a79fe0..57a89f1 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -439,7 +439,8 @@ class compile_time_sized_ringbuffer : public ringbuffer_base< T >
     typedef
         typename boost::aligned_storage< max_size * sizeof( T ), boost::alignment_of< T >::value >::type storage_type;
 
-    storage_type storage_;
+    // boost::aligned_storage ignores alignments that are too large for it
+    BOOST_ALIGNMENT( boost::alignment_of< T >::value ) storage_type storage_;
 
     T* data()
     {
-- 
2.43.0

