From 5207289721156f7dc0f36a6a35db9c9660126c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 01/20] fix: a const invocation runs the combiner as const

The documentation of signal::operator() says the const version invokes the
combiner as const; it ran the non-const one (and could modify its state).
---
 include/boost/signals2/detail/signal_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..ef2a7ea 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -269,7 +269,7 @@ namespace boost
           invocation_janitor janitor(cache, *this, &local_state->connection_bodies());
           return detail::combiner_invoker<typename combiner_type::result_type>()
             (
-              local_state->combiner(),
+              static_cast<const combiner_type &>(local_state->combiner()),
               slot_call_iterator(local_state->connection_bodies().begin(), local_state->connection_bodies().end(), cache),
               slot_call_iterator(local_state->connection_bodies().end(), local_state->connection_bodies().end(), cache)
             );
@@ -734,7 +734,7 @@ namespace boost
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS)) const
       {
-        return (*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        return static_cast<const impl_class &>(*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       std::size_t num_slots() const
       {
-- 
2.43.0


From 579422a45958ec4e08ea29154f1392ede856c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 02/20] fix: order groups with the group comparison object
 given to the signal

grouped_list kept the comparison object for equivalence tests but left its
map default constructed, so groups were ordered by GroupCompare() instead.
---
 include/boost/signals2/detail/slot_groups.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..946b349 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -64,6 +64,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
+          _group_map(group_key_compare),
           _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
-- 
2.43.0


From b1cbe494555f103571383516a041802f85183e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 03/20] fix: connection::blocked() is true for a disconnected
 connection, and locks

As documented, blocked() returns true if the slot is disconnected or blocked.
It returned false for a disconnected connection as long as the signal had not
yet discarded it, and it read the blocker without holding the mutex that
protects it, racing with shared_connection_block::block().
---
 include/boost/signals2/connection.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..8543ea8 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,16 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
+        bool blocked()
         {
-          return !_weak_blocker.expired();
+          // a slot whose tracked objects have expired is disconnected
+          if(connected() == false) return true;
+          unique_lock<connection_body_base> local_lock(*this);
+          return nolock_nograb_blocked();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || !_weak_blocker.expired();
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
-- 
2.43.0


From ba90d5e74d6d694e70c5aef4642c0b6d0cf96b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 04/20] fix: set_combiner during an invocation leaves that
 invocation alone

It either assigned to the very combiner object a running invocation was using,
or made a new state sharing the slot list with the running invocation; the
next connect then modified the list under the feet of that invocation, which
called the new slot or used freed memory.
---
 .../boost/signals2/detail/signal_template.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index ef2a7ea..c84f59e 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -308,9 +308,17 @@ namespace boost
         {
           unique_lock<mutex_type> lock(*_mutex);
           if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
-          else
-            _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+          {
+            /* The combiner object may still be in use by an invocation which
+            shares it with us, so replace it instead of assigning to it. */
+            _shared_state->reset_combiner(combiner_arg);
+          }else
+          {
+            /* Copy the slot list too.  If the new state shared it with an invocation
+            in progress, we would later take it for our own and modify it. */
+            _shared_state = boost::make_shared<invocation_state>(_shared_state->connection_bodies(), combiner_arg);
+            _garbage_collector_it = _shared_state->connection_bodies().end();
+          }
         }
       private:
         typedef Mutex mutex_type;
@@ -391,14 +399,11 @@ namespace boost
             _connection_bodies(new connection_list_type(connections_in)),
             _combiner(other._combiner)
           {}
-          invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
-            _combiner(new combiner_type(combiner_in))
-          {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          void reset_combiner(const combiner_type &combiner_in) { _combiner.reset(new combiner_type(combiner_in)); }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From 0178f8f3ce555a28b4de5c4a378fa7f77ca6fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 05/20] fix: keep the implementation alive if a slot destroys
 its signal

---
 include/boost/signals2/detail/signal_template.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index c84f59e..f04465c 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -735,11 +735,14 @@ namespace boost
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS))
       {
-        return (*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        // keep the implementation alive even if a slot destroys this signal
+        const shared_ptr<impl_class> local_pimpl(_pimpl);
+        return (*local_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS)) const
       {
-        return static_cast<const impl_class &>(*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        const shared_ptr<const impl_class> local_pimpl(_pimpl);
+        return (*local_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       std::size_t num_slots() const
       {
-- 
2.43.0


From cd729d0b7c272a5e599579ca2eb602c92b982778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 06/20] fix: leave the slot list unchanged if connecting throws

---
 .../boost/signals2/detail/signal_template.hpp |  3 +++
 include/boost/signals2/detail/slot_groups.hpp | 23 ++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index f04465c..a34222c 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -445,6 +445,8 @@ namespace boost
           BOOST_ASSERT(_shared_state.unique());
           typename connection_list_type::iterator it;
           unsigned i;
+          // keep _garbage_collector_it valid in case an exception is thrown
+          _garbage_collector_it = begin;
           for(it = begin, i = 0;
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
             ++i)
@@ -456,6 +458,7 @@ namespace boost
             if(connected == false)
             {
               it = _shared_state->connection_bodies().erase((*it)->group_key(), it);
+              _garbage_collector_it = it;
             }else
             {
               ++it;
diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 946b349..7b704d4 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -11,6 +11,7 @@
 #ifndef BOOST_SIGNALS2_SLOT_GROUPS_HPP
 #define BOOST_SIGNALS2_SLOT_GROUPS_HPP
 
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/signals2/connection.hpp>
 #include <boost/optional.hpp>
 #include <list>
@@ -183,20 +184,26 @@ namespace boost {
         void m_insert(const map_iterator &map_it, const group_key_type &key, const ValueType &value)
         {
           iterator list_it = get_list_iterator(map_it);
+          // comparing keys may throw, so do it before changing anything
+          const bool group_exists = map_it != _group_map.end() && weakly_equivalent(key, map_it->first);
           iterator new_it = _list.insert(list_it, value);
-          if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
+          if(group_exists)
           {
-            _group_map.erase(map_it);
+            map_it->second = new_it;
+            return;
           }
-          map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+          BOOST_TRY
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
+            /* this does nothing if key's group already exists, that is if we
+              are inserting at its back */
             _group_map.insert(typename map_type::value_type(key, new_it));
           }
+          BOOST_CATCH(...)
+          {
+            _list.erase(new_it);
+            BOOST_RETHROW
+          }
+          BOOST_CATCH_END
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From 5fcbf2eed43ebbdace031b352439898b31350d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 07/20] fix: a failed cleanup of dead slots must not terminate
 the program

---
 include/boost/signals2/detail/signal_template.hpp | 10 +++++++++-
 include/boost/signals2/preprocessed_signal.hpp    |  1 +
 include/boost/signals2/variadic_signal.hpp        |  1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index a34222c..fd6159e 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -428,7 +428,15 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {
+                // The cleanup is optional, it may be left to a later call.
+              }
+              BOOST_CATCH_END
             }
           }
         private:
diff --git a/include/boost/signals2/preprocessed_signal.hpp b/include/boost/signals2/preprocessed_signal.hpp
index aa810ea..6a68223 100644
--- a/include/boost/signals2/preprocessed_signal.hpp
+++ b/include/boost/signals2/preprocessed_signal.hpp
@@ -17,6 +17,7 @@
 
 #include <boost/config.hpp>
 #include <boost/core/enable_if.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/preprocessor/arithmetic.hpp>
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/control/expr_if.hpp>
diff --git a/include/boost/signals2/variadic_signal.hpp b/include/boost/signals2/variadic_signal.hpp
index 6bb20e5..b455d5d 100644
--- a/include/boost/signals2/variadic_signal.hpp
+++ b/include/boost/signals2/variadic_signal.hpp
@@ -17,6 +17,7 @@
 #define BOOST_SIGNALS2_VARIADIC_SIGNAL_HPP
 
 #include <boost/core/enable_if.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/preprocessor/control/expr_if.hpp>
 #include <boost/signals2/detail/variadic_arg_type.hpp>
 #include <boost/signals2/detail/variadic_slot_invoker.hpp>
-- 
2.43.0


From 90b96a78f6a7a3e6935523634f8a28f58c15c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 08/20] fix: disconnect(signal) in the preprocessed
 implementation

---
 .../boost/signals2/detail/signal_template.hpp | 19 +++++++++++++------
 .../boost/signals2/preprocessed_signal.hpp    |  1 +
 include/boost/signals2/variadic_signal.hpp    |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index fd6159e..0beecc2 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -850,17 +850,24 @@ namespace boost
             shared_pimpl(_weak_pimpl.lock());
           return (*shared_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
         }
-        bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
-          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
+        template <typename T>
+        bool contains(const T &other) const
         {
-          return _weak_pimpl.lock().get() == signal._pimpl.get(); 
+          return m_contains(boost::addressof(other));
         }
-        template <typename T>
-        bool contains(const T&) const
+      private:
+        typedef BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> signal_class;
+        // takes a pointer so it is chosen for classes derived from signal_class too
+        bool m_contains(const signal_class *signal) const
+        {
+          return _weak_pimpl.lock().get() == signal->_pimpl.get();
+        }
+        bool m_contains(...) const
         {
           return false;
         }
-      private:
+
         boost::weak_ptr<detail::BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> > _weak_pimpl;
       };
diff --git a/include/boost/signals2/preprocessed_signal.hpp b/include/boost/signals2/preprocessed_signal.hpp
index 6a68223..f6ac27b 100644
--- a/include/boost/signals2/preprocessed_signal.hpp
+++ b/include/boost/signals2/preprocessed_signal.hpp
@@ -16,6 +16,7 @@
 #define BOOST_SIGNALS2_PREPROCESSED_SIGNAL_HPP
 
 #include <boost/config.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/preprocessor/arithmetic.hpp>
diff --git a/include/boost/signals2/variadic_signal.hpp b/include/boost/signals2/variadic_signal.hpp
index b455d5d..ce942d1 100644
--- a/include/boost/signals2/variadic_signal.hpp
+++ b/include/boost/signals2/variadic_signal.hpp
@@ -16,6 +16,7 @@
 #ifndef BOOST_SIGNALS2_VARIADIC_SIGNAL_HPP
 #define BOOST_SIGNALS2_VARIADIC_SIGNAL_HPP
 
+#include <boost/core/addressof.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/preprocessor/control/expr_if.hpp>
-- 
2.43.0


From abc0bd9349762e4795c91156d8ebc43a0ed53686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 09/20] fix: auto_buffer::insert in the middle moves the tail
 backwards

---
 include/boost/signals2/detail/auto_buffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 6ce59e4..25a4c75 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -431,7 +431,7 @@ namespace detail
                 {
                     grow_back( n );
                     iterator where = const_cast<T*>(before);
-                    std::copy( before, cend() - n, where + n );
+                    std::copy_backward( before, cend() - n, end() );
                     assign_impl( begin_arg, end_arg, where );
                 }
                 else
@@ -845,7 +845,7 @@ namespace detail
                 if( !is_back_insertion )
                 {
                     grow_back_one();
-                    std::copy( before, cend() - 1u, where + 1u );
+                    std::copy_backward( before, cend() - 1u, end() );
                     *where = x;
                     BOOST_ASSERT( is_valid() );
                  }
@@ -874,7 +874,7 @@ namespace detail
             {
                 grow_back( n );
                 iterator where = const_cast<T*>(before);
-                std::copy( before, cend() - n, where + n );
+                std::copy_backward( before, cend() - n, end() );
                 std::fill( where, where + n, x );
                 BOOST_ASSERT( is_valid() );
                 return;
-- 
2.43.0


From be49361f9c3c3e28ad540fc09dea5bc960baf844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 10/20] fix: auto_buffer constructors free their memory if
 copying an element throws

---
 include/boost/signals2/detail/auto_buffer.hpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 25a4c75..5c893aa 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -488,7 +488,12 @@ namespace detail
               buffer_( allocate( members_.capacity_ ) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( r.begin(), r.end(), buffer_ );
+            guard.dismiss();
             size_ = r.size_;
             BOOST_ASSERT( is_valid() );
         }
@@ -548,7 +553,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             std::uninitialized_fill( buffer_, buffer_ + size_arg, init_value );
+            guard.dismiss();
             size_ = size_arg;
             BOOST_ASSERT( is_valid() );
         }
@@ -569,7 +579,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             std::uninitialized_fill( buffer_, buffer_ + size_arg, init_value );
+            guard.dismiss();
             size_ = size_arg;
             BOOST_ASSERT( is_valid() );
         }
@@ -581,7 +596,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( begin_arg, end_arg, buffer_ );
+            guard.dismiss();
             size_ = members_.capacity_;
             if( members_.capacity_ < N )
                 members_.capacity_ = N;
@@ -596,7 +616,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( begin_arg, end_arg, buffer_ );
+            guard.dismiss();
             size_ = members_.capacity_;
             if( members_.capacity_ < N )
                 members_.capacity_ = N;
-- 
2.43.0


From df34b19cd04eefe971a917c4f1bfc071d9951fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 11/20] fix: auto_buffer stays valid if assignment throws

---
 include/boost/signals2/detail/auto_buffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 5c893aa..941b3e1 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -521,7 +521,10 @@ namespace detail
                     // @remark: we release memory as early as possible
                     //          since we only give the basic guarantee
                     auto_buffer_destroy();
-                    buffer_ = 0;
+                    // be a valid empty buffer if something below throws
+                    members_.capacity_ = N;
+                    buffer_            = static_cast<T*>(members_.address());
+                    size_              = 0u;
                     pointer new_buffer = allocate( r.size() );
                     scope_guard guard = make_obj_guard( *this,
                                                         &auto_buffer::deallocate,
-- 
2.43.0


From ee14e02f60b2bfcac2e21c3d276ef66f417d641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 12/20] fix: auto_buffer may be full after erasing an empty
 range

---
 include/boost/signals2/detail/auto_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 941b3e1..f7838af 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -985,7 +985,7 @@ namespace detail
                            const_cast<T*>(from) );
             }
             pop_back_n( std::distance(from,to) );
-            BOOST_ASSERT( !full() );
+            BOOST_ASSERT( from == to || !full() );
             iterator result = const_cast<T*>( from );
             BOOST_ASSERT( result <= end() );
             return result;
-- 
2.43.0


From 1919bd732d82cec8649627bcaeac4314f85eeab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 13/20] fix: auto_buffer does not pass null pointers to memcpy

---
 include/boost/signals2/detail/auto_buffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index f7838af..a91ca8a 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -183,7 +183,8 @@ namespace detail
         static void copy_rai( const T* begin, const T* end,
                               pointer where, const boost::true_type& )
         {
-            std::memcpy( where, begin, sizeof(T) * std::distance(begin,end) );
+            if( begin != end ) // the pointers may be null if it is empty
+                std::memcpy( where, begin, sizeof(T) * std::distance(begin,end) );
         }
 
         template< class I, bool b >
@@ -215,7 +216,8 @@ namespace detail
         template< class I, class I2 >
         static void assign_impl( I begin, I end, I2 where, const boost::true_type& )
         {
-            std::memcpy( where, begin, sizeof(T) * std::distance(begin,end) );
+            if( begin != end ) // the pointers may be null if it is empty
+                std::memcpy( where, begin, sizeof(T) * std::distance(begin,end) );
         }
 
         template< class I, class I2 >
-- 
2.43.0


From 1eb357bf6cd4e379efe8277fe054ab58899cb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 14/20] fix: extended slots may take non-const references in
 the preprocessed implementation

---
 .../signals2/detail/signals_common_macros.hpp | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/boost/signals2/detail/signals_common_macros.hpp b/include/boost/signals2/detail/signals_common_macros.hpp
index acc0936..3f17522 100644
--- a/include/boost/signals2/detail/signals_common_macros.hpp
+++ b/include/boost/signals2/detail/signals_common_macros.hpp
@@ -99,14 +99,26 @@
 // prefixT1 & arg1, prefixT2 & arg2, ..., prefixTn & argn
 #define BOOST_SIGNALS2_PREFIXED_FULL_REF_ARGS(arity, prefix) \
   BOOST_PP_ENUM(arity, BOOST_SIGNALS2_PREFIXED_FULL_REF_ARG, prefix)
+#ifdef BOOST_NO_CXX11_RVALUE_REFERENCES
 // Tn & argn
-#define BOOST_SIGNALS2_FULL_CREF_ARG(z, n, data) \
-  const BOOST_PP_CAT(T, BOOST_PP_INC(n)) & BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
-// const T1 & arg1, const T2 & arg2, ..., const Tn & argn
+#define BOOST_SIGNALS2_FULL_FORWARD_ARG(z, n, data) \
+  BOOST_PP_CAT(T, BOOST_PP_INC(n)) & BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+// argn
+#define BOOST_SIGNALS2_FORWARDED_ARG(z, n, data) \
+  BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+#else
+// Tn && argn
+#define BOOST_SIGNALS2_FULL_FORWARD_ARG(z, n, data) \
+  BOOST_PP_CAT(T, BOOST_PP_INC(n)) && BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+// static_cast<Tn &&>(argn)
+#define BOOST_SIGNALS2_FORWARDED_ARG(z, n, data) \
+  static_cast<BOOST_PP_CAT(T, BOOST_PP_INC(n)) &&>(BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~))
+#endif
+// T1 && arg1, T2 && arg2, ..., Tn && argn
 #define BOOST_SIGNALS2_FULL_FORWARD_ARGS(arity) \
-  BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FULL_CREF_ARG, ~)
+  BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FULL_FORWARD_ARG, ~)
 #define BOOST_SIGNALS2_FORWARDED_ARGS(arity) \
-  BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(arity)
+  BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FORWARDED_ARG, ~)
 // preprocessed_arg_typeN
 #define BOOST_SIGNALS2_PREPROCESSED_ARG_N_TYPE_CLASS_NAME(arity) BOOST_PP_CAT(preprocessed_arg_type, arity)
 
-- 
2.43.0


From 2ebfd05a459d295e144306e25dc4af778542653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 15/20] fix: destroy temporary copies of an extended slot
 function after unlocking

connect_extended destroyed its copies of the user's slot function while it
held the mutex of the signal, so a destructor which used the signal
deadlocked.
---
 include/boost/signals2/detail/signal_template.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 0beecc2..ccafc45 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -176,9 +176,10 @@ namespace boost
         // connect extended slot
         connection connect_extended(const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<mutex_type> lock(*_mutex);
+          // these copies of the slot function must outlive the lock
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
           connection conn = nolock_connect(lock, slot, position);
           bound_slot.set_connection(conn);
           return conn;
@@ -186,9 +187,10 @@ namespace boost
         connection connect_extended(const group_type &group,
           const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<Mutex> lock(*_mutex);
+          // these copies of the slot function must outlive the lock
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<Mutex> lock(*_mutex);
           connection conn = nolock_connect(lock, group, slot, position);
           bound_slot.set_connection(conn);
           return conn;
-- 
2.43.0


From 4eda4366e61a4bae73ad82cc5786394a04899cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 16/20] fix: connected() must not destroy tracked objects under
 the mutex

connected() (and so num_slots(), empty() and blocked()) locked the tracked
objects into temporaries while it held the mutex of the signal.  If another
thread dropped the last other reference meanwhile, the object was destroyed
under the mutex and its destructor could deadlock.
---
 include/boost/signals2/connection.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 8543ea8..c5b8a8a 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -153,13 +153,14 @@ namespace boost
         virtual bool connected() const
         {
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          // does not lock the tracked objects, so none is destroyed here
+          disconnect_expired_slot(local_lock);
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
         void set_group_key(const GroupKey &key) {_group_key = key;}
         template<typename M>
-        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg)
+        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg) const
         {
           if(!m_slot) return;
           bool expired = slot().expired();
-- 
2.43.0


From fdf41533fcbc57ce33085c9e230890a6c1108b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 17/20] fix: disconnect(signal) must not destroy another signal
 under the mutex

weak_signal::contains locked the signal it wraps into a temporary while the
mutex of the calling signal was held; if its owner dropped it meanwhile, the
slots of the wrapped signal were destroyed under that mutex.
---
 include/boost/signals2/detail/signal_template.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index ccafc45..9a20d4a 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -863,7 +863,8 @@ namespace boost
         // takes a pointer so it is chosen for classes derived from signal_class too
         bool m_contains(const signal_class *signal) const
         {
-          return _weak_pimpl.lock().get() == signal->_pimpl.get();
+          // compares owners: locking could make us destroy a signal under a mutex
+          return !_weak_pimpl.owner_before(signal->_pimpl) && !signal->_pimpl.owner_before(_weak_pimpl);
         }
         bool m_contains(...) const
         {
-- 
2.43.0


From 4ccd37910da3eda425820d66298eacc6c80a7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 18/20] fix: set_combiner lets the slot list be cleaned up

A signal whose slots call set_combiner while it runs made a copy of the whole
slot list each time, disconnected slots included, and restarted the incremental
cleanup, so that disconnected slots piled up without limit. Also destroy the
replaced combiner after releasing the mutex.
---
 .../boost/signals2/detail/signal_template.hpp | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 9a20d4a..7ec06e3 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -308,19 +308,16 @@ namespace boost
         }
         void set_combiner(const combiner_type &combiner_arg)
         {
-          unique_lock<mutex_type> lock(*_mutex);
-          if(_shared_state.unique())
-          {
-            /* The combiner object may still be in use by an invocation which
-            shares it with us, so replace it instead of assigning to it. */
-            _shared_state->reset_combiner(combiner_arg);
-          }else
-          {
-            /* Copy the slot list too.  If the new state shared it with an invocation
-            in progress, we would later take it for our own and modify it. */
-            _shared_state = boost::make_shared<invocation_state>(_shared_state->connection_bodies(), combiner_arg);
-            _garbage_collector_it = _shared_state->connection_bodies().end();
-          }
+          // both the copying and the destruction of a combiner are done without the lock
+          shared_ptr<combiner_type> new_combiner(new combiner_type(combiner_arg));
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
+          /* An invocation in progress keeps its state.  Take a copy of the slot list too:
+          if we shared it with that invocation we would later take it for our own and
+          modify it. */
+          nolock_force_unique_connection_list(lock);
+          /* The combiner object may still be in use by an invocation which
+          shares it with us, so replace it instead of assigning to it. */
+          _shared_state->swap_combiner(new_combiner);
         }
       private:
         typedef Mutex mutex_type;
@@ -405,7 +402,7 @@ namespace boost
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
-          void reset_combiner(const combiner_type &combiner_in) { _combiner.reset(new combiner_type(combiner_in)); }
+          void swap_combiner(shared_ptr<combiner_type> &combiner_in) { _combiner.swap(combiner_in); }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From 29c452548f58618f393df05836402d5bd10876c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 19/20] fix: disconnect(signal) disconnects signals of other
 types and extended signals too

---
 include/boost/signals2/detail/signal_template.hpp | 12 ++----------
 include/boost/signals2/detail/signals_common.hpp  | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 7ec06e3..2024143 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -105,7 +105,7 @@ namespace boost
         template<typename T>
           bool contains(const T &other) const
         {
-          return _fun.contains(other);
+          return slot_function_contains(_fun, other, mpl::bool_<is_signal<T>::value>());
         }
       private:
         BOOST_SIGNALS2_BOUND_EXTENDED_SLOT_FUNCTION_N(BOOST_SIGNALS2_NUM_ARGS)()
@@ -546,7 +546,7 @@ namespace boost
           {
             garbage_collecting_lock<connection_body_base> lock(**it);
             if((*it)->nolock_nograb_connected() == false) continue;
-            if((*it)->slot().slot_function().contains(slot))
+            if(slot_function_contains((*it)->slot().slot_function(), slot, mpl::bool_<is_signal<T>::value>()))
             {
               (*it)->nolock_disconnect(lock);
             }else
@@ -556,14 +556,6 @@ namespace boost
               if(fp && fp->contains(slot))
               {
                 (*it)->nolock_disconnect(lock);
-              }else
-              { // check for wrapped signal
-                weak_signal_type *fp;
-                fp = (*it)->slot().slot_function().template target<weak_signal_type>();
-                if(fp && fp->contains(slot))
-                {
-                  (*it)->nolock_disconnect(lock);
-                }
               }
             }
           }
diff --git a/include/boost/signals2/detail/signals_common.hpp b/include/boost/signals2/detail/signals_common.hpp
index 4a2b699..47991c2 100644
--- a/include/boost/signals2/detail/signals_common.hpp
+++ b/include/boost/signals2/detail/signals_common.hpp
@@ -70,6 +70,21 @@ namespace boost {
         the_tag_type tag = the_tag_type();
         return tag;
       }
+
+      // Whether a slot function holds the given function object.
+      template<typename SlotFunction, typename T>
+      bool slot_function_contains(const SlotFunction &slot_function, const T &f, mpl::bool_<false> /* is_signal */)
+      {
+        return slot_function.contains(f);
+      }
+      // Slots hold signals as weak signals, see get_invocable_slot.
+      template<typename SlotFunction, typename T>
+      bool slot_function_contains(const SlotFunction &slot_function, const T &signal, mpl::bool_<true> /* is_signal */)
+      {
+        typedef typename T::weak_signal_type weak_signal_type;
+        const weak_signal_type *fp = slot_function.template target<weak_signal_type>();
+        return (fp && fp->contains(signal)) || slot_function.contains(signal);
+      }
     } // end namespace detail
   } // end namespace signals2
 } // end namespace boost
-- 
2.43.0


From 982c66ea82367fcd065f0d9fb84e8552ad596257 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 20/20] fix: disconnect(slot function) does not compare with
 slots whose tracked objects are gone

---
 include/boost/signals2/detail/signal_template.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 2024143..f034ff5 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -544,7 +544,10 @@ namespace boost
           for(it = local_state->connection_bodies().begin();
             it != local_state->connection_bodies().end(); ++it)
           {
+            // keeps alive what the slot function may refer to, must outlive the lock
+            typename slot_call_iterator_cache_type::tracked_ptrs_type tracked_ptrs;
             garbage_collecting_lock<connection_body_base> lock(**it);
+            (*it)->nolock_grab_tracked_objects(lock, std::back_inserter(tracked_ptrs));
             if((*it)->nolock_nograb_connected() == false) continue;
             if(slot_function_contains((*it)->slot().slot_function(), slot, mpl::bool_<is_signal<T>::value>()))
             {
-- 
2.43.0

