From a032038f58be23f4c130c5157473c9e453d60623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 01/34] fix: linuxaio requests ignored the result the kernel
 reported for the I/O

A failed or incomplete asynchronous transfer completed as if it had succeeded.
---
 include/stxxl/bits/io/linuxaio_request.h |  2 ++
 lib/io/linuxaio_queue.cpp                |  5 +++
 lib/io/linuxaio_request.cpp              | 40 ++++++++++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 6ee20e5..b074023 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -60,6 +60,8 @@ public:
     bool post();
     bool cancel();
     bool cancel_aio();
+    //! Evaluate the result the kernel reported for the finished I/O.
+    void check_result(long long res);
     void completed(bool posted, bool canceled);
     void completed(bool canceled) { completed(true, canceled); }
 };
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 08bc72d..59182e3 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -182,6 +182,11 @@ void linuxaio_queue::handle_events(io_event* events, long num_events, bool cance
     {
         // unsigned_type is as long as a pointer, and like this, we avoid an icpc warning
         request_ptr* r = reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(events[e].data));
+        if (!canceled)
+        {
+            // polymorphic_downcast, notice errors and incomplete transfers
+            dynamic_cast<linuxaio_request*>(r->get())->check_result(events[e].res);
+        }
         r->get()->completed(canceled);
         delete r;              // release auto_ptr reference
         num_free_events++;
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 464acc6..85354da 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -19,6 +19,8 @@
 #include <stxxl/bits/verbose.h>
 #include <stxxl/bits/common/error_handling.h>
 
+#include <cstring>
+#include <sstream>
 #include <unistd.h>
 #include <sys/syscall.h>
 
@@ -46,6 +48,44 @@ void linuxaio_request::completed(bool posted, bool canceled)
     request_with_state::completed(canceled);
 }
 
+//! Checks the result of the finished I/O: number of bytes transferred, or
+//! negative error code. Records an error unless the request was served
+//! completely.
+void linuxaio_request::check_result(long long res)
+{
+    if (res == static_cast<long long>(m_bytes))
+        return;
+
+    try
+    {
+        if (m_type == READ && res > 0 && static_cast<size_type>(res) < m_bytes &&
+            m_offset + static_cast<offset_type>(res) == m_file->size())
+        {
+            // read request extends past end-of-file
+            // fill reminder with zeroes
+            memset(static_cast<char*>(m_buffer) + res, 0, m_bytes - static_cast<size_type>(res));
+            return;
+        }
+    }
+    catch (const io_error& ex)
+    {
+        error_occured(ex.what());
+        return;
+    }
+
+    std::ostringstream msg;
+    msg << "Error in linuxaio_request :"
+        << " this=" << this
+        << " offset=" << m_offset
+        << " buffer=" << m_buffer
+        << " bytes=" << m_bytes
+        << " type=" << ((m_type == READ) ? "READ" : "WRITE")
+        << " result=" << res;
+    if (res < 0)
+        msg << " : " << strerror(static_cast<int>(-res));
+    error_occured(msg.str());
+}
+
 void linuxaio_request::fill_control_block()
 {
     linuxaio_file* af = dynamic_cast<linuxaio_file*>(m_file);
-- 
2.43.0


From 5ae05b279e9ec4aae7acef6a177a4c4ff3437948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 02/34] fix: onoff_switch did not re-check its state after a
 spurious wakeup

---
 include/stxxl/bits/common/onoff_switch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/onoff_switch.h b/include/stxxl/bits/common/onoff_switch.h
index 2d87fa3..df6393f 100644
--- a/include/stxxl/bits/common/onoff_switch.h
+++ b/include/stxxl/bits/common/onoff_switch.h
@@ -61,14 +61,14 @@ public:
     void wait_for_on()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (!m_on)
+        while (!m_on)
             m_cond.wait(lock);
     }
     //! wait for switch to turn OFF
     void wait_for_off()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (m_on)
+        while (m_on)
             m_cond.wait(lock);
     }
     //! return true if switch is ON
-- 
2.43.0


From bb0c8c2908e2fb2439c2bbf063578b186126e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 03/34] fix: cancelling a request could deadlock with the
 worker thread of its queue

The canceller waited for the queue's semaphore while holding the queue's mutex,
which the worker needs in order to give a prematurely taken token back.
---
 lib/io/linuxaio_queue.cpp          | 5 ++++-
 lib/io/request_queue_impl_1q.cpp   | 6 +++++-
 lib/io/request_queue_impl_qwqr.cpp | 7 +++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 59182e3..ea8f49a 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -106,12 +106,15 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
         if (pos != waiting_requests.end())
         {
             waiting_requests.erase(pos);
+            lock.unlock();
 
             // polymorphic_downcast to linuxaio_request,
             // request is canceled, but was not yet posted.
             dynamic_cast<linuxaio_request*>(req.get())->completed(false, true);
 
-            num_waiting_requests--; // will never block
+            // must not hold waiting_mtx here: if the posting thread already
+            // took the request's token, it needs the mutex to give it back.
+            num_waiting_requests--;
             return true;
         }
     }
diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 554978a..b102c45 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -96,10 +96,14 @@ bool request_queue_impl_1q::cancel_request(request_ptr& req)
         {
             m_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // must not hold the queue mutex here: if the worker already took the
+    // request's token, it needs the mutex in order to give the token back.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 27e471d..e1437e9 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -114,7 +114,6 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_read_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
     else
@@ -127,10 +126,14 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_write_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // must not hold a queue mutex here: if the worker already took the request's
+    // token, it needs the mutex in order to give the token back.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
-- 
2.43.0


From 4c522d90523009cfdd710526e7ea13c07ae4580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 04/34] fix: linuxaio_queue doubled instead of halving the
 number of events when the kernel has too few

---
 lib/io/linuxaio_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index ea8f49a..5e06a81 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -50,7 +50,7 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
     while ((result = syscall(SYS_io_setup, max_events, &context)) == -1 &&
            errno == EAGAIN && max_events > 1)
     {
-        max_events <<= 1;               // try with half as many events
+        max_events >>= 1;               // try with half as many events
     }
     if (result != 0) {
         STXXL_THROW_ERRNO(io_error, "linuxaio_queue::linuxaio_queue"
-- 
2.43.0


From 6aefc027ce16810a669796cc272ccb3053817e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 05/34] fix: linuxaio_queue's posting thread failed when a
 signal interrupted io_getevents

---
 lib/io/linuxaio_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 5e06a81..3c003da 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -157,6 +157,10 @@ void linuxaio_queue::post_requests()
                 // wait for at least one event to complete, no time limit
                 long num_events = syscall(SYS_io_getevents, context, 1, max_events, events, NULL);
                 if (num_events < 0) {
+                    // io_getevents may return prematurely in case a signal is received
+                    if (errno == EINTR)
+                        continue;
+
                     STXXL_THROW_ERRNO(io_error, "linuxaio_queue::post_requests"
                                       " io_getevents() nr_events=" << num_events);
                 }
-- 
2.43.0


From 1c83558620559f11769a5cba1de397f540ca54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 06/34] fix: linuxaio_request leaked a reference to itself
 whenever io_submit failed

---
 lib/io/linuxaio_request.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 85354da..d2b97b2 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -123,9 +123,17 @@ bool linuxaio_request::post()
         else
             stats::get_instance()->write_started(m_bytes, now);
     }
-    else if (success == -1 && errno != EAGAIN)
-        STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
-                          " io_submit()");
+    else
+    {
+        // not submitted, the I/O system does not retain the reference
+        int err = errno;
+        delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
+        errno = err;
+
+        if (success == -1 && errno != EAGAIN)
+            STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
+                              " io_submit()");
+    }
 
     return success == 1;
 }
-- 
2.43.0


From 29bff7406945703c005c6d219371a26d7ef1ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 07/34] fix: wbtl_file changed its free space without holding
 the mapping mutex

---
 lib/io/wbtl_file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 310d76a..d150798 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -271,8 +271,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
             STXXL_VERBOSE_WBTL("wbtl:w2disk  p" << FMT_A_S(buffer_address[curbuf], write_block_size));
 
             // mark remaining part as free
-            if (curpos < write_block_size)
+            if (curpos < write_block_size) {
+                scoped_mutex_lock mapping_lock(mapping_mutex);
                 _add_free_region(buffer_address[curbuf] + curpos, write_block_size - curpos);
+            }
 
             if (backend_request.get()) {
                 backend_request->wait(false);
@@ -283,7 +285,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
 
         curbuf = 1 - curbuf;
 
-        buffer_address[curbuf] = get_next_write_block();
+        {
+            scoped_mutex_lock mapping_lock(mapping_mutex);
+            buffer_address[curbuf] = get_next_write_block();
+        }
         curpos = 0;
     }
     assert(bytes <= write_block_size - curpos);
-- 
2.43.0


From 9685e105a30b81339fb384935475d1c41b3fbf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 08/34] fix: wbtl_file freed a write buffer while it was still
 being written

---
 lib/io/wbtl_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index d150798..5be9f42 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -49,6 +49,9 @@ wbtl_file::wbtl_file(
 
 wbtl_file::~wbtl_file()
 {
+    // the last write to the backend may still use its write buffer
+    if (backend_request.get())
+        backend_request->wait(false);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[1]);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[0]);
     delete storage;
-- 
2.43.0


From 5055d340cc00a69ad7ac7126116c273c4712252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 09/34] fix: block_manager discarded a block after another
 thread could already have received it

---
 include/stxxl/bits/mng/block_manager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 4e1514a..a5d7280 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -246,8 +246,10 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
         return;  // self managed disk
     STXXL_VERBOSE_BLOCK_LIFE_CYCLE("BLC:delete " << FMT_BID(bid));
     assert(bid.storage->get_allocator_id() >= 0);
-    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
+    // discard first: as soon as the allocator got the block back, another
+    // thread may receive and write it
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
+    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
     m_current_allocation -= BlockSize;
-- 
2.43.0


From f6ddbe8d4f39403edc9f49c60f74fc6fef6b87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 10/34] fix: wait_any left its local switch registered with
 requests when one of them had failed

---
 include/stxxl/bits/io/request_operations.h | 42 ++++++++++++++--------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4d04828..5fa2c54 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -109,33 +109,45 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
 
     RequestIterator cur = reqs_begin, result = reqs_end;
 
-    for ( ; cur != reqs_end; cur++)
+    try
     {
-        if ((request_ptr(*cur))->add_waiter(&sw))
+        for ( ; cur != reqs_end; cur++)
         {
-            // request is already done, no waiter was added to the request
-            result = cur;
-
-            if (cur != reqs_begin)
+            if ((request_ptr(*cur))->add_waiter(&sw))
             {
-                while (--cur != reqs_begin)
-                    (request_ptr(*cur))->delete_waiter(&sw);
-
-                (request_ptr(*cur))->delete_waiter(&sw);
+                // request is already done, no waiter was added to the request
+                result = cur;
+                break;
             }
+        }
+    }
+    catch (...)
+    {
+        // no waiter was added to the failed request
+        while (cur != reqs_begin)
+            (request_ptr(*--cur))->delete_waiter(&sw);
+        throw;
+    }
 
-            (request_ptr(*result))->check_errors();
+    if (result != reqs_end)
+    {
+        while (cur != reqs_begin)
+            (request_ptr(*--cur))->delete_waiter(&sw);
 
-            return result;
-        }
+        (request_ptr(*result))->check_errors();
+
+        return result;
     }
 
     sw.wait_for_on();
 
+    // sw must not remain registered anywhere when poll() throws an error
     for (cur = reqs_begin; cur != reqs_end; cur++)
-    {
         (request_ptr(*cur))->delete_waiter(&sw);
-        if (result == reqs_end && (request_ptr(*cur))->poll())
+
+    for (cur = reqs_begin; result == reqs_end && cur != reqs_end; cur++)
+    {
+        if ((request_ptr(*cur))->poll())
             result = cur;
     }
 
-- 
2.43.0


From 6c76fe8631fca796555034f4496abcd0190f4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 11/34] fix: allocation statistics of the block manager and
 disk allocator were read and written without a lock

---
 include/stxxl/bits/mng/block_manager.h  | 21 ++++++++++++++++++---
 include/stxxl/bits/mng/disk_allocator.h |  5 ++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index a5d7280..d4708e3 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -42,6 +42,7 @@
 #include <stxxl/bits/mng/disk_allocator.h>
 #include <stxxl/bits/mng/block_alloc.h>
 #include <stxxl/bits/mng/config.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/common/simple_vector.h>
 
@@ -69,6 +70,9 @@ class block_manager : public singleton<block_manager>
     block_manager();
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    //! protects the allocation counters
+    mutable mutex m_allocation_mutex;
+
     //! total requested allocation in bytes
     uint64 m_total_allocation;
 
@@ -170,15 +174,24 @@ public:
 #if STXXL_MNG_COUNT_ALLOCATION
     //! return total requested allocation in bytes
     uint64 get_total_allocation() const
-    { return m_total_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_total_allocation;
+    }
 
     //! return currently allocated bytes
     uint64 get_current_allocation() const
-    { return m_current_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_current_allocation;
+    }
 
     //! return maximum number of bytes allocated during program run.
     uint64 get_maximum_allocation() const
-    { return m_maximum_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_maximum_allocation;
+    }
 #endif // STXXL_MNG_COUNT_ALLOCATION
 };
 
@@ -229,6 +242,7 @@ void block_manager::new_blocks_int(
     }
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_total_allocation += nblocks * BIDType::size;
     m_current_allocation += nblocks * BIDType::size;
     m_maximum_allocation = STXXL_MAX(m_maximum_allocation, m_current_allocation);
@@ -252,6 +266,7 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
     disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_current_allocation -= BlockSize;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 }
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 59ad085..3c2209e 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -56,7 +56,7 @@ class disk_allocator : private noncopyable
 
     typedef std::map<stxxl::int64, stxxl::int64> sortseq;
 
-    stxxl::mutex mutex;
+    mutable stxxl::mutex mutex;
     sortseq free_space;
     stxxl::int64 free_bytes;
     stxxl::int64 disk_bytes;
@@ -105,16 +105,19 @@ public:
 
     inline int64 get_free_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return free_bytes;
     }
 
     inline int64 get_used_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes - free_bytes;
     }
 
     inline int64 get_total_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes;
     }
 
-- 
2.43.0


From 146f3661736b1b874972811cd1bc09bbfb35c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 12/34] fix: mem_file::size() read the size without the lock
 that set_size() holds

---
 lib/io/mem_file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/io/mem_file.cpp b/lib/io/mem_file.cpp
index 065ee50..c85d90c 100644
--- a/lib/io/mem_file.cpp
+++ b/lib/io/mem_file.cpp
@@ -55,6 +55,7 @@ void mem_file::lock()
 
 file::offset_type mem_file::size()
 {
+    scoped_mutex_lock lock(m_mutex);
     return m_size;
 }
 
-- 
2.43.0


From 1d2de37fec168fe0cfe415cc70d5e29c5c546738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 13/34] fix: a failed block allocation kept the blocks it had
 already taken

When one disk could not provide its blocks, block_manager::new_blocks left the
blocks of the other disks allocated; disk_allocator::new_blocks did the same
with the first half of a fragmented allocation. Nobody holds the identifiers of
these blocks, so they were lost until the program ended.
---
 include/stxxl/bits/mng/block_manager.h  | 11 ++++++++++-
 include/stxxl/bits/mng/disk_allocator.h | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index d4708e3..54e7de7 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -226,7 +226,16 @@ void block_manager::new_blocks_int(
         if (bl[i])
         {
             disk_bids[i].resize(bl[i]);
-            disk_allocators[i]->new_blocks(disk_bids[i]);
+            try {
+                disk_allocators[i]->new_blocks(disk_bids[i]);
+            }
+            catch (...) {
+                // do not keep the blocks other disks already provided
+                for (unsigned_type d = 0; d < i; ++d)
+                    for (int_type b = 0; b < bl[d]; ++b)
+                        disk_allocators[d]->delete_block(disk_bids[d][b]);
+                throw;
+            }
         }
     }
 
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 3c2209e..2ca7d13 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -243,7 +243,15 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
 
     BID<BlockSize>* middle = begin + ((end - begin) / 2);
     new_blocks(begin, middle);
-    new_blocks(middle, end);
+    try {
+        new_blocks(middle, end);
+    }
+    catch (...) {
+        // do not keep the first half of a failed allocation
+        for ( ; begin != middle; ++begin)
+            delete_block(*begin);
+        throw;
+    }
 }
 
 //! \}
-- 
2.43.0


From bfe690db7607fb8e4540101f661915e98ef44e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 14/34] fix: vector::resize(n, true) frees the blocks it gives
 up

---
 include/stxxl/bits/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d87be88..63415a7 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1149,7 +1149,7 @@ private:
             if (m_from != NULL)
                 m_from->set_size(new_bids_size * block_type::raw_size);
             else
-                m_bm->delete_blocks(m_bids.begin() + old_bids_size, m_bids.end());
+                m_bm->delete_blocks(m_bids.begin() + new_bids_size, m_bids.end());
 
             m_bids.resize(new_bids_size);
 
-- 
2.43.0


From b777f4e884ad2c4b2027f3b3dbe6ade1e0685ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 15/34] fix: shrinking a vector left the pages it gives up in
 the cache

---
 include/stxxl/bits/containers/vector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 63415a7..d47fa4b 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1153,13 +1153,16 @@ private:
 
             m_bids.resize(new_bids_size);
 
-            // don't resize m_page_to_slot or m_page_status, because it is
-            // still needed to check page status and match the mapping
-            // m_slot_to_page
+            // don't resize m_page_to_slot or m_page_status, but evict the
+            // pages given up from the cache, so they will be never written
 
-            // clear dirty flag, so these pages will be never written
-            std::fill(m_page_status.begin() + new_pages_size,
-                      m_page_status.end(), (unsigned char)valid_on_disk);
+            for (size_t i = new_pages_size; i < m_page_status.size(); ++i) {
+                if (m_page_to_slot[i] != on_disk) {
+                    m_free_slots.push(m_page_to_slot[i]);
+                    m_page_to_slot[i] = on_disk;
+                }
+                m_page_status[i] = uninitialized;
+            }
         }
 
         m_size = n;
-- 
2.43.0


From 821e1c871c70e5efbba5178fe7c56cd3908d9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 16/34] fix: a failed vector::reserve changed the capacity

---
 include/stxxl/bits/containers/vector.h | 42 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d47fa4b..d4b15ab 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1062,28 +1062,40 @@ public:
         unsigned_type old_bids_size = m_bids.size();
         unsigned_type new_bids_size = (unsigned_type)div_ceil(n, block_type::size);
         unsigned_type new_pages = div_ceil(new_bids_size, page_size);
+        unsigned_type old_pages = m_page_status.size();
         m_page_status.resize(new_pages, uninitialized);
         m_page_to_slot.resize(new_pages, on_disk);
 
         m_bids.resize(new_bids_size);
-        if (m_from == NULL)
-        {
-            m_bm->new_blocks(m_alloc_strategy,
-                             m_bids.begin() + old_bids_size, m_bids.end(),
-                             old_bids_size);
-        }
-        else
+        try
         {
-            size_type offset = size_type(old_bids_size) * size_type(block_type::raw_size);
-            for (bids_container_iterator it = m_bids.begin() + old_bids_size;
-                 it != m_bids.end(); ++it, offset += size_type(block_type::raw_size))
+            if (m_from == NULL)
             {
-                (*it).storage = m_from;
-                (*it).offset = offset;
+                m_bm->new_blocks(m_alloc_strategy,
+                                 m_bids.begin() + old_bids_size, m_bids.end(),
+                                 old_bids_size);
             }
-            STXXL_VERBOSE_VECTOR("reserve(): Changing size of file " <<
-                                 ((void*)m_from) << " to " << offset);
-            m_from->set_size(offset);
+            else
+            {
+                size_type offset = size_type(old_bids_size) * size_type(block_type::raw_size);
+                for (bids_container_iterator it = m_bids.begin() + old_bids_size;
+                     it != m_bids.end(); ++it, offset += size_type(block_type::raw_size))
+                {
+                    (*it).storage = m_from;
+                    (*it).offset = offset;
+                }
+                STXXL_VERBOSE_VECTOR("reserve(): Changing size of file " <<
+                                     ((void*)m_from) << " to " << offset);
+                m_from->set_size(offset);
+            }
+        }
+        catch (...)
+        {
+            // capacity() is unchanged if the allocation fails
+            m_bids.resize(old_bids_size);
+            m_page_status.resize(old_pages, uninitialized);
+            m_page_to_slot.resize(old_pages, on_disk);
+            throw;
         }
     }
 
-- 
2.43.0


From 1dfbf7467905964cef7b03511282b58dff556aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 17/34] fix: swapping two B+-tree caches exchanged their nodes
 but not the dirty flags

---
 include/stxxl/bits/containers/btree/node_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/btree/node_cache.h b/include/stxxl/bits/containers/btree/node_cache.h
index 69cbfd3..4377eae 100644
--- a/include/stxxl/bits/containers/btree/node_cache.h
+++ b/include/stxxl/bits/containers/btree/node_cache.h
@@ -565,12 +565,13 @@ public:
         change_btree_pointers(m_btree);
         obj.change_btree_pointers(obj.m_btree);
         std::swap(m_fixed, obj.m_fixed);
+        std::swap(m_dirty, obj.m_dirty);
         std::swap(m_free_nodes, obj.m_free_nodes);
         std::swap(m_bid2node, obj.m_bid2node);
         std::swap(m_pager, obj.m_pager);
         std::swap(m_alloc_strategy, obj.m_alloc_strategy);
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_created, obj.n_created);
         std::swap(n_deleted, obj.n_deleted);
         std::swap(n_read, obj.n_read);
-- 
2.43.0


From fbe5fb1f1874abe7736d698db004331beec0b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 18/34] fix: hash map iterators released blocks in the cache
 that they had not retained

---
 include/stxxl/bits/containers/hash_map/util.h | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index ff31eb6..8917ede 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -130,9 +130,19 @@ private:
 
     //! current block dirty ?
     bool dirty_;
+    //! current block retained in the cache by this reader ?
+    bool retained_;
     //! current subblock
     subblock_type* subblock_;
 
+    //! Release the current block, if this reader retained it.
+    void release_current()
+    {
+        if (retained_)
+            cache_.release_block(*curr_bid_);
+        retained_ = false;
+    }
+
 public:
     //! Create a new buffered reader to read the blocks in [seq_begin, seq_end)
     //! \param seq_begin First block's bid
@@ -152,6 +162,7 @@ public:
           page_size_(tuning::get_instance()->prefetch_page_size),
           prefetch_pages_(tuning::get_instance()->prefetch_pages),
           dirty_(false),
+          retained_(false),
           subblock_(NULL)
     {
         if (seq_begin == seq_end)
@@ -166,8 +177,7 @@ public:
 
     ~buffered_reader()
     {
-        if (curr_bid_ != end_bid_)
-            cache_.release_block(*curr_bid_);
+        release_current();
     }
 
     void enable_prefetching()
@@ -221,7 +231,7 @@ public:
         // entered new block
         else
         {
-            cache_.release_block(*curr_bid_);
+            release_current();
 
             i_value_ = 0;
             dirty_ = false;
@@ -230,7 +240,14 @@ public:
             if (curr_bid_ == end_bid_)
                 return false;
 
-            cache_.retain_block(*curr_bid_);
+            // a block that is not cached has to be loaded before it can be
+            // retained
+            retained_ = cache_.retain_block(*curr_bid_);
+            if (!retained_)
+            {
+                subblock_ = cache_.get_subblock(*curr_bid_, 0);
+                retained_ = cache_.retain_block(*curr_bid_);
+            }
 
             // if a complete page has been consumed, prefetch the next one
             if (prefetch_ && (curr_bid_ - begin_bid_) % page_size_ == 0)
@@ -270,7 +287,7 @@ public:
         if (bid != curr_bid_)
             dirty_ = false;
 
-        cache_.release_block(*curr_bid_);
+        release_current();
 
         if (bid == end_bid_)
             return;
@@ -293,7 +310,7 @@ public:
         // skip to subblock
         i_value_ = i_subblock * subblock_size;
         subblock_ = cache_.get_subblock(*curr_bid_, i_subblock);
-        cache_.retain_block(*curr_bid_);
+        retained_ = cache_.retain_block(*curr_bid_);
     }
 };
 
-- 
2.43.0


From 1726206800ee645cecbf965622b9b877a7d36844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 19/34] fix: swapping two hash map block caches mixed up their
 statistics

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 03663d9..539f420 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -544,7 +544,7 @@ public:
         std::swap(pager_, obj.pager_);
 
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_read, obj.n_read);
         std::swap(n_written, obj.n_written);
         std::swap(n_clean_forced, obj.n_clean_forced);
-- 
2.43.0


From 47931438db92f1d2e9ac6a8225f0145cc0d6870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 20/34] fix: a block kicked from the hash map's block cache was
 read again before it was written

---
 .../bits/containers/hash_map/block_cache.h    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 539f420..ea7cec7 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -41,6 +41,7 @@ public:
 protected:
     std::vector<block_type*> blocks_;
     std::vector<request_ptr> reqs_;
+    std::vector<bid_type> bids_;
     std::vector<unsigned_type> free_blocks_;
     std::list<unsigned_type> busy_blocks_; // TODO make that a circular-buffer
 
@@ -50,6 +51,7 @@ public:
         blocks_.reserve(size);
         free_blocks_.reserve(size);
         reqs_.resize(size);
+        bids_.resize(size);
 
         for (unsigned_type i = 0; i < size; i++) {
             blocks_.push_back(new block_type());
@@ -77,11 +79,24 @@ public:
 
         blocks_[i_buffer] = write_block;
         reqs_[i_buffer] = blocks_[i_buffer]->write(bid);
+        bids_[i_buffer] = bid;
         busy_blocks_.push_back(i_buffer);
 
         return buffer;
     }
 
+    //! Waits until no write to the given block is pending any more; has to be
+    //! called before the block is read or written again.
+    void wait_for(const bid_type& bid)
+    {
+        for (std::list<unsigned_type>::const_iterator i = busy_blocks_.begin();
+             i != busy_blocks_.end(); ++i)
+        {
+            if (bids_[*i] == bid && reqs_[*i].valid())
+                reqs_[*i]->wait();
+        }
+    }
+
     void flush()
     {
         while (!busy_blocks_.empty()) {
@@ -100,6 +115,7 @@ public:
     {
         std::swap(blocks_, obj.blocks_);
         std::swap(reqs_, obj.reqs_);
+        std::swap(bids_, obj.bids_);
         std::swap(free_blocks_, obj.free_blocks_);
         std::swap(busy_blocks_, obj.busy_blocks_);
     }
@@ -406,6 +422,9 @@ public:
             if (free_blocks_.empty())
                 kick_block();
 
+            // the block may have been kicked just before
+            write_buffer_.wait_for(bid);
+
             i_block = free_blocks_.back(), free_blocks_.pop_back();
             block = blocks_[i_block];
 
@@ -454,6 +473,9 @@ public:
             if (free_blocks_.empty())
                 kick_block();
 
+            // the block may have been kicked just before
+            write_buffer_.wait_for(bid);
+
             i_block = free_blocks_.back(), free_blocks_.pop_back();
 
             bid_map_[bid] = i_block;
-- 
2.43.0


From 1b21bd1c668d1480ce6a87c31fee96cc908eedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 21/34] fix: clearing the hash map's block cache left writes to
 the cleared blocks pending

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index ea7cec7..d6ee2c8 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -522,6 +522,9 @@ public:
             free_blocks_.push_back(i);
         }
         bid_map_.clear();
+
+        // the blocks may be freed and used for something else after this
+        write_buffer_.flush();
     }
 
     //! Print statistics: Number of hits/misses, blocks forced from cache or
-- 
2.43.0


From 781ffd476d2deadba122630fe1ca6850f70b4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 22/34] fix: flushing the hash map's block cache replaced the
 cached blocks by other ones

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index d6ee2c8..4db7d59 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -499,12 +499,18 @@ public:
             const unsigned_type i_block = (*i).second;
             if (dirty_[i_block])
             {
-                blocks_[i_block] =
-                    write_buffer_.write(blocks_[i_block], bids_[i_block]);
+                // the block stays in the cache, hence it must not be exchanged
+                // with one of the write buffer
+                reqs_[i_block] = blocks_[i_block]->write(bids_[i_block]);
 
                 dirty_[i_block] = false;
             }
         }
+        for (unsigned_type i = 0; i < size(); ++i)
+        {
+            if (reqs_[i].valid())
+                reqs_[i]->wait();
+        }
         write_buffer_.flush();
     }
 
-- 
2.43.0


From 0e464183a159cf7873a09ab496d0d48aed84e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 23/34] fix: swapping hash maps left their iterators pointing
 to the wrong map

---
 include/stxxl/bits/containers/hash_map/iterator_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator_map.h b/include/stxxl/bits/containers/hash_map/iterator_map.h
index 57555b3..14a800e 100644
--- a/include/stxxl/bits/containers/hash_map/iterator_map.h
+++ b/include/stxxl/bits/containers/hash_map/iterator_map.h
@@ -236,8 +236,8 @@ private:
 public:
     void swap(iterator_map<HashMap>& obj)
     {
+        // map_ is the hash_map owning this iterator_map, it stays
         std::swap(it_map_, obj.it_map_);
-        std::swap(map_, obj.map_);
 
         change_hash_map_pointers(map_);
         obj.change_hash_map_pointers(obj.map_);
-- 
2.43.0


From 7333f5cbf7ab31c8db11d3663e78776a25f1d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:59 +0000
Subject: [PATCH 24/34] fix: swapping maps did not exchange whether prefetching
 is enabled

---
 include/stxxl/bits/containers/btree/btree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stxxl/bits/containers/btree/btree.h b/include/stxxl/bits/containers/btree/btree.h
index fb14497..d36cd98 100644
--- a/include/stxxl/bits/containers/btree/btree.h
+++ b/include/stxxl/bits/containers/btree/btree.h
@@ -1067,6 +1067,7 @@ public:
         std::swap(m_end_iterator, obj.m_end_iterator);
         std::swap(m_size, obj.m_size);
         std::swap(m_height, obj.m_height);
+        std::swap(m_prefetching_enabled, obj.m_prefetching_enabled);
         std::swap(m_alloc_strategy, obj.m_alloc_strategy);
         std::swap(m_root_node, obj.m_root_node);
     }
-- 
2.43.0


From bf49cfaef12a0fa62c6fb8048b31c72c53cc7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 25/34] fix: hash map: the largest hash values fell into a
 bucket that does not exist

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 0759bd2..e473b6f 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -939,9 +939,11 @@ protected:
     {
         //! TODO maybe specialize double arithmetic to integer. the old code
         //! was faulty -tb.
-        return (internal_size_type)(
+        internal_size_type i_bucket = (internal_size_type)(
             (double)n * ((double)hash_(key) / (double)std::numeric_limits<internal_size_type>::max())
             );
+        // the largest hash values are rounded up to the maximum
+        return std::min<internal_size_type>(i_bucket, n - 1);
     }
 
     /*!
-- 
2.43.0


From b51460ecbeef7355f1962d8b2f7ec881e319091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:28 +0000
Subject: [PATCH 26/34] fix: hash map: operator[] did not count the elements it
 inserts

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index e473b6f..f92b34a 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -766,8 +766,9 @@ public:
             external_size_type i_external = result.first;
             value_type found_value = result.second;
 
+            bool found = (i_external < bucket.n_external_ && _eq(found_value.first, key));
             value_type buffer_value =
-                (i_external < bucket.n_external_ && _eq(found_value.first, key))
+                found
                 ? found_value
                 : value_type(key, mapped_type());
 
@@ -782,6 +783,11 @@ public:
             ++buffer_size_;
             // note that we already checked the buffer-size in (*)
 
+            if (found)
+                iterator_map_.fix_iterators_2int(i_bucket, key, new_node);
+            else
+                ++num_total_;
+
             return new_node->value_.second;
         }
     }
-- 
2.43.0


From 716606fdf97ff68b8b29bd358ac879c894e1355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 27/34] fix: hash map: looking up or inserting keys crashed
 while there were no buckets

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index f92b34a..a8a33cf 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -180,7 +180,7 @@ public:
              const allocator_type& a = allocator_type())
         : hash_(hf),
           cmp_(cmp),
-          buckets_(n),
+          buckets_(n > 0 ? n : 128),   // there is always a bucket to look into
           bids_(0),
           buffer_size_(0),
           iterator_map_(this),
@@ -1130,6 +1130,9 @@ protected:
         internal_size_type n_new;
         n_new = (internal_size_type)ceil((double)num_total_ / ((double)subblock_size * (double)opt_load_factor()));
 
+        if (n_new == 0)
+            n_new = 1;
+
         // ... but give the user the chance to request even more buckets
         if (n_desired > n_new)
             n_new = std::min<internal_size_type>(n_desired, max_bucket_count());
@@ -1330,6 +1333,8 @@ public:
         external_size_type n_buckets_new = (external_size_type)ceil((double)num_total_new / ((double)subblock_size * (double)opt_load_factor()));
         if (n_buckets_new > max_bucket_count())
             n_buckets_new = max_bucket_count();
+        if (n_buckets_new == 0)
+            n_buckets_new = 1;
 
         STXXL_VERBOSE_HASH_MAP("insert() items=" << (l - f) << " buckets_new=" << n_buckets_new);
 
-- 
2.43.0


From 4b898f1d68507ce5b9f137c1607de8ddda8d35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 28/34] fix: hash map: erasing absent keys obliviously made the
 next rebuild allocate a huge number of buckets

---
 .../stxxl/bits/containers/hash_map/hash_map.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index a8a33cf..2d92a16 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -1115,6 +1115,21 @@ protected:
         }
     };
 
+    //! Number of values as far as it is known. After using *oblivious-methods
+    //! num_total_ may be arbitrarily wrong (erasing absent keys makes it wrap),
+    //! it is then limited by the number of values and nodes actually stored.
+    external_size_type _num_total_estimate() const
+    {
+        if (!oblivious_)
+            return num_total_;
+
+        external_size_type stored = buffer_size_;
+        for (internal_size_type i_bucket = 0; i_bucket < buckets_.size(); i_bucket++)
+            stored += buckets_[i_bucket].n_external_;
+
+        return std::min<external_size_type>(num_total_, stored);
+    }
+
     /*  Rebuild hash-map. The desired number of buckets may be supplied. */
     void _rebuild_buckets(internal_size_type n_desired = 0)
     {
@@ -1128,7 +1143,7 @@ protected:
 
         // determine new number of buckets from desired load_factor ...
         internal_size_type n_new;
-        n_new = (internal_size_type)ceil((double)num_total_ / ((double)subblock_size * (double)opt_load_factor()));
+        n_new = (internal_size_type)ceil((double)_num_total_estimate() / ((double)subblock_size * (double)opt_load_factor()));
 
         if (n_new == 0)
             n_new = 1;
@@ -1329,7 +1344,7 @@ public:
         int_type write_buffer_size = config::get_instance()->disks_number() * 2;
 
         // calculate new number of buckets
-        external_size_type num_total_new = num_total_ + (l - f);         // estimated number of elements
+        external_size_type num_total_new = _num_total_estimate() + (l - f);         // estimated number of elements
         external_size_type n_buckets_new = (external_size_type)ceil((double)num_total_new / ((double)subblock_size * (double)opt_load_factor()));
         if (n_buckets_new > max_bucket_count())
             n_buckets_new = max_bucket_count();
-- 
2.43.0


From ed031085659769f0fa4b2d2fe00ad44011924f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 29/34] fix: moving deque iterators by a negative distance went
 to the wrong element

If the size of the underlying vector is no power of two, (offset + op) %
size is wrong for a negative op that steps over position zero.
---
 include/stxxl/bits/containers/deque.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 93dc654..90a26f5 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -88,7 +88,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -99,7 +99,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -125,12 +125,12 @@ public:
 
     reference operator [] (size_type op)
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
@@ -287,7 +287,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -298,7 +298,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -314,7 +314,7 @@ public:
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
-- 
2.43.0


From 1ae29fa92f283135e9ec10fe5e8d07d53187eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 30/34] fix: comparing deques ignored their sizes

---
 include/stxxl/bits/containers/deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 90a26f5..f83f6d0 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -696,7 +696,7 @@ public:
 template <class ValueType, class VectorType>
 bool operator == (const deque<ValueType, VectorType>& a, const deque<ValueType, VectorType>& b)
 {
-    return std::equal(a.begin(), a.end(), b.begin());
+    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
 }
 
 template <class ValueType, class VectorType>
-- 
2.43.0


From 8d50c04f9318f1de273eca2b03392694bdc38ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 31/34] fix: hash_map::equal_range returned an empty range for
 keys that are present

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 2d92a16..e257f42 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -725,8 +725,10 @@ public:
     //! \return range may be empty or contains exactly one value
     std::pair<iterator, iterator> equal_range(const key_type& key)
     {
-        iterator it = find(key);
-        return std::pair<iterator, iterator>(it, it);
+        iterator it = find(key), last = it;
+        if (last != end())
+            ++last;
+        return std::pair<iterator, iterator>(it, last);
     }
 
     //! Finds a range containing all values with given key. Const access
@@ -734,8 +736,10 @@ public:
     //! \return range may be empty or contains exactly one value
     std::pair<const_iterator, const_iterator> equal_range(const key_type& key) const
     {
-        const_iterator cit = find(key);
-        return std::pair<const_iterator, const_iterator>(cit, cit);
+        const_iterator cit = find(key), last = cit;
+        if (last != end())
+            ++last;
+        return std::pair<const_iterator, const_iterator>(cit, last);
     }
 
     //! Convenience operator to quickly insert or find values. Use with caution
-- 
2.43.0


From 7c3373483faf499d6b93c06ed59943d07d1ddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 32/34] fix: vector_bufwriter lost the last block before the
 vector grew

operator*() deleted the block stream at a block boundary without telling
the vector that the block just completed had been written, so that its
page was still taken as uninitialized and read back as garbage.
---
 include/stxxl/bits/containers/vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d4b15ab..b0197c7 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2498,6 +2498,8 @@ public:
 
                 if (m_iter.block_offset() != 0)
                     m_iter.block_externally_updated();
+                else if (m_prevblk != m_iter) // block was just completed
+                    m_prevblk.block_externally_updated();
             }
 
             vector_type& v = *m_iter.parent_vector();
-- 
2.43.0


From 919bf07c0ed2146c4416c714977badec3307b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 33/34] fix: copying a vector_iterator2stream_sr freed its
 stream twice

The copy constructor copied the owned pointers, which both destructors
deleted.
---
 include/stxxl/bits/stream/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 919ad46..a8e2c77 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -318,7 +318,8 @@ public:
     }
 
     vector_iterator2stream_sr(const self_type& a)
-        : vec_it_stream(a.vec_it_stream), it_stream(a.it_stream)
+        : vec_it_stream(a.vec_it_stream ? new vector_iterator2stream<InputIterator>(*a.vec_it_stream) : NULL),
+          it_stream(a.it_stream ? new iterator2stream<InputIterator>(*a.it_stream) : NULL)
     { }
 
     //! Standard stream method.
-- 
2.43.0


From d818a681745655284dbe5d25cfc8d9ec3a9e500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:18 +0000
Subject: [PATCH 34/34] fix: linuxaio_request recorded the start of a transfer
 after it could have ended

---
 lib/io/linuxaio_request.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index d2b97b2..caf9926 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -109,24 +109,24 @@ bool linuxaio_request::post()
 
     fill_control_block();
     iocb* cb_pointer = &cb;
-    // io_submit might considerable time, so we have to remember the current
-    // time before the call.
-    double now = timestamp();
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
-    long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
-    if (success == 1)
-    {
-        if (m_type == READ)
-            stats::get_instance()->read_started(m_bytes, now);
-        else
-            stats::get_instance()->write_started(m_bytes, now);
-    }
+    // The I/O may complete before io_submit returns, hence its start has to be
+    // recorded before.
+    if (m_type == READ)
+        stats::get_instance()->read_started(m_bytes);
     else
+        stats::get_instance()->write_started(m_bytes);
+    long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
+    if (success != 1)
     {
         // not submitted, the I/O system does not retain the reference
         int err = errno;
+        if (m_type == READ)
+            stats::get_instance()->read_canceled(m_bytes);
+        else
+            stats::get_instance()->write_canceled(m_bytes);
         delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
         errno = err;
 
-- 
2.43.0

