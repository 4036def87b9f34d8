From 2553736e0c1d901098ae19c39e0ce5cbaac62d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 01/26] fix: shared_ptr assignment must not read the source
 after releasing the old object

p = p->next released the only owner of the node and then read p->next out of it.
---
 code/xmem/basic_shared_ptr.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..edaca53 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,7 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this); // r may be owned by our current object: release last
         return *this;
     }
 
@@ -40,8 +39,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +48,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -61,8 +58,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 8c500d90b68d91d46aaa790cc75ad8af975af597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 02/26] fix: shared_ptr reset must detach before releasing

When the pointer is a member of the object that it owns, its destructor released the
same reference again and reset then wrote to the freed object.
---
 code/xmem/basic_shared_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index edaca53..c08fcb6 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -97,8 +97,9 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        auto cb = m.cb;
+        m.reset(); // detach first: releasing may run code which gets back to this pointer
+        if (cb) cb->dec_strong_ref(this);
     }
 
     template <typename U>
-- 
2.43.0


From 0dea12c45aca24b969b9bcbcd7e593c25c8d6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 03/26] fix: assigning a unique_ptr to a shared_ptr must leave
 it intact if allocation fails

The old reference was released before the control block was allocated, and released
once more by the destructor after a bad_alloc.
---
 code/xmem/basic_shared_ptr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index c08fcb6..2fc046b 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -69,8 +69,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From a54a5924abb5c09d38e4fe1c33dd2ca8f243e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 04/26] fix: a failed shared_from must not release a reference
 it never took

Called while the object is being destroyed it underflowed the strong count, so that weak
pointers to the dead object appeared alive. The const shared_from_this also announced its
result to the control block twice.
---
 code/xmem/basic_shared_from.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..ddd7de8 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -26,25 +26,17 @@ protected:
     basic_enable_shared_from(const basic_enable_shared_from&) : m(nullptr) {}
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
-    sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
-    }
-    sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
-    }
+    sptr<void> shared_from_this() { return shared_from<void>(m.ptr); }
+    sptr<const void> shared_from_this() const { return shared_from<const void>(m.ptr); }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<T> ret;
+        if (!m.cb || !m.cb->inc_strong_ref_nz(&ret)) return ret; // not owning: nothing for ret to release
+        ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 6adc2b16bc4f461442fe36b56b4f4d96c704f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 05/26] fix: no shared_from setup through a null pointer

shared_ptr<T>((T*)nullptr) crashed for types with enable_shared_from.
---
 code/xmem/common_control_block.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..8033ff0 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,11 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ptr) {
+                ebf_type* ebf = ptr;
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From 36d481968bc0b12c3e4e669e103296a7d9d0b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 06/26] fix: construct objects in place even if they overload
 operator&

---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 8033ff0..05919a9 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     [[nodiscard]] T* obj() {
-        return &m_obj;
+        return std::addressof(m_obj);
     }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
-- 
2.43.0


From 976bc5d504371529c727a8733807e45ae0755670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 07/26] fix: free the memory if a control block constructor
 throws

---
 code/xmem/common_control_block.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 05919a9..9a1fef8 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -67,7 +67,13 @@ public:
     [[nodiscard]] static control_block_resource_ptr create(Alloc a) {
         auto myalloc = get_self_alloc(a);
         auto self = myalloc.allocate(1);
+        struct mem_guard { // the control block constructor may throw
+            self_alloc_type& alloc;
+            control_block_resource* mem;
+            ~mem_guard() { if (mem) alloc.deallocate(mem, 1); }
+        } guard{myalloc, self};
         new (self) control_block_resource(std::move(a));
+        guard.mem = nullptr;
         return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
 
-- 
2.43.0


From d3fbca458992acae375c7812a7693677bd5abea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 08/26] fix: allocator must not return a short block when the
 size overflows

---
 code/xmem/allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/xmem/allocator.hpp b/code/xmem/allocator.hpp
index de67253..c2edac3 100644
--- a/code/xmem/allocator.hpp
+++ b/code/xmem/allocator.hpp
@@ -20,6 +20,7 @@ public:
     static inline constexpr std::align_val_t align_val{alignof(T)};
 
     [[nodiscard]] T* allocate(size_t n) {
+        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length();
         auto ret = ::operator new(n * sizeof(T), align_val);
         return reinterpret_cast<T*>(ret);
     }
-- 
2.43.0


From 8527db951a2dd1f17127766ee33a1301abdb84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 09/26] fix: shared_ptr<T[]> must use delete[] for raw pointers

---
 code/xmem/basic_shared_ptr.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 2fc046b..7942515 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -77,7 +77,7 @@ public:
     basic_shared_ptr(std::nullptr_t, D d) : basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}
 
     template <typename U>
-    explicit basic_shared_ptr(U* p) : basic_shared_ptr(unique_ptr<U>(p)) {}
+    explicit basic_shared_ptr(U* p) : basic_shared_ptr(default_uptr<U>(p)) {}
 
     template <typename U, typename D>
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
@@ -103,7 +103,7 @@ public:
 
     template <typename U>
     void reset(U* u) {
-        operator=(unique_ptr<U>(u));
+        operator=(default_uptr<U>(u));
     }
 
     template <typename U, typename D>
@@ -153,6 +153,10 @@ public:
     }
 
 private:
+    // shared_ptr<T[]> must delete[]
+    template <typename U>
+    using default_uptr = unique_ptr<U, default_delete<std::conditional_t<std::is_array_v<T>, U[], U>>>;
+
     // not new! rc taken care of from the outside
     explicit basic_shared_ptr(const cb_ptr_pair_type& cbptr) noexcept : m(cbptr) {}
 
-- 
2.43.0


From f257aff8fd4b5e86e8cd886ac95511f4b79822d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 10/26] fix: unique_ptr swap must swap the deleters along with
 the pointers

---
 code/xmem/unique_ptr.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..74c9a1f 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        if constexpr (!std::is_empty_v<D>) std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +175,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +238,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +291,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        if constexpr (!std::is_empty_v<D>) std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 50cf0e5f5787bf8943b24d8df238d3cf2f7626f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 11/26] fix: converting from unique_ptr<T, D&> must not move
 from the referenced deleter

---
 code/xmem/unique_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 74c9a1f..e2f0549 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -81,11 +81,11 @@ public:
     unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}
 
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::forward<D2>(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        get_deleter() = std::forward<D2>(other.get_deleter());
         return *this;
     }
 
-- 
2.43.0


From 52601fb2038326ddb573c61d8f98f7fb21300fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 12/26] fix: unique_ptr<T, D&> must not refer to a deleter
 stored in the source

---
 code/xmem/unique_ptr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index e2f0549..d4fbf56 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -159,9 +159,12 @@ public:
     }
 
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {
+        static_assert(std::is_lvalue_reference_v<D2>, "the deleter would dangle: it is stored in the source");
+    }
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
+        static_assert(std::is_lvalue_reference_v<D2>, "the deleter would dangle: it is stored in the source");
         reset(other.release());
         m_deleter = &other.get_deleter();
         return *this;
-- 
2.43.0


From 7ce9f3e264f88cf8657ea05ecaa1de61fff104e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 13/26] fix: accept function deleters which take a base or void
 pointer

The static_assert tested the conversion in the wrong direction and rejected
unique_ptr<T, void(*)(void*)>.
---
 code/xmem/unique_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index d4fbf56..fc89406 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -194,7 +194,7 @@ public:
 
 template <typename T, typename B>
 class unique_ptr<T, void(*)(B*)> : public impl::uptr_common<T*> {
-    static_assert(std::is_convertible_v<B*, T*>, "unique_ptr type needs to be convertible to deleter type");
+    static_assert(std::is_convertible_v<T*, B*>, "unique_ptr type needs to be convertible to deleter type");
     using common = impl::uptr_common<T*>;
     void (*m_deleter)(B*);
 public:
-- 
2.43.0


From dab4a118d2ad89ee1fa4460b18d14a8381385bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 14/26] fix: compare_exchange must not destroy objects while
 holding the lock

A failed compare_exchange released the old value of expect inside of the critical section:
a destructor which uses the same storage deadlocked.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 2 ++
 code/xmem/std_helpers.hpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..aa05365 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,12 +38,14 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
+        shared_pointer_type prev; // release the previous value of expect only after unlocking
         impl::spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
+            prev.swap(expect);
             expect = m_ptr;
             return false;
         }
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..048792f 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,12 +121,14 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
+        sptr prev; // release the previous value of expect only after unlocking
         xmem::impl::spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
+            prev.swap(expect);
             expect = m_ptr;
             return false;
         }
-- 
2.43.0


From 3e1bc8666fd6d9ee0db5b5fb09d41e4ccdc1193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 15/26] fix: converting an expired weak_ptr must not access the
 dead object

The conversion to a virtual base reads the vtable pointer of the object.
---
 code/xmem/basic_weak_ptr.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 49735e6..7f35aeb 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -28,14 +28,16 @@ public:
         return *this;
     }
 
+    // converting the pointer may read the object (if it has virtual bases) so lock it,
+    // and if it has expired, only keep the owner
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(r.m);
+        const auto alive = r.lock();
+        init_from_copy(cb_ptr_pair_type(r.m.cb, alive.get()));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(r.m);
+        basic_weak_ptr(r).swap(*this);
         return *this;
     }
 
@@ -51,12 +53,14 @@ public:
 
     template <typename U>
     basic_weak_ptr(basic_weak_ptr<CBF, U>&& r) noexcept {
-        init_from_move(r);
+        const auto alive = r.lock();
+        m = cb_ptr_pair_type(r.m.cb, alive.get());
+        r.m.reset();
+        if (m.cb) m.cb->transfer_weak(this, &r);
     }
     template <typename U>
     basic_weak_ptr& operator=(basic_weak_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_move(r);
+        basic_weak_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -153,8 +157,7 @@ private:
         if (m.cb) m.cb->inc_weak_ref(this);
     }
 
-    template <typename U>
-    void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
+    void init_from_move(basic_weak_ptr& r) noexcept {
         m = std::move(r.m);
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
-- 
2.43.0


From 5fcf5850459e37d7eb83b7ea221c4f670e340428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 16/26] fix: reset with a deleter must use that deleter

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 7942515..2da7e72 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -108,7 +108,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From e7db4e917a28b4debb7734ddd154aa0fdced7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 17/26] fix: unique_ptr<T, const D&> must not refer to a
 temporary deleter

---
 code/xmem/unique_ptr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index fc89406..df4b20e 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -139,7 +139,9 @@ public:
     using deleter_type = D&;
 
     unique_ptr(pointer p, D& d) noexcept : common(p), m_deleter(&d) {}
+    unique_ptr(pointer, D&&) = delete; // would dangle
     explicit unique_ptr(D& d) noexcept : common(nullptr), m_deleter(&d) {}
+    explicit unique_ptr(D&&) = delete; // would dangle
     ~unique_ptr() {
         if (this->m_ptr) {
             (*m_deleter)(this->m_ptr);
-- 
2.43.0


From 4b5ef7c02b6e4380443fa8cbc03f5e55add50463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 18/26] fix: include what the headers use

---
 code/xmem/bits/spinlock.hpp | 1 +
 code/xmem/cb_ptr_pair.hpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/code/xmem/bits/spinlock.hpp b/code/xmem/bits/spinlock.hpp
index 0df2422..686176b 100644
--- a/code/xmem/bits/spinlock.hpp
+++ b/code/xmem/bits/spinlock.hpp
@@ -3,6 +3,7 @@
 //
 #pragma once
 #include <atomic>
+#include <cstddef> // size_t
 #include <new>
 
 namespace xmem::impl {
diff --git a/code/xmem/cb_ptr_pair.hpp b/code/xmem/cb_ptr_pair.hpp
index f68c990..119b6e1 100644
--- a/code/xmem/cb_ptr_pair.hpp
+++ b/code/xmem/cb_ptr_pair.hpp
@@ -2,6 +2,8 @@
 // SPDX-License-Identifier: MIT
 //
 #pragma once
+#include <cstddef> // nullptr_t
+#include <utility> // swap
 
 namespace xmem {
 
-- 
2.43.0


From 0a78a00ef229d78ff0746d35e4e9d99b6de59085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 19/26] fix: allocator must report an overflowing size without
 exceptions of its own

---
 code/xmem/allocator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/xmem/allocator.hpp b/code/xmem/allocator.hpp
index c2edac3..e1f23f3 100644
--- a/code/xmem/allocator.hpp
+++ b/code/xmem/allocator.hpp
@@ -20,8 +20,9 @@ public:
     static inline constexpr std::align_val_t align_val{alignof(T)};
 
     [[nodiscard]] T* allocate(size_t n) {
-        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length();
-        auto ret = ::operator new(n * sizeof(T), align_val);
+        size_t size = n * sizeof(T);
+        if (n > size_t(-1) / sizeof(T)) size = size_t(-1) - (alignof(T) - 1); // no block is that large: new fails
+        auto ret = ::operator new(size, align_val);
         return reinterpret_cast<T*>(ret);
     }
     void deallocate(T* ptr, size_t) {
-- 
2.43.0


From 4744cca5e9f2e4f6e81a4e7b5c9d9b69982c75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 20/26] fix: define shared_ptr::reset with a deleter and an
 allocator

---
 code/xmem/basic_shared_ptr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 2da7e72..8a077a0 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -112,7 +112,10 @@ public:
     }
 
     template <typename U, typename D, typename A>
-    void reset(U* u, D d, A a);
+    void reset(U* u, D d, A a) {
+        unique_ptr<U, D> uptr(u, std::move(d));
+        basic_shared_ptr(cb_ptr_pair_type(CBF::make_uptr_cb(uptr, std::move(a)))).swap(*this);
+    }
 
     void swap(basic_shared_ptr& r) noexcept {
         // a self usurp check wouldn't be needed here in a conventional implementation,
-- 
2.43.0


From 3c779f0aa80872963146903df6b8c4f79806773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 21/26] fix: make_shared of const types and of types with an
 operator new of their own

---
 code/xmem/basic_shared_from.hpp    |  2 +-
 code/xmem/common_control_block.hpp | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ddd7de8..954fecf 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -17,7 +17,7 @@ class basic_enable_shared_from {
     friend CBF;
 
     using control_block_type = typename CBF::cb_type;
-    cb_ptr_pair<control_block_type, void> m;
+    mutable cb_ptr_pair<control_block_type, void> m; // mutable because the object may be const
 protected:
     basic_enable_shared_from() : m(nullptr) {}
     ~basic_enable_shared_from() = default;
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 9a1fef8..ae0a92b 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -72,7 +72,7 @@ public:
             control_block_resource* mem;
             ~mem_guard() { if (mem) alloc.deallocate(mem, 1); }
         } guard{myalloc, self};
-        new (self) control_block_resource(std::move(a));
+        ::new (static_cast<void*>(self)) control_block_resource(std::move(a));
         guard.mem = nullptr;
         return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
@@ -104,9 +104,10 @@ struct control_block_factory {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
             if (ptr) {
-                ebf_type* ebf = ptr;
+                auto obj = const_cast<std::remove_cv_t<T>*>(ptr);
+                const ebf_type* ebf = obj;
                 ebf->m.cb = cb;
-                ebf->m.ptr = ptr;
+                ebf->m.ptr = obj;
             }
         }
         return {cb, ptr};
@@ -117,25 +118,25 @@ struct control_block_factory {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) uptr_type(std::move(uptr));
+        ::new (static_cast<void*>(tmp->obj())) uptr_type(std::move(uptr));
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj()->get());
     }
 
     template <typename T, typename Alloc, typename... Args>
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
-        using rsrc_type = control_block_resource<cb_type, T, Alloc>;
+        using rsrc_type = control_block_resource<cb_type, std::remove_cv_t<T>, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void*>(tmp->obj())) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
 
     template <typename T, typename Alloc>
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
-        using rsrc_type = control_block_resource<cb_type, T, Alloc>;
+        using rsrc_type = control_block_resource<cb_type, std::remove_cv_t<T>, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T;
+        ::new (static_cast<void*>(tmp->obj())) std::remove_cv_t<T>;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From 3ec27f4cebab3f728bf7971c3d5676d614ada1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 22/26] fix: convert unique_ptr to an array into shared_ptr to
 an array

---
 code/xmem/basic_shared_ptr.hpp     | 1 +
 code/xmem/common_control_block.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 8a077a0..a10ba7a 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -64,6 +64,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr(unique_ptr<U, D>&& uptr) {
+        static_assert(!std::is_array_v<U> || std::is_convertible_v<U*, T*>, "an array can only be handed over as an array of the same type");
         init_new(CBF::make_uptr_cb(uptr));
     }
 
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index ae0a92b..6f73198 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -114,7 +114,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<T> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0


From 90096d2d772c0a7483cdd346e9061ce2a216176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:46 +0000
Subject: [PATCH 23/26] fix: let the deleter of a unique_ptr have a member
 called m_ptr

---
 code/xmem/unique_ptr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index df4b20e..a3ddf96 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -51,6 +51,7 @@ public:
 template <typename T, typename D = default_delete<T>>
 class unique_ptr : private impl::uptr_common<T*>, private D /* inherit from deleter to make use of EBO */ {
     using common = impl::uptr_common<T*>;
+    using common::m_ptr; // the deleter may have such a member, too
 public:
     using pointer = typename common::pointer;
     using element_type = T;
@@ -259,6 +260,7 @@ public:
 template <typename T, typename D>
 class unique_ptr<T[], D> : private impl::uptr_common<T*>, private D /* inherit from deleter to make use of EBO */ {
     using common = impl::uptr_common<T*>;
+    using common::m_ptr; // the deleter may have such a member, too
 public:
     using pointer = typename common::pointer;
     using element_type = T;
-- 
2.43.0


From 2960b47dc270e651a07c31010925461c393e7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:46 +0000
Subject: [PATCH 24/26] fix: arrays of arrays in shared_ptr

---
 code/xmem/basic_shared_ptr.hpp     | 2 +-
 code/xmem/common_control_block.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index a10ba7a..2a9f383 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -64,7 +64,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr(unique_ptr<U, D>&& uptr) {
-        static_assert(!std::is_array_v<U> || std::is_convertible_v<U*, T*>, "an array can only be handed over as an array of the same type");
+        static_assert(!std::is_array_v<U> || std::extent_v<U> != 0 || std::is_convertible_v<U*, T*>, "an array can only be handed over as an array of the same type");
         init_new(CBF::make_uptr_cb(uptr));
     }
 
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 6f73198..7ed592d 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -114,7 +114,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_pointer_t<typename unique_ptr<T, Del>::pointer>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0


From 18db1c0abcdeb808d4f87eb044742f8137f988b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 25/26] fix: alias and cast pointers to arrays

---
 code/xmem/basic_shared_ptr.hpp | 6 +++---
 code/xmem/basic_weak_ptr.hpp   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 2a9f383..e539a2a 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -84,7 +84,7 @@ public:
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
 
     template <typename U>
-    basic_shared_ptr(const basic_shared_ptr<CBF, U>& r, T* aptr) noexcept {
+    basic_shared_ptr(const basic_shared_ptr<CBF, U>& r, element_type* aptr) noexcept {
         init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));
     }
 
@@ -222,7 +222,7 @@ template <typename CBF, typename U, typename T>
 #define I_XMEM_MAKE_POINTER_CAST(cast) \
     template <typename T, typename CBF, typename U> \
     [[nodiscard]] basic_shared_ptr<CBF, T> cast##_pointer_cast(const basic_shared_ptr<CBF, U>& owner) { \
-        return make_aliased(owner, cast##_cast<T*>(owner.get())); \
+        return make_aliased(owner, cast##_cast<std::remove_extent_t<T>*>(owner.get())); \
     }
 
 I_XMEM_MAKE_POINTER_CAST(static)
@@ -232,7 +232,7 @@ I_XMEM_MAKE_POINTER_CAST(reinterpret)
 // not using the macro for dynamic_pointer_cast because we need to check for null
 template <typename T, typename CBF, typename U> \
 [[nodiscard]] basic_shared_ptr<CBF, T> dynamic_pointer_cast(const basic_shared_ptr<CBF, U>& owner) {
-    auto ptr = dynamic_cast<T*>(owner.get());
+    auto ptr = dynamic_cast<std::remove_extent_t<T>*>(owner.get());
     if (!ptr) return {};
     return make_aliased(owner, ptr);
 }
diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 7f35aeb..0df49b6 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -76,7 +76,7 @@ public:
     }
 
     template <typename U>
-    basic_weak_ptr(const basic_weak_ptr<CBF, U>& r, T* aptr) noexcept {
+    basic_weak_ptr(const basic_weak_ptr<CBF, U>& r, element_type* aptr) noexcept {
         if (!r) {
             m.reset();
             return;
@@ -84,7 +84,7 @@ public:
         init_from_copy(cb_ptr_pair_type(r.m.cb, aptr));
     }
     template <typename U>
-    basic_weak_ptr(const basic_shared_ptr<CBF, U>& sptr, T* aptr) noexcept {
+    basic_weak_ptr(const basic_shared_ptr<CBF, U>& sptr, element_type* aptr) noexcept {
         if (!sptr.m.cb) {
             m.reset();
             return;
-- 
2.43.0


From 0f37eccc3adb87a691b6d90e03f0e16162ee5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 26/26] fix: allocators of more than one parameter

---
 code/xmem/allocator_rebind.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/code/xmem/allocator_rebind.hpp b/code/xmem/allocator_rebind.hpp
index 2d9bf1b..27b6abc 100644
--- a/code/xmem/allocator_rebind.hpp
+++ b/code/xmem/allocator_rebind.hpp
@@ -7,12 +7,9 @@
 namespace xmem {
 
 template <typename Alloc>
-struct allocator_rebind;
-
-template <template <typename> class Alloc, typename T>
-struct allocator_rebind<Alloc<T>> {
+struct allocator_rebind {
     template <typename U>
-    using to = Alloc<U>;
+    using to = typename std::allocator_traits<Alloc>::template rebind_alloc<U>;
 };
 
 }
-- 
2.43.0

