From a86ff2ca8400b2fcd3cf8572f756977c99a5f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 01/14] fix: dnmx_sv_cmp of views with the same begin and
 different lengths

---
 code/dnmx/bits/sv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..0f54064 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -81,7 +81,7 @@ static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
     // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
+    if (a.begin == b.begin && a.end == b.end) return 0;
     size_t alen = dnmx_sv_len(a);
     if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
-- 
2.43.0


From 7b2a4099493b9c47b1dcbb6cc735f50548f1d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 02/14] fix: register_type_class into a free slot

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..bac387d 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -348,7 +348,7 @@ public:
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
             else {
-                free_slot = &tc;
+                free_slot = &*i;
             }
         }
 
-- 
2.43.0


From 7e9ebfed16f498e7659a123955db4a2c5e2ccf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 03/14] fix: add(name, func) mutate op refers to a nonexistent
 member

---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From 56bf812124eab35e9938fa908984df157c5ff953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 04/14] fix: moved-out-from object keeps the sealed status

---
 code/dynamix/object.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index df3c647..c98a975 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -313,6 +313,7 @@ void object::usurp(object& other) noexcept {
     // clear other object
     other.m_type = &get_domain().get_empty_type();
     other.m_mixin_data = nullptr;
+    other.m_sealed = false;
 }
 
 }
-- 
2.43.0


From 45b82c8fbb07880bffc7a236cf5b3bab98b597e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 05/14] fix: dnmx_object_reset_type with null type on a sealed
 object throws through C

---
 code/dynamix/object-c.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..5405b91 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,19 +105,18 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
+        return dnmx_result_success;
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
-
-    return dnmx_result_success;
 }
 
 bool dnmx_object_is_empty(dnmx_const_object_handle ho) {
-- 
2.43.0


From ea78b2b7cc3e81e0a3d2cff7f75e89999fd2cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 06/14] fix: query with dependency mixins in a domain with no
 mutation rules is reported as cyclic

---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index bac387d..c62e0b4 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -474,7 +474,7 @@ public:
                 if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
-            if (i == max_depenency_depth || i == int(rules.size())) {
+            if (i == max_depenency_depth || i == std::max(int(rules.size()), 1)) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-- 
2.43.0


From b1fbb3187f60d8677e3843794ea074b70ca8c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 07/14] fix: object mutation to the empty type never completes

---
 code/dynamix/object_mutation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..54a1805 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -87,6 +87,12 @@ void object_mutation::deallocate_external_mixin(void* ptr, const mixin_info& inf
 void object_mutation::allocate_mixin_data() {
     assert(m_allocated_upto == 0);
 
+    if (m_target_type.num_mixins() == 0) {
+        // the empty type has no mixin data: nothing to allocate and nothing to update
+        m_complete = true;
+        return;
+    }
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         // we've somehow ended-up mutating the object with the same type
-- 
2.43.0


From 7aa601d2824d20ebe717526ee947720fc2092372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 08/14] fix: object mutations performed while unwinding are
 silently dropped

---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 2 +-
 code/dynamix/object_mutation.hpp | 7 +++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..766e451 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    const int m_uncaught_exceptions = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_uncaught_exceptions) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 54a1805..9a52697 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -48,7 +48,7 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..3273493 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -9,6 +9,8 @@
 #include "globals.hpp"
 #include "object_mutation_funcs.hpp"
 
+#include <exception>
+
 namespace dynamix {
 class object;
 
@@ -161,6 +163,11 @@ private:
 
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
+
+    // number of uncaught exceptions on construction
+    // needed to roll back only because of exceptions from the scope of the mutation
+    // and not because the mutation itself is performed while unwinding another one
+    const int m_uncaught_exceptions = std::uncaught_exceptions();
 };
 
 // utility funcs for the most common use cases:
-- 
2.43.0


From 12e45816cc7aceaa3b1f230de781e8ea02f663eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 09/14] fix: update_at accepts an out of range index

---
 code/dynamix/object_mutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 3273493..815b7c7 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -86,7 +86,7 @@ public:
     // with domain_settings::canonicalize_types set to true, this might get tricky
     template <typename ConstructNew_Func, typename UpdateCommon_Func>
     void update_at(mixin_index_t index, ConstructNew_Func&& construct_new, UpdateCommon_Func&& update_common) {
-        if (index < m_updated_upto || index > m_target_type.num_mixins()) {
+        if (index < m_updated_upto || index >= m_target_type.num_mixins()) {
             throw_bad_piecewise_mutation();
         }
         default_construct_each_new_mixin(index);
-- 
2.43.0


From e5beb8e1a3fa2ca478a54f6624dad1cdbff038ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 10/14] fix: multiple construct ops for a mixin are applied to
 the mixins after it

---
 code/dynamix/mutate_to.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..2109d4b 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -48,8 +48,8 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
         auto& op = **i;
-        obj_mut.default_construct_each_new_mixin(op.mixin_index);
-        obj_mut.update_next_mixin([&op](init_new_args args) {
+        // this will throw if there is more than one op for the same mixin
+        obj_mut.update_at(op.mixin_index, [&op](init_new_args args) {
             op.do_init(args);
         }, util::noop_udpate_common_func);
     }
-- 
2.43.0


From 440f989e0171549b8842774d4fa977d3b8722bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 11/14] fix: construct by an unregistered name dereferences
 null

---
 code/dynamix/mutate_to_ops.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to_ops.hpp b/code/dynamix/mutate_to_ops.hpp
index 31fa002..31d7937 100644
--- a/code/dynamix/mutate_to_ops.hpp
+++ b/code/dynamix/mutate_to_ops.hpp
@@ -20,6 +20,7 @@ struct construct_mixin_op_with_func_by_name final : public object_mutate_op_with
     {}
     object_mutate_op* to_obj_mutate(object& obj) {
         this->affected_info = obj.get_domain().get_mixin_info(name);
+        if (!this->affected_info) return nullptr; // no such mixin: not applicable
         return this;
     }
 };
-- 
2.43.0


From 0df62e2f30408b637f01426ec71af0423f031fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 12/14] fix: unregistering a foreign mixin drops own types with
 the same mixin id

---
 code/dynamix/domain.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index c62e0b4..2ce5449 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -285,6 +285,14 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        {
+            // mixin is not our own?
+            // check before touching anything: the id of a foreign mixin may match one of our own
+            auto reg = m_element_registry.shared_lock();
+            auto& sparse_mixins = reg->sparse_mixins;
+            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
+        }
+
         {
             auto treg = m_type_registry.unique_lock();
             // since this mixin is no longer valid
-- 
2.43.0


From 1c9a9dbf8782b91162d67938d505414934bf4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:27 +0000
Subject: [PATCH 13/14] fix: fallback memory resource truncates sizes to 32
 bits

---
 code/dynamix/compat/pmr/memory_resource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/compat/pmr/memory_resource.cpp b/code/dynamix/compat/pmr/memory_resource.cpp
index a70b082..23b6cbe 100644
--- a/code/dynamix/compat/pmr/memory_resource.cpp
+++ b/code/dynamix/compat/pmr/memory_resource.cpp
@@ -22,7 +22,9 @@ class default_resource final : public memory_resource {
         if (alignment < sizeof_ptr) alignment = sizeof_ptr;
 #endif
         // aligned_alloc requires size to be a multiple of alignment
-        auto size = dynamix::util::next_multiple(bytes, alignment);
+        // note that util::next_multiple can't be used, as it works with byte_size_t, which may be smaller than size_t
+        const std::size_t size = (bytes + alignment - 1) / alignment * alignment;
+        if (size < bytes) throw std::bad_alloc{}; // overflow
         void* ret = aligned_alloc(alignment, size);
 #endif
         if (!ret) throw std::bad_alloc{};
-- 
2.43.0


From cac689a30ed364cea5d9ab4fee9094e4596996ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:27 +0000
Subject: [PATCH 14/14] fix: fallback allocator lets the size of an array wrap
 around

---
 code/dynamix/compat/pmr/allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/compat/pmr/allocator.hpp b/code/dynamix/compat/pmr/allocator.hpp
index 91e4e85..4aee386 100644
--- a/code/dynamix/compat/pmr/allocator.hpp
+++ b/code/dynamix/compat/pmr/allocator.hpp
@@ -12,6 +12,8 @@ using allocator = itlib::pmr_allocator<T>;
 }
 #else
 #include "memory_resource.hpp"
+#include <limits>
+#include <new>
 
 namespace dynamix::compat::pmr {
 template <typename T = std::byte>
@@ -37,6 +39,7 @@ public:
     memory_resource* resource() const noexcept { return &m_resource; };
 
     [[nodiscard]] T* allocate(std::size_t n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) throw std::bad_array_new_length{};
         return static_cast<T*>(m_resource.allocate(n * sizeof(T), alignof(T)));
     }
     void deallocate(T* p, std::size_t n) {
-- 
2.43.0

