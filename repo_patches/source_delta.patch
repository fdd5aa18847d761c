From 827c3b1419d48a2ef0df4101af06e18ec92464bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:46 +0000
Subject: [PATCH 01/18] fix: forget the LRU history when a cache is cleared

clear() released all entries but left their nodes in the LRU list: the list grew with each reset, and later evictions followed stale pointers, evicting arbitrary (possibly the most recent) entries.
---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..74aad60 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -270,6 +270,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From 0b533a1250758934aa68a1abcb9de3b9bd496114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:03 +0000
Subject: [PATCH 02/18] fix: refuse to initialize two configurations that share
 a set of values

init() looked up the values manager under the wrong global pointer, so a second configuration with the same Values type silently replaced the values manager of the first one, and broke it when destroyed.
---
 sdd/manager.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..92b6553 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,7 +36,7 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     *global_values_ptr<values_type>() = vm_ptr.get();
-- 
2.43.0


From 91b3f690fa0b8ded058d4ee78d18f5d34163bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:18 +0000
Subject: [PATCH 03/18] fix: acquire the new data before releasing the old one
 when assigning a ptr

Self-assignment, and assignment from a handle stored inside the data being released (x = arc.valuation() where x owns the arc), read freed memory.
---
 sdd/mem/ptr.hh | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..cd8d39a 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <functional>  // hash, function
 #include <type_traits> // remove_const
+#include <utility>     // move, swap
 
 #include "sdd/mem/unique_table.hh"
 #include "sdd/util/hash.hh"
@@ -97,16 +98,9 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
-    if (x_ != nullptr)
-    {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
-      {
-        deletion_handler<Unique>()(x_);
-      }
-    }
-    x_ = other.x_;
-    x_->increment_reference_counter();
+    // Acquire first: 'other' may be *this, or live inside the data this ptr is about to release.
+    ptr tmp(other);
+    swap(*this, tmp);
     return *this;
   }
 
@@ -123,16 +117,9 @@ public:
   operator=(ptr&& other)
   noexcept
   {
-    if (x_ != nullptr)
-    {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
-      {
-        deletion_handler<Unique>()(x_);
-      }
-    }
-    x_ = other.x_;
-    other.x_ = nullptr;
+    // Acquire first: 'other' may be *this, or live inside the data this ptr is about to release.
+    ptr tmp(std::move(other));
+    swap(*this, tmp);
     return *this;
   }
 
-- 
2.43.0


From 3faea4f32be1c467a4c1ffe810afea24053d21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:18 +0000
Subject: [PATCH 04/18] fix: return a valid iterator from flat_set::insert

The returned iterator referred to a local copy of the set.
---
 sdd/values/flat_set.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index 158caba..192a55c 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -96,7 +96,8 @@ public:
       fs.shrink_to_fit();
       ptr_ = create(std::move(fs));
     }
-    return insertion;
+    // 'insertion.first' refers to the local copy.
+    return {ptr_->data().find(x), insertion.second};
   }
 
   /// @brief Returns an iterator pointing to the first element in the flat set.
-- 
2.43.0


From 155906bc6cf3516afd28115b5a94f25229eb46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:18 +0000
Subject: [PATCH 05/18] fix: make FORCE keep the order with the smallest span

The smallest span was never updated: the last computed order was always returned.
---
 sdd/order/strategies/force.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force.hh b/sdd/order/strategies/force.hh
index 59e5463..580ef24 100644
--- a/sdd/order/strategies/force.hh
+++ b/sdd/order/strategies/force.hh
@@ -60,7 +60,7 @@ public:
 
     // Keep a copy of the order with the smallest span.
     auto best_order = std::vector<std::reference_wrapper<vertex_type>>{sorted_vertices};
-    const auto smallest_span = std::numeric_limits<double>::max();
+    auto smallest_span = std::numeric_limits<double>::max();
 
     while (iterations-- != 0)
     {
@@ -99,6 +99,7 @@ public:
       if (span < smallest_span)
       {
         // We keep the order that minimizes the span.
+        smallest_span = span;
         best_order = sorted_vertices;
       }
     }
-- 
2.43.0


From a14e031a56b192651c48aff0bffdba1dc9f8d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:42 +0000
Subject: [PATCH 06/18] fix: support values above 63 in bitset comparison and
 hash

Both went through to_ulong(), which throws (in a noexcept function) as soon as a bit above the 63rd is set.
---
 sdd/values/bitset.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sdd/values/bitset.hh b/sdd/values/bitset.hh
index 30478c2..d44c42a 100644
--- a/sdd/values/bitset.hh
+++ b/sdd/values/bitset.hh
@@ -78,7 +78,14 @@ public:
   operator<(const bitset& lhs, const bitset& rhs)
   noexcept
   {
-    return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    for (std::size_t i = Size; i-- > 0;)
+    {
+      if (lhs.content_[i] != rhs.content_[i])
+      {
+        return rhs.content_[i];
+      }
+    }
+    return false;
   }
 
   bitset&
@@ -214,7 +221,7 @@ struct hash<sdd::values::bitset<Size>>
   operator()(const sdd::values::bitset<Size>& b)
   const noexcept
   {
-    return sdd::hash::seed(b.content_.to_ulong());
+    return sdd::hash::seed(b.content_);
   }
 };
   
-- 
2.43.0


From 3cb73c68dc996283bd9b4fa75f19ff615bfded96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:42 +0000
Subject: [PATCH 07/18] fix: regroup only selectors in the intersection of
 local homomorphisms

local(x,f) & local(x,g) is not local(x, f & g) when f and g are not selectors, as the images of distinct arcs may intersect: states were lost.
---
 sdd/hom/intersection.hh | 9 ++++++++-
 sdd/hom/rewrite.hh      | 7 ++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdd/hom/intersection.hh b/sdd/hom/intersection.hh
index 0948ffd..07dfe58 100644
--- a/sdd/hom/intersection.hh
+++ b/sdd/hom/intersection.hh
@@ -144,10 +144,17 @@ struct intersection_builder
   }
 
   /// @brief Regroup locals.
+  ///
+  /// Only selectors can be regrouped: otherwise, the images of two different arcs may intersect.
   void
-  operator()(const _local<C>& l, const homomorphism<C>&)
+  operator()(const _local<C>& l, const homomorphism<C>& h)
   const
   {
+    if (not l.h.selector())
+    {
+      operands_.insert(h);
+      return;
+    }
     auto insertion = locals_.emplace(l.target, hom_list_type{});
     insertion.first->second.emplace_back(l.h);
   }
diff --git a/sdd/hom/rewrite.hh b/sdd/hom/rewrite.hh
index 87c38bf..d5c4d9a 100644
--- a/sdd/hom/rewrite.hh
+++ b/sdd/hom/rewrite.hh
@@ -45,10 +45,11 @@ struct rewriter
   using hom_list_type = std::deque<homomorphism<C>>;
 
   /// @brief Get the F, G and L parts of a set of homomorphisms.
+  /// @param selectors_only Put in L only locals which are selectors.
   template <typename InputIterator>
   static
   std::tuple<hom_list_type, hom_list_type, hom_list_type, bool>
-  partition(const order<C>& o, InputIterator begin, InputIterator end)
+  partition(const order<C>& o, InputIterator begin, InputIterator end, bool selectors_only = false)
   {
     bool has_id = false;
     hom_list_type F;
@@ -64,7 +65,7 @@ struct rewriter
       {
         F.push_back(*begin);
       }
-      else if (mem::is<_local<C>>(*begin))
+      else if (mem::is<_local<C>>(*begin) and (not selectors_only or begin->selector()))
       {
         const _local<C>& l = mem::variant_cast<const _local<C>>(**begin);
         L.push_back(l.h);
@@ -115,7 +116,7 @@ struct rewriter
   operator()(const _intersection<C>& s, const homomorphism<C>& h, const order<C>& o)
   const
   {
-    auto&& p = partition(o, s.begin(), s.end());
+    auto&& p = partition(o, s.begin(), s.end(), true /* selectors_only */);
     auto& F = std::get<0>(p);
     auto& G = std::get<1>(p);
     auto& L = std::get<2>(p);
-- 
2.43.0


From 4dbbfeb5a342c51ff8bc14ffc70266bc414f4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:42 +0000
Subject: [PATCH 08/18] fix: don't truncate nodes with more than 65535 arcs

The number of arcs was stored on 16 bits: larger nodes silently lost most of their paths (and leaked them). It doesn't change the size of nodes, thanks to padding.
---
 sdd/conf/default_configurations.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/conf/default_configurations.hh b/sdd/conf/default_configurations.hh
index 40d6451..d43f495 100644
--- a/sdd/conf/default_configurations.hh
+++ b/sdd/conf/default_configurations.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <cstdint> // uint16_t, uint32_t
+#include <cstdint> // uint32_t
 #include <string>
 
 #include "sdd/values/bitset.hh"
@@ -26,7 +26,7 @@ struct default_configuration
   using variable_type = unsigned int;
 
   /// @brief The type to store the number of elements in an alpha successor function.
-  using alpha_size_type = std::uint16_t;
+  using alpha_size_type = std::uint32_t;
 
   /// @brief The type to store the number of elements in an operation.
   using operands_size_type = std::uint32_t;
-- 
2.43.0


From 44939cbd26fa363c4ad22c7cf32cc7271954c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:54 +0000
Subject: [PATCH 09/18] fix: don't overflow the coroutine's stack when
 iterating on the paths of deep SDD

Beyond some hundreds of levels, paths() crashed.
---
 sdd/dd/definition.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdd/dd/definition.hh b/sdd/dd/definition.hh
index 1a42deb..939e943 100644
--- a/sdd/dd/definition.hh
+++ b/sdd/dd/definition.hh
@@ -211,7 +211,10 @@ public:
   paths()
   const
   {
-    return path_generator<C>(std::bind(dd::paths<C>, std::placeholders::_1, *this));
+    // Paths are generated recursively: the default size of a coroutine's stack is too small for
+    // SDD with thousands of levels.
+    return path_generator<C>( std::bind(dd::paths<C>, std::placeholders::_1, *this)
+                            , boost::coroutines::attributes(8 * 1024 * 1024));
   }
 
   /// @brief Indicate if the SDD is |0|.
-- 
2.43.0


From 3485faed07703dd6f85030118178ef8c02e1c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:05 +0000
Subject: [PATCH 10/18] fix: order::flat() advances the output iterator across
 hierarchies

Flat identifiers of a nested order were written with a copy of the iterator
whose progress was lost on return: with anything but an inserter, the
identifiers that follow a hierarchy overwrote those inside of it.
---
 sdd/order/order.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..896fd16 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -214,21 +214,22 @@ private:
   /// @brief Recursion on the order to get flat nodes
   template <typename OutputIterator>
   static
-  void
+  OutputIterator
   flat_impl(OutputIterator it, const order_node<C>* current)
   {
     if (current != nullptr)
     {
       if (current->nested())
       {
-        flat_impl(it, current->nested());
+        it = flat_impl(it, current->nested());
       }
       else
       {
         *it++ = current->identifier().user();
       }
-      flat_impl(it, current->next());
+      it = flat_impl(it, current->next());
     }
+    return it;
   }
 
   /// @brief Construct with a shallow copy an already existing order.
-- 
2.43.0


From 4e227bf4d37afa8ee273d3428f24ce321a4438d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:17 +0000
Subject: [PATCH 11/18] fix: leave the library uninitialized when init() fails

---
 sdd/manager.hh | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 92b6553..fb3b450 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -41,10 +41,20 @@ init(const C& configuration = C{})
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     *global_values_ptr<values_type>() = vm_ptr.get();
 
-    auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
-    *global_ptr<C>() = im_ptr.get();
-
-    return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
+    try
+    {
+      auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
+      *global_ptr<C>() = im_ptr.get();
+
+      return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
+    }
+    catch (...)
+    {
+      // Not enough memory for this configuration: the library remains uninitialized.
+      *global_ptr<C>() = nullptr;
+      *global_values_ptr<values_type>() = nullptr;
+      throw;
+    }
   }
   else
   {
-- 
2.43.0


From 1f829e9a0b5f59edeb7fd304460d64cb75f25f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:17 +0000
Subject: [PATCH 12/18] fix: don't terminate the program when the arena can't
 be allocated

---
 sdd/mem/linear_alloc.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index b0c3948..ed44c0e 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -50,7 +50,6 @@ public:
 
   /// @brief Construct an arena with a given size.
   arena(std::size_t size)
-  noexcept
     : size_(size)
     , buffer_(std::make_unique<char[]>(size_))
     , position_(buffer_.get())
-- 
2.43.0


From eb8e89b1ced5ff8df3c0fb1632435b9b787c79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:13 +0000
Subject: [PATCH 13/18] fix: load an empty JSON array as an empty order builder

An empty array was loaded as a flat level with an artificial identifier: the
order dumped from an empty order was not loaded back.
---
 sdd/tools/order.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index 10b18b4..4f8d861 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -79,7 +79,7 @@ load_order_impl(const rapidjson::Value& v)
     {
       ob << load_order_impl<C>(v[i]);
     }
-    return ob.height() == 1
+    return ob.height() <= 1
          ? ob
          : order_builder<C>(order_identifier<C>(), ob);
   }
-- 
2.43.0


From a59b2372508699a66c86a18c436ff75f7abdf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:13 +0000
Subject: [PATCH 14/18] fix: report a non-integer identifier in a JSON order
 instead of terminating

The functor that throws std::runtime_error was declared noexcept.
---
 sdd/tools/order.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index 4f8d861..ee07a01 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -33,7 +33,7 @@ struct mk_order_identifier<C, true>
 {
   typename C::Identifier
   operator()(const rapidjson::Value& v)
-  const noexcept
+  const
   {
     if (v.IsInt())
     {
-- 
2.43.0


From 0ad4312abb5d3299432e147a7364bee9cf78247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:13 +0000
Subject: [PATCH 15/18] fix: load integer identifiers of a JSON order that
 don't fit an int

They were read as strings, which is undefined behaviour for a number.
---
 sdd/tools/order.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index ee07a01..25d0035 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -35,9 +35,13 @@ struct mk_order_identifier<C, true>
   operator()(const rapidjson::Value& v)
   const
   {
-    if (v.IsInt())
+    if (v.IsUint64())
     {
-      return v.GetInt();
+      return static_cast<typename C::Identifier>(v.GetUint64());
+    }
+    else if (v.IsInt64())
+    {
+      return static_cast<typename C::Identifier>(v.GetInt64());
     }
     else
     {
-- 
2.43.0


From b76239a8bf2629d3eda6aa425a37fd2c04b2e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:13 +0000
Subject: [PATCH 16/18] fix: escape identifiers when dumping an order to JSON

Identifiers with quotes, backslashes or control characters gave a text that is
not JSON, and those with a null character were truncated when loaded.
---
 sdd/tools/order.hh | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index 25d0035..8b62686 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -8,6 +8,7 @@
 
 #include <cassert>
 #include <iosfwd>
+#include <sstream>
 #include <string>
 #include <stdexcept>
 #include <type_traits>
@@ -64,10 +65,10 @@ struct mk_order_identifier<C, false>
 {
   std::string
   operator()(const rapidjson::Value& v)
-  const noexcept
+  const
   {
     assert(v.IsString());
-    return v.GetString();
+    return std::string(v.GetString(), v.GetStringLength());
   }
 };
 
@@ -145,7 +146,26 @@ struct print_identifier<false>
   operator()(std::ostream& os, const T& x)
   const
   {
-    os << "\"" << x << "\"";
+    std::ostringstream ss;
+    ss << x;
+    os << '"';
+    for (const char c : ss.str())
+    {
+      if (c == '"' or c == '\\')
+      {
+        os << '\\' << c;
+      }
+      else if (static_cast<unsigned char>(c) < 0x20)
+      {
+        static constexpr auto digits = "0123456789abcdef";
+        os << "\\u00" << digits[c >> 4] << digits[c & 0xf];
+      }
+      else
+      {
+        os << c;
+      }
+    }
+    os << '"';
   }
 };
 
-- 
2.43.0


From 824adc9738d7cf8023839ab79d5fb47812b35f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:33 +0000
Subject: [PATCH 17/18] fix: height of an empty order builder

It dereferenced a null pointer; loading an empty JSON array crashed there.
---
 sdd/order/order_builder.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/order/order_builder.hh b/sdd/order/order_builder.hh
index 5e24bc8..a7183fb 100644
--- a/sdd/order/order_builder.hh
+++ b/sdd/order/order_builder.hh
@@ -210,8 +210,8 @@ public:
   height()
   const noexcept
   {
-    std::size_t res = 1;
-    node_ptr current = ptr_->next;
+    std::size_t res = 0;
+    node_ptr current = ptr_;
     while (current)
     {
       current = current->next;
-- 
2.43.0


From b996611b26799b3da205a1c4b559068711bf2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:27 +0000
Subject: [PATCH 18/18] fix: load_order reads integers given as strings
 exactly, and refuses anything else

std::stoi limited identifiers given as strings to int, ignored what followed the digits, and out of
range strings escaped as std::out_of_range; other kinds of JSON values were read as strings.
---
 sdd/tools/order.hh | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sdd/tools/order.hh b/sdd/tools/order.hh
index 8b62686..861d873 100644
--- a/sdd/tools/order.hh
+++ b/sdd/tools/order.hh
@@ -44,18 +44,25 @@ struct mk_order_identifier<C, true>
     {
       return static_cast<typename C::Identifier>(v.GetInt64());
     }
-    else
+    else if (v.IsString())
     {
       const std::string str = v.GetString();
       try
       {
-        return std::stoi(str);
-      }
-      catch (const std::invalid_argument&)
-      {
-        throw std::runtime_error("Expected a integer in order JSON, got " + str);
+        std::size_t pos = 0;
+        const auto res = std::is_signed<typename C::Identifier>::value
+                       ? static_cast<typename C::Identifier>(std::stoll(str, &pos))
+                       : static_cast<typename C::Identifier>(std::stoull(str, &pos));
+        if (pos == str.size())
+        {
+          return res;
+        }
       }
+      catch (const std::logic_error&) // not a number, or out of range
+      {}
+      throw std::runtime_error("Expected a integer in order JSON, got " + str);
     }
+    throw std::runtime_error("Expected a integer in order JSON");
   }
 };
 
-- 
2.43.0

