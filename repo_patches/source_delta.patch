From 74c669ac1c50aca45e048ef11bdc68febaf1e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 001/106] fix: devector: push/emplace of one of its own
 elements when data is shifted within the buffer

---
 seq/devector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..3d2826b 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -515,10 +515,11 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
+					T tmp(std::forward<Args>(args)...); // args might refer to an element
 					copy_destroy_input(start, end, data);
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
+					construct_ptr(end, std::move(tmp));
 					return;
 				}
 
@@ -569,10 +570,11 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
+					T tmp(std::forward<Args>(args)...); // args might refer to an element
 					copy_destroy_input(start, end, data + (capacity - size));
 					start = data + (capacity - size);
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
+					construct_ptr(start - 1, std::move(tmp));
 					return;
 				}
 				
-- 
2.43.0


From c0b0545707c24bce38c338bc04b28a40c9786639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 002/106] fix: devector: resize_front() leaked the previous
 buffer, resize()/resize_front() leaked elements on exception

---
 seq/devector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 3d2826b..e930564 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -425,6 +425,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start);
 						}
 						catch (...) {
+							destroy_range(_new_start + size, _new_end);
 							deallocate(_new, _new_capacity);
 							throw;
 						}
@@ -484,9 +485,13 @@ namespace seq
 							copy_destroy_input(start, end, _new_start + (new_size - size));
 						}
 						catch (...) {
+							destroy_range(_new, _new + (new_size - size));
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From eb960c1372497443731508243c80004a543d45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 003/106] fix: devector: emplace() in the left half released an
 element twice for relocatable types

---
 seq/devector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index e930564..e3b6698 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -856,11 +856,15 @@ namespace seq
 				// insert on the left side
 				T tmp = T(std::forward<Args>(args)...); //handle aliasing
 				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					destroy_ptr(begin());
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
-				else
+					construct_ptr(begin() + dist, std::move(tmp));
+				}
+				else {
 					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					*(begin() + dist) = std::move(tmp);
+				}
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From a2e86559286ad595988454b9a4c7b5768ee7e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 004/106] fix: devector: reserve_back() destroyed live elements
 when a move assignment throws

---
 seq/devector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index e3b6698..c01a0c5 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -201,9 +201,9 @@ namespace seq
 				if (dst < first) {
 					T* saved = dst;
 
+					T* const en = first;
 					try {
 						// Construct first part
-						T* en = first;
 						while (dst < en && first != last) {
 							construct_ptr(dst, std::move(*first));
 							++dst;
@@ -220,7 +220,7 @@ namespace seq
 					}
 					catch (...) {
 						// destroy previously created values (first part only, before first)
-						while (saved != dst && saved != first) {
+						while (saved != dst && saved != en) {
 							destroy_ptr(saved++);
 						}
 						throw;
-- 
2.43.0


From 8dd0bb3a55cb1de1abdd4cff0189389a3d3c1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 005/106] fix: devector, tiered_vector: move assignment between
 different allocators that do not propagate

---
 seq/devector.hpp      | 16 +++++++++++++++-
 seq/tiered_vector.hpp | 16 +++++++++++++++-
 seq/utils.hpp         | 10 +++++++++-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index c01a0c5..4815a0b 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -1217,8 +1217,22 @@ namespace seq
 			return *this;
 		}
 		/// @brief Move assignment operator
-		auto operator=(devector&& other) noexcept(noexcept(std::declval<devector&>().swap(std::declval<devector&>()))) -> devector&
+		auto operator=(devector&& other) noexcept(nothrow_move_alloc<Allocator>::value && noexcept(std::declval<devector&>().swap(std::declval<devector&>()))) -> devector&
 		{
+			if constexpr (!is_always_equal<Allocator>::value) {
+				if (get_allocator() != other.get_allocator()) {
+					if constexpr (!move_alloc<Allocator>::value) {
+						// different allocators: move elements one by one
+						assign(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()));
+						return *this;
+					}
+					else {
+						clear();
+						shrink_to_fit();
+						move_allocator(get_allocator(), other.get_allocator());
+					}
+				}
+			}
 			swap(other);
 			return *this;
 		}
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..45a2c1f 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2942,8 +2942,22 @@ namespace seq
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(tiered_vector&& other) noexcept(noexcept(std::declval<tiered_vector&>().swap(std::declval<tiered_vector&>()))) -> tiered_vector&
+		auto operator=(tiered_vector&& other) noexcept(nothrow_move_alloc<Allocator>::value && noexcept(std::declval<tiered_vector&>().swap(std::declval<tiered_vector&>()))) -> tiered_vector&
 		{
+			if constexpr (!is_always_equal<Allocator>::value) {
+				if (get_allocator() != other.get_allocator()) {
+					if constexpr (!move_alloc<Allocator>::value) {
+						// different allocators: move elements one by one
+						assign(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()));
+						return *this;
+					}
+					else {
+						destroy_manager(d_manager);
+						d_manager = nullptr;
+						move_allocator(get_allocator(), other.get_allocator());
+					}
+				}
+			}
 			this->swap(other);
 			return *this;
 		}
diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..3803c70 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -595,7 +595,15 @@ namespace seq
 	template<class Allocator>
 	struct move_alloc
 	{
-		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::type && !is_always_equal<Allocator>::value;
+		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value && !is_always_equal<Allocator>::value;
+	};
+
+	// Returns whether container move assignment never needs to move elements one by one,
+	// which is required for different allocators that do not propagate on move assignment.
+	template<class Allocator>
+	struct nothrow_move_alloc
+	{
+		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || is_always_equal<Allocator>::value;
 	};
 
 } // end namespace seq
-- 
2.43.0


From 16a3bea450260a5fc292494b952a2ccac08d4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 006/106] fix: tiered_vector: assign/insert of an empty range
 and iterators of an empty container

---
 seq/tiered_vector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 45a2c1f..ae1cb64 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -69,7 +69,7 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE std::pair<cbuffer_pos, cbuffer_pos> update(size_type p) const noexcept
 			{
-				if (mgr)
+				if (mgr && mgr->d_buckets.size())
 					return mgr->indexes(p);
 				return { 0, 0 };
 			}
@@ -112,6 +112,8 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
@@ -1619,6 +1621,8 @@ namespace seq
 			auto for_each(size_type start, size_type end, Functor fun) const -> Functor
 			{
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -1655,6 +1659,8 @@ namespace seq
 				// Construct/fill out using values from start to end
 
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -2680,6 +2686,7 @@ namespace seq
 			}
 			catch (...) {
 				alloc.deallocate(res, 1);
+				throw;
 			}
 			return res;
 		}
@@ -2826,7 +2833,7 @@ namespace seq
 			}
 			else
 				resize(count);
-			manager()->for_each(0, size(), [&](T& v) {
+			this->for_each(0, size(), [&](T& v) {
 				v = *first;
 				++first;
 			});
-- 
2.43.0


From 3dd55dec536ba5e3291260dfc2f49808337f3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 007/106] fix: tiered_vector: inserting one of its own
 elements, reference returned by emplace, and state left by exceptions

---
 seq/tiered_vector.hpp | 684 +++++++++++++++++++-----------------------
 1 file changed, 315 insertions(+), 369 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index ae1cb64..dd25275 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -717,8 +717,9 @@ namespace seq
 			template<class Helper>
 			void push_front_n(cbuffer_pos n, const Helper& helper)
 			{
+				cbuffer_pos i = 0;
 				try {
-					for (cbuffer_pos i = 0; i < n; ++i) {
+					for (; i < n; ++i) {
 						if (--begin < 0)
 							begin = max_size1;
 						helper.construct(buffer() + begin);
@@ -727,6 +728,8 @@ namespace seq
 				}
 				catch (...) {
 					begin = (begin + 1) & max_size1;
+					// Destroy constructed values
+					pop_front_n(i);
 					throw;
 				}
 			}
@@ -809,65 +812,46 @@ namespace seq
 				}
 			}
 
-			// Move buffer content toward the left by 1 element
-			// Might throw
-			void move_right(cbuffer_pos pos) noexcept((std::is_nothrow_move_assignable_v<T> && std::is_nothrow_default_constructible_v<T>) || relocatable)
-			{
-				if constexpr (!relocatable)
-					construct_ptr(&(*this)[size]);
-				// move elems after pos
-				++size;
-				// Might throw, fine since no more values are constructed/destructed
-				move_right_1(pos);
-				// Non optimized way:
-				// for (cbuffer_pos i = size - 1; i > pos; --i)
-				//	(*this)[i] = std::move((*this)[i - 1]);
-			}
-			void move_left(cbuffer_pos pos) noexcept((std::is_nothrow_move_assignable_v<T> && std::is_nothrow_default_constructible_v<T>) || relocatable)
-			{
-				if constexpr (!relocatable)
-					construct_ptr(&(*this)[begin ? -1 : max_size1]);
-				// move elems before pos
-				if (--begin < 0)
-					begin = max_size1;
-				++size;
-				// Might throw, fine since no more values are constructed/destructed
-				move_left_1(pos + 1);
-				// Non optimized way:
-				// for (cbuffer_pos i = 0; i < pos -1; ++i)
-				//	(*this)[i] = std::move((*this)[i + 1]);
-			}
-
 			// Insert value at given position. Only works if the buffer is not full.
 			template<class... Args>
 			auto emplace(cbuffer_pos pos, Args&&... args) -> T*
 			{
 				SEQ_ASSERT_DEBUG(size != max_size_, "cannot insert in a full circular buffer");
-				if (pos > size / 2) {
-					move_right(pos);
-				}
-				else {
-					move_left(pos);
-				}
+				// Build the value first as args might refer to an element of this buffer
+				T value(std::forward<Args>(args)...);
+				const bool right = pos > size / 2;
+
+				if constexpr (!relocatable)
+					construct_ptr(right ? &(*this)[size] : &(*this)[begin ? -1 : max_size1]);
+				if (!right && --begin < 0)
+					begin = max_size1;
+				++size;
 
 				T* res = &(*this)[pos];
 				if constexpr (relocatable) {
+					if (right)
+						move_right_1(pos);
+					else
+						move_left_1(pos + 1);
+					construct_ptr(res, std::move(value));
+				}
+				else {
 					try {
-						construct_ptr(res, std::forward<Args>(args)...);
+						if (right)
+							move_right_1(pos);
+						else
+							move_left_1(pos + 1);
+						*res = std::move(value);
 					}
 					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos + 1; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos;
+						// Restore the previous size
+						if (right)
+							pop_back();
+						else
+							pop_front();
 						throw;
 					}
 				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					*res = T(std::forward<Args>(args)...);
-				}
-
 				return res;
 			}
 
@@ -880,6 +864,8 @@ namespace seq
 			auto insert_pop_back(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != max_size(), "invalid insertion position");
+				// Build the value first as args might refer to an element of this buffer
+				T value(std::forward<Args>(args)...);
 				// move elems after pos
 				T* p = &(*this)[size - 1];
 				// Might throw, fine
@@ -897,22 +883,11 @@ namespace seq
 					move_left_1(pos + 1);
 				}
 
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(&(*this)[pos], std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos + 1; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos;
-						throw;
-					}
-				}
-				else {
+				if constexpr (relocatable)
+					construct_ptr(&(*this)[pos], std::move(value));
+				else
 					// For non relocatable types, use move assignment to provide basic exception guarantee
-					(*this)[pos] = T(std::forward<Args>(args)...);
-				}
+					(*this)[pos] = std::move(value);
 
 				return res;
 			}
@@ -921,6 +896,8 @@ namespace seq
 			auto insert_pop_front(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != 0, "invalid insertion position");
+				// Build the value first as args might refer to an element of this buffer
+				T value(std::forward<Args>(args)...);
 				// move elems after pos
 				T* p = &(*this)[0];
 				// Might throw, fine
@@ -938,22 +915,11 @@ namespace seq
 				}
 
 				p = &(*this)[pos - 1];
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(p, std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos - 1;
-						throw;
-					}
-				}
-				else {
+				if constexpr (relocatable)
+					construct_ptr(p, std::move(value));
+				else
 					// For non relocatable types, use move assignment to provide basic exception guarantee
-					*p = T(std::forward<Args>(args)...);
-				}
+					*p = std::move(value);
 
 				return res;
 			}
@@ -1030,118 +996,66 @@ namespace seq
 				}
 			}
 
-			// Erase element at given position and push back value
-			// This function might throw, but always leave the buffer in a valid state
-			void erase_push_back(cbuffer_pos pos, T&& value)
+			// Overwrite the element at pos by shifting its neighbors toward it.
+			// Returns true if the slot left unused is the last one, false if it is the first one.
+			// For non relocatable types the unused slot still contains a (moved from) object,
+			// therefore the buffer is in a valid state if this function throws.
+			auto shift_erase(cbuffer_pos pos) -> bool
 			{
 				// for relocatable type, destroy value at pos since it will be memcpied over
 				if constexpr (relocatable)
 					destroy_ptr(&(*this)[pos]);
 
-				if (pos > size / 2) {
-					// move elems after pos
-					try {
-						--size;
+				const bool right = pos > size / 2;
+				--size;
+				try {
+					if (right)
 						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
-				}
-				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
+					else
 						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
-					begin = (begin + 1) & (max_size1); // increment begin
 				}
+				catch (...) {
+					++size;
+					throw;
+				}
+				++size;
+				return right;
+			}
+			void fill_slot(T* slot, T&& value)
+			{
+				if constexpr (relocatable)
+					construct_ptr(slot, std::move(value));
+				else
+					*slot = std::move(value);
+			}
 
-				construct_ptr(&at(size), std::move(value));
-				size++;
+			// Erase element at given position and push back value. Only works if the buffer is full.
+			// This function might throw, but always leave the buffer in a valid state
+			void erase_push_back(cbuffer_pos pos, T&& value)
+			{
+				SEQ_ASSERT_DEBUG(isFull(), "invalid erase_push_back");
+				if (!shift_erase(pos))
+					begin = (begin + 1) & (max_size1);
+				fill_slot(&at(size - 1), std::move(value));
 			}
 
 			void erase_push_front(cbuffer_pos pos, T&& value)
 			{
-				// for relocatable type, destroy value at pos since it will be memcpied over
-				if constexpr (relocatable)
-					destroy_ptr(&(*this)[pos]);
-
-				if (pos > size / 2) {
-					// move elems after pos
-					try {
-						--size;
-						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
-				}
-				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
-						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
-					begin = (begin + 1) & (max_size1); // increment begin
-				}
-				// Might throw, fine
-				emplace_front(std::move(value));
+				SEQ_ASSERT_DEBUG(isFull(), "invalid erase_push_front");
+				if (shift_erase(pos) && --begin < 0)
+					begin = max_size1;
+				fill_slot(&at(0), std::move(value));
 			}
 
 			// Erase value at given position.
 			void erase(cbuffer_pos pos)
 			{
-				// for relocatable type, destroy value at pos since it will be memcpied over
-				if constexpr (relocatable)
-					destroy_ptr(&(*this)[pos]);
-				if (pos > size / 2) {
-					// move elems after pos
-					try {
-						--size;
-						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
-				}
-				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
-						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
+				const bool right = shift_erase(pos);
+				if constexpr (!relocatable)
+					destroy_ptr(right ? &at(size - 1) : &at(0));
+				--size;
+				if (!right)
 					begin = (begin + 1) & (max_size1); // increment begin
-				}
 			}
 		};
 
@@ -1385,59 +1299,13 @@ namespace seq
 				SEQ_ASSERT_DEBUG(start < other.size(), "invalid start position");
 				SEQ_ASSERT_DEBUG(start + full_size <= other.size(), "invalid end position");
 
-				// Get new bucket count
-				size_type bucket_count = full_size / static_cast<size_t>(new_bucket_size) + (full_size % static_cast<size_t>(new_bucket_size) ? 1 : 0);
-
-				if (bucket_count == 1) {
-					// There is only one bucket: just fill front buffer
-					// Might throw, fine
-					BucketType* current = create_back_bucket();
-					for (size_type i = start; i < start + full_size; ++i, ++d_size) {
-						current->emplace_back(other.at(i));
-					}
+				try {
+					copy_values(other, start, full_size);
 				}
-				else {
-
-					size_type pos = start;
-					size_type end_pos = start + full_size;
-
-					while (pos < end_pos) {
-
-						// Create bucket, may throw
-						BucketType* current = create_back_bucket();
-						T* ptr = current->buffer();
-
-						// Compute end
-						size_type end = pos + static_cast<size_t>(new_bucket_size);
-						if (end > end_pos)
-							end = end_pos;
-
-						// If this throw, d_size won't be updated (which is fine)
-						try {
-							other.for_each(pos, end, [&](const T& v) { construct_ptr(ptr++, v); });
-						}
-						catch (...) {
-							// Destroy constructed elements
-							--ptr;
-							for (T* p = current->buffer(); p != ptr; ++p)
-								destroy_ptr(p);
-							this->remove_back_bucket();
-							throw;
-						}
-						size_type copied = end - pos;
-						pos += copied;
-						d_size += copied;
-
-						if (end <= end_pos || d_buckets.size() > 1) {
-							// Fill back buffer
-							current->size = static_cast<cbuffer_pos>(copied);
-							current->resize(current->size, resize_helper<T>());
-						}
-						else {
-							// Fill front buffer
-							current->grow_front(static_cast<cbuffer_pos>(copied));
-						}
-					}
+				catch (...) {
+					// The destructor is not called
+					destroy_all();
+					throw;
 				}
 
 				// Update back values if necessary
@@ -1464,37 +1332,77 @@ namespace seq
 				// SEQ_ASSERT_DEBUG(start < other.size(), "invalid start position");
 				SEQ_ASSERT_DEBUG(start + full_size <= other.size(), "invalid end position");
 
-				size_type bucket_count = full_size / static_cast<size_type>(new_bucket_size) + ((full_size % static_cast<size_type>(new_bucket_size)) ? 1 : 0);
-				if (bucket_count == 0)
-					return;
-				if (bucket_count == 1) {
-					// Fill front buffer
-					BucketType* current = create_front_bucket();
+				try {
+					move_values(other, start, full_size);
+				}
+				catch (...) {
+					// The destructor is not called
+					destroy_all();
+					// Buckets that have been entirely moved are already destroyed
+					for (size_t i = 0; i < other.d_buckets.size(); ++i) {
+						if (!other.d_buckets[i].bucket) {
+							other.destroy_all();
+							break;
+						}
+					}
+					throw;
+				}
 
-					// Might throw, fine
-					for (size_type i = start; i < start + full_size; ++i, ++d_size)
-						current->emplace_back(std::move(other.at(i)));
+				// Update back values if necessary
+				update_all_back_values();
+			}
 
-					// Destroy/deallocate the content of other
-					other.destroy_all();
+			// Append full_size values of other starting at position start, this must be empty
+			void copy_values(const this_type& other, size_type start, size_type full_size)
+			{
+				const cbuffer_pos new_bucket_size = d_bucket_size;
+				size_type pos = start;
+				size_type end_pos = start + full_size;
 
-					// Update back values if necessary
-					update_all_back_values();
-					return;
+				while (pos < end_pos) {
+
+					// Create bucket, may throw
+					BucketType* current = create_back_bucket();
+					T* ptr = current->buffer();
+
+					// Compute end
+					size_type end = pos + static_cast<size_t>(new_bucket_size);
+					if (end > end_pos)
+						end = end_pos;
+
+					// If this throw, d_size won't be updated (which is fine)
+					try {
+						other.for_each(pos, end, [&](const T& v) {
+							construct_ptr(ptr, v);
+							++ptr;
+						});
+					}
+					catch (...) {
+						// Destroy constructed elements
+						for (T* p = current->buffer(); p != ptr; ++p)
+							destroy_ptr(p);
+						throw;
+					}
+					size_type copied = end - pos;
+					pos += copied;
+					d_size += copied;
+					current->size = static_cast<cbuffer_pos>(copied);
 				}
+			}
+
+			// Append full_size values of other starting at position start, this must be empty.
+			// Other's buckets are destroyed as soon as all their values have been moved.
+			void move_values(this_type& other, size_type start, size_type full_size)
+			{
+				const cbuffer_pos new_bucket_size = d_bucket_size;
+				if (full_size == 0)
+					return;
 
 				size_type pos = start;
 				size_type end_pos = start + full_size;
 
 				size_t bindex = other.bucket_index(start);
 				size_t front_size = static_cast<size_t>(other.d_buckets[0]->size);
-				// destroy buckets before
-				if (bindex) {
-					for (size_t i = 0; i < bindex; ++i) {
-						other.destroy_bucket(other.d_buckets[i].bucket);
-						other.d_buckets[i].bucket = nullptr;
-					}
-				}
 
 				while (pos < end_pos) {
 
@@ -1506,11 +1414,20 @@ namespace seq
 					if (end > end_pos)
 						end = end_pos;
 
+					// destroy buckets before
+					if (pos == start) {
+						for (size_t i = 0; i < bindex; ++i) {
+							other.destroy_bucket(other.d_buckets[i].bucket);
+							other.d_buckets[i].bucket = nullptr;
+						}
+					}
+
 					// If this throw, d_size won't be updated (which is fine)
 					try {
 
 						other.for_each_bucket(pos, end, front_size, [&ptr, &bindex, &other](size_t index, T& v) {
-							construct_ptr(ptr++, std::move(v));
+							construct_ptr(ptr, std::move(v));
+							++ptr;
 							if (index != bindex) {
 								other.destroy_bucket(other.d_buckets[bindex].bucket);
 								other.d_buckets[bindex].bucket = nullptr;
@@ -1520,40 +1437,19 @@ namespace seq
 					}
 					catch (...) {
 						// Destroy constructed values
-						--ptr;
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
-						this->remove_back_bucket();
-						other.destroy_all();
 						throw;
 					}
 
 					size_type copied = end - pos;
 					pos += copied;
 					d_size += copied;
-
-					if (end <= end_pos || d_buckets.size() > 1) {
-						// Fill back buffer
-						current->size = static_cast<cbuffer_pos>(copied);
-						current->resize(current->size, resize_helper<T>());
-					}
-					else {
-						// Fill front buffer
-						current->grow_front(static_cast<cbuffer_pos>(copied));
-					}
+					current->size = static_cast<cbuffer_pos>(copied);
 				}
 
-				// destroy buckets after
-				for (; bindex < other.d_buckets.size(); ++bindex) {
-					if (other.d_buckets[bindex].bucket) {
-						other.destroy_bucket(other.d_buckets[bindex].bucket);
-						other.d_buckets[bindex].bucket = nullptr;
-					}
-				}
-				other.d_buckets.clear();
-
-				// Update back values if necessary
-				update_all_back_values();
+				// Destroy/deallocate the remaining content of other
+				other.destroy_all();
 			}
 
 			~BucketManager() noexcept
@@ -1598,6 +1494,7 @@ namespace seq
 						destroy_bucket(it->bucket);
 				}
 				d_buckets.clear();
+				d_size = 0;
 			}
 
 			// Move copy
@@ -1879,6 +1776,35 @@ namespace seq
 					create_back_bucket();
 			}
 
+			// Add a bucket containing value at the back/front.
+			// Might throw, but never leave an empty bucket.
+			void add_back_bucket(T&& value)
+			{
+				BucketType* bucket = create_back_bucket();
+				try {
+					bucket->emplace_back(std::move(value));
+				}
+				catch (...) {
+					remove_back_bucket();
+					throw;
+				}
+				if (StoreBackValues)
+					d_buckets.back().update();
+			}
+			void add_front_bucket(T&& value)
+			{
+				BucketType* bucket = create_front_bucket();
+				try {
+					bucket->emplace_back(std::move(value));
+				}
+				catch (...) {
+					remove_front_bucket();
+					throw;
+				}
+				if (StoreBackValues)
+					d_buckets.front().update();
+			}
+
 			// Back insertion
 
 			template<class... Args>
@@ -1891,7 +1817,16 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size) {
 					bucket = create_back_bucket();
 				}
-				T* ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				T* ptr = nullptr;
+				try {
+					ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					// Do not keep an empty bucket
+					if (bucket->size == 0 && d_buckets.size() > 1)
+						remove_back_bucket();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.back().update();
 				d_size++;
@@ -1911,7 +1846,16 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size)
 					bucket = create_front_bucket();
 
-				T* res = bucket->emplace_front(std::forward<Args>(args)...);
+				T* res = nullptr;
+				try {
+					res = bucket->emplace_front(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					// Do not keep an empty bucket
+					if (bucket->size == 0 && d_buckets.size() > 1)
+						remove_front_bucket();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.front().update();
 				d_size++;
@@ -1929,11 +1873,12 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
-					if (StoreBackValues) {
-						d_buckets.back().update();
+					BucketType* bucket = d_buckets[0].bucket;
+					T tmp = bucket->insert_pop_back(index, std::forward<Args>(args)...);
+					if (StoreBackValues)
 						d_buckets[0].update();
-					}
+					add_back_bucket(std::move(tmp));
+					res = &(*bucket)[index];
 				}
 				else {
 					// Might throw, fine
@@ -1963,20 +1908,12 @@ namespace seq
 				else if SEQ_UNLIKELY (bucket_index == 0) {
 					// insert into full first bucket
 					// Might throw, fine
-					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
-					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
-					}
-					catch (...) {
-						// check if front buffer is empty
-						if (d_buckets[0]->size == 0)
-							this->remove_front_bucket();
-						throw;
-					}
-					if (StoreBackValues) {
+					BucketType* bucket = d_buckets[0].bucket;
+					T tmp = bucket->insert_pop_front(index, std::forward<Args>(args)...);
+					if (StoreBackValues)
 						d_buckets[0].update();
-						d_buckets[1].update();
-					}
+					add_front_bucket(std::move(tmp));
+					res = &(*bucket)[index - 1];
 				}
 				else {
 					// we are going to loose value at index 0, save it
@@ -2008,17 +1945,7 @@ namespace seq
 						bucket->push_back_pop_front(tmp); // No discard
 						if (StoreBackValues)
 							d_buckets[0].update();
-						bucket = create_front_bucket();
-						try {
-							bucket->emplace_back(std::move(tmp));
-						}
-						catch (...) {
-							// remove front buffer
-							this->remove_front_bucket();
-							throw;
-						}
-						if (StoreBackValues)
-							d_buckets[0].update();
+						add_front_bucket(std::move(tmp));
 					}
 					res = &at(pos);
 				}
@@ -2041,17 +1968,8 @@ namespace seq
 					T tmp = bucket(bucket_index)->insert_pop_back(index, std::forward<Args>(args)...);
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
-					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
-					}
-					catch (...) {
-						// Remove empty back bucket
-						if (d_buckets.back()->size == 0)
-							remove_back_bucket();
-						throw;
-					}
-					if (StoreBackValues)
-						d_buckets.back().update();
+					add_back_bucket(std::move(tmp));
+					res = &(*bucket(bucket_index))[index];
 				}
 				else {
 
@@ -2081,10 +1999,7 @@ namespace seq
 						bucket->push_front_pop_back(tmp);
 						if (StoreBackValues)
 							d_buckets.back().update();
-						bucket = create_back_bucket();
-						bucket->emplace_front(std::move(tmp));
-						if (StoreBackValues)
-							d_buckets.back().update();
+						add_back_bucket(std::move(tmp));
 					}
 					res = &at(pos);
 				}
@@ -2180,26 +2095,24 @@ namespace seq
 			SEQ_ALWAYS_INLINE void erase_left(size_type bucket_index, int index)
 			{
 				// shift left values
-				T tmp = std::move((d_buckets.front().bucket)->back());
-				d_buckets.front().bucket->pop_back();
+
+				// Might throw, fine
+				bucket(bucket_index)->erase_push_front(index, std::move(bucket(bucket_index - 1)->back()));
 				if (StoreBackValues)
-					d_buckets.front().update();
+					d_buckets[bucket_index].update();
 
-				for (size_type i = 1; i < bucket_index; ++i) {
+				for (size_type i = bucket_index - 1; i > 0; --i) {
 					// Might throw, fine
-					bucket(i)->push_front_pop_back(tmp);
+					bucket(i)->push_front_pop_back(bucket(i - 1)->back());
 					if (StoreBackValues)
 						d_buckets[i].update();
 				}
-
-				// Might throw, fine
-				bucket(bucket_index)->erase_push_front(index, std::move(tmp));
-
-				if (StoreBackValues)
-					d_buckets[bucket_index].update();
+				d_buckets.front()->pop_back();
 				if (d_buckets.front()->size == 0 && d_buckets.size() > 1) {
 					remove_front_bucket();
 				}
+				else if (StoreBackValues)
+					d_buckets.front().update();
 			}
 			SEQ_ALWAYS_INLINE void erase_right(size_type bucket_index, int index)
 			{
@@ -2703,17 +2616,64 @@ namespace seq
 		// Make the manager a pointer to keep iterator validity in case of swap
 		bucket_manager* d_manager;
 
-		// Update the bucket size if necessary, used when inserting/deleting single elements
-		SEQ_ALWAYS_INLINE void update_bucket_size()
+		// Returns true if the bucket size must be checked, used when inserting/deleting single elements
+		SEQ_ALWAYS_INLINE auto must_check_bucket_size() const noexcept -> bool
 		{
 			static constexpr size_t minb = static_cast<size_t>(min_block_size);
 			static constexpr size_t maxb = static_cast<size_t>(max_block_size);
 			static constexpr size_t mul_factor = (minb < 8U) ? 8U : minb;
 			static constexpr size_t mask = (mul_factor * mul_factor) - 1ULL;
 			// Check the bucket size every (min_block_size * min_block_size) insertions/deletions
-			if SEQ_UNLIKELY (min_block_size != maxb && (size() < 64U || (size() & mask) == 0))
+			return min_block_size != maxb && (size() < 64U || (size() & mask) == 0);
+		}
+		// Update the bucket size if necessary, used when deleting single elements
+		SEQ_ALWAYS_INLINE void update_bucket_size()
+		{
+			if SEQ_UNLIKELY (must_check_bucket_size())
 				check_bucket_size();
 		}
+		// Insert a single element, and update the bucket size if necessary
+		template<class... Args>
+		SEQ_ALWAYS_INLINE auto insert_single(size_type pos, Args&&... args) -> T&
+		{
+			make_manager_if_null();
+			if SEQ_UNLIKELY (must_check_bucket_size()) {
+				if (findBSize(size()) != manager()->bucket_size()) {
+					// args might refer to an element of this container,
+					// build the value before moving all elements
+					T value(std::forward<Args>(args)...);
+					check_bucket_size();
+					return manager()->insert(pos, std::move(value));
+				}
+			}
+			return manager()->insert(pos, std::forward<Args>(args)...);
+		}
+		template<class... Args>
+		SEQ_ALWAYS_INLINE auto insert_back(Args&&... args) -> T&
+		{
+			make_manager_if_null();
+			if SEQ_UNLIKELY (must_check_bucket_size()) {
+				if (findBSize(size()) != manager()->bucket_size()) {
+					T value(std::forward<Args>(args)...);
+					check_bucket_size();
+					return manager()->emplace_back(std::move(value));
+				}
+			}
+			return manager()->emplace_back(std::forward<Args>(args)...);
+		}
+		template<class... Args>
+		SEQ_ALWAYS_INLINE auto insert_front(Args&&... args) -> T&
+		{
+			make_manager_if_null();
+			if SEQ_UNLIKELY (must_check_bucket_size()) {
+				if (findBSize(size()) != manager()->bucket_size()) {
+					T value(std::forward<Args>(args)...);
+					check_bucket_size();
+					return manager()->emplace_front(std::move(value));
+				}
+			}
+			return manager()->emplace_front(std::forward<Args>(args)...);
+		}
 		// Find bucket size based on full tiered_vector size
 		auto findBSize(size_type size) const noexcept -> detail::cbuffer_pos
 		{
@@ -2784,7 +2744,10 @@ namespace seq
 					*beg = std::move(v);
 					++beg;
 				});
-				manager()->for_each(pos, pos + to_insert, [&](T& v) { v = *first++; });
+				manager()->for_each(pos, pos + to_insert, [&](T& v) {
+					v = *first;
+					++first;
+				});
 			}
 			else {
 				// Might throw, fine
@@ -2864,8 +2827,7 @@ namespace seq
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2873,8 +2835,7 @@ namespace seq
 		/// @param count new tiered_vector size
 		/// @param alloc allocator object
 		explicit tiered_vector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count);
 		}
@@ -2910,8 +2871,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(tiered_vector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_manager, other.d_manager);
@@ -2925,8 +2885,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param alloc allocator object
 		tiered_vector(const std::initializer_list<T>& lst, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -2937,8 +2896,7 @@ namespace seq
 		/// @param alloc allocator object
 		template<class Iter>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(first, last);
 		}
@@ -3066,11 +3024,15 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might be an element of this container
+					const T new_value(value);
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, 0U, std::min(count, this->size()), get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					manager()->resize(count, new_value);
 				}
-				manager()->resize(count, value);
+				else
+					manager()->resize(count, value);
 			}
 		}
 
@@ -3118,14 +3080,18 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might be an element of this container
+					const T new_value(value);
 					size_type fsize = std::min(count, this->size());
 					size_type fstart =
 					  static_cast<size_t>(std::max(static_cast<difference_type>(this->size()) - static_cast<difference_type>(fsize), static_cast<difference_type>(0)));
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, fstart, fsize, get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					manager()->resize_front(count, new_value);
 				}
-				manager()->resize_front(count, value);
+				else
+					manager()->resize_front(count, value);
 			}
 		}
 
@@ -3144,9 +3110,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(value);
+			insert_back(value);
 		}
 
 		/// @brief Appends the given element value to the end of the container using move semantic.
@@ -3154,9 +3118,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(std::move(value));
+			insert_back(std::move(value));
 		}
 
 		/// @brief Appends a new element to the end of the container
@@ -3167,9 +3129,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace_back(Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->emplace_back(std::forward<Args>(args)...);
+			return insert_back(std::forward<Args>(args)...);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container.
@@ -3177,9 +3137,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(value);
+			insert_front(value);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container using move semantic.
@@ -3187,9 +3145,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(std::move(value));
+			insert_front(std::move(value));
 		}
 
 		/// @brief Appends a new element to the beginning of the container
@@ -3200,9 +3156,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace_front(Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->emplace_front(std::forward<Args>(args)...);
+			return insert_front(std::forward<Args>(args)...);
 		}
 
 		/// @brief Insert \a value before \a pos
@@ -3211,9 +3165,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, value);
+			insert_single(pos, value);
 		}
 
 		/// @brief Insert \a value before \a pos using move semantic.
@@ -3222,9 +3174,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, std::move(value));
+			insert_single(pos, std::move(value));
 		}
 
 		/// @brief Insert \a value before \a it
@@ -3256,9 +3206,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(size_type pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos, std::forward<Args>(args)...);
+			return insert_single(pos, std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts a new element into the container directly before \a pos.
@@ -3270,9 +3218,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(const_iterator pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos.absolutePos(), std::forward<Args>(args)...);
+			return insert_single(pos.absolutePos(), std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts elements from range [first, last) before pos.
-- 
2.43.0


From 833afe1ba165cb8a016427ca0ec114f5e39db83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 008/106] fix: concurrent_map/set: const lookups took a bucket
 lock exclusively and released it as shared

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..32d6852 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -745,7 +745,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From 679413cb4d68eb7368a3defd061b9fc1b8501d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 009/106] fix: concurrent_map/set: comparing or merging a
 container with itself never returned

---
 seq/internal/concurrent_hash_table.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 32d6852..15973ff 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1975,6 +1975,9 @@ namespace seq
 
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
+				// Nothing to do when merging with itself
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -1996,6 +1999,9 @@ namespace seq
 			template<class ExecPolicy>
 			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
 			{
+				// Nothing to do when merging with itself
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2019,6 +2025,9 @@ namespace seq
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				// A table is equal to itself, avoid locking it twice
+				if (this == std::addressof(other))
+					return true;
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
-- 
2.43.0


From 52b23227254b0132385c0dc214fc5008eb00c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 010/106] fix: concurrent_map/set: insertion concurrent with
 clear() could hang, or use buckets being replaced

---
 seq/internal/concurrent_hash_table.hpp | 41 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 15973ff..cf4a696 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -775,7 +775,7 @@ namespace seq
 				LockUnique<node_lock> ll(d_rehash_lock);
 
 				// Make sure we are growing
-				if (grow_only && new_hash_mask <= d_hash_mask && d_hash_mask != 0)
+				if (grow_only && new_hash_mask <= d_hash_mask && d_buckets != get_static_node())
 					return;
 
 				lock_array* locks = AtomicLoad(d_locks);
@@ -792,7 +792,8 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// An empty table (static node) is considered as having one bucket that must be locked as well
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (i = 0; i < count; ++i) {
@@ -850,7 +851,7 @@ namespace seq
 				if (is_concurrent && locks) {
 					// Unlock all nodes
 					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
+					size_t count = old_hash_mask + 1u;
 					for (i = 0; i < count; ++i, ++iter)
 						iter->unlock();
 				}
@@ -950,35 +951,43 @@ namespace seq
 				}
 			}
 
-			template<bool WaitForBucket = true>
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
 				l = &d_rehash_lock;
 				l->lock();
 				if ((locks = AtomicLoad(d_locks))) {
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
+					return get_node(locks, hash, l);
 				}
 				return (hash & d_hash_mask);
 			}
-			template<bool WaitForBucket = true>
 			SEQ_CONCURRENT_INLINE auto get_node(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
 				if SEQ_UNLIKELY (!locks)
-					return this->template get_node_global_lock<WaitForBucket>(locks, hash, l);
+					return get_node_global_lock(locks, hash, l);
 				// Returns node locked for given hash value
 				size_t hash_mask = d_hash_mask;
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock(*l);
-				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
+				while (hash_mask != d_hash_mask)
 					update_lock(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
+			SEQ_CONCURRENT_INLINE auto get_node_insert(size_t hash, node_lock*& l) -> size_t
+			{
+				// Returns locked node suitable for insertion
+				size_t pos = get_node(AtomicLoad(d_locks), hash, l);
+				while SEQ_UNLIKELY (d_buckets == get_static_node()) {
+					// The table was cleared since rehash_on_insert(), or another thread is still allocating the buckets
+					l->unlock();
+					std::this_thread::yield();
+					rehash_on_next_target(0);
+					pos = get_node(AtomicLoad(d_locks), hash, l);
+				}
+				return pos;
+			}
 
 			SEQ_NOINLINE(auto) get_node_shared_global_lock(lock_array* locks, size_t hash, node_lock*& l) const -> size_t
 			{
@@ -1015,7 +1024,7 @@ namespace seq
 				node_lock* ll = nullptr;
 				size_t pos;
 				if constexpr (is_concurrent)
-					pos = this->template get_node<true>(AtomicLoad(d_locks), hash, ll);
+					pos = get_node_insert(hash, ll);
 				else
 					pos = (hash & d_hash_mask);
 				// Grad lock
@@ -1223,10 +1232,10 @@ namespace seq
 			SEQ_CONCURRENT_INLINE size_t visit_hash(size_t hash, const K& key, F&& f)
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? get_node(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
 				size_t pos;
 				if constexpr (is_concurrent)
-					pos = this->template get_node<false>(AtomicLoad(d_locks), hash, lock);
+					pos = get_node(AtomicLoad(d_locks), hash, lock);
 				else
 					pos = (hash & d_hash_mask);
 				LockUnique<node_lock> ll(lock, true);
@@ -1336,10 +1345,10 @@ namespace seq
 			SEQ_CONCURRENT_INLINE auto erase_key(size_t hash, F&& fun, const K& key) -> size_t
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? get_node(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
 				size_t pos;
 				if constexpr (is_concurrent)
-					pos = this->template get_node<false>(AtomicLoad(d_locks), hash, lock);
+					pos = get_node(AtomicLoad(d_locks), hash, lock);
 				else
 					pos = (hash & d_hash_mask);
 
-- 
2.43.0


From 716ca9e344598219ab39389345863a7c12371844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 011/106] fix: concurrent_map/set: const visit_all() and
 cvisit_all() ignored the functor result

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index cf4a696..b2140e4 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1759,7 +1759,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all(std::forward<F>(fun)))
 						return false;
 				return true;
 			}
-- 
2.43.0


From 8dcb7ea750172410967c9ada68101868a1d627f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 012/106] fix: concurrent_map/set: allocation failure while
 rehashing

---
 seq/internal/concurrent_hash_table.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index b2140e4..2b2db67 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -269,8 +269,7 @@ namespace seq
 			{
 				size_t count = bit_scan_reverse_32(static_cast<unsigned>(size));
 				for (size_t i = 0; i <= count; ++i)
-					if (!arrays[i].load(std::memory_order_relaxed))
-						at(i);
+					make_array(i);
 			}
 			/// @brief Returns element at given position.
 			/// Resize array if necessary.
@@ -782,6 +781,7 @@ namespace seq
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
 				size_t i = 0;
+				size_t locked = 0;
 
 				// Reset chain count
 				d_chain_count = 0;
@@ -792,6 +792,10 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
+					// Create the lock objects now, as it might throw
+					if (is_concurrent && locks)
+						locks->resize(new_hash_mask + 1u);
+
 					// An empty table (static node) is considered as having one bucket that must be locked as well
 					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
@@ -799,8 +803,10 @@ namespace seq
 					for (i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -827,11 +833,12 @@ namespace seq
 					}
 
 					// Destroy and deallocate
-					destroy_buckets(buckets, values, new_hash_mask + 1);
+					if (buckets)
+						destroy_buckets(buckets, values, new_hash_mask + 1);
 
 					if (is_concurrent && locks) {
 						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
+						for (size_t j = 0; j < locked; ++j)
 							locks->at(j).unlock();
 					}
 					throw;
@@ -865,6 +872,14 @@ namespace seq
 					rebind_alloc<lock_array> al = get_allocator();
 					locks = al.allocate(1);
 					construct_ptr(locks, get_allocator());
+					try {
+						locks->resize(new_hash_mask + 1u);
+					}
+					catch (...) {
+						destroy_ptr(locks);
+						al.deallocate(locks, 1);
+						throw;
+					}
 					d_locks = (locks);
 				}
 
-- 
2.43.0


From 23b4146f33b4e1613baea167096c3e15a9e56acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 013/106] fix: concurrent_map/set: visit_all() modified
 elements under a shared lock while the table has a single bucket

---
 seq/internal/concurrent_hash_table.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 2b2db67..d226f8e 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1289,12 +1289,20 @@ namespace seq
 			bool visit_all(F&& fun)
 			{
 				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				LockShared<node_lock> lock;
+				LockUnique<node_lock> ulock;
+				lock_array* locks = AtomicLoad(d_locks);
+				if (locks)
+					lock.init(d_rehash_lock);
+				else {
+					// No bucket lock yet: elements are only protected by d_rehash_lock
+					ulock.init(d_rehash_lock);
+					locks = AtomicLoad(d_locks);
+				}
 				if (d_buckets == get_static_node())
 					return true;
 
 				size_t count = d_hash_mask + 1u;
-				lock_array* locks = AtomicLoad(d_locks);
 				auto iter = typename lock_array::iterator(locks);
 				for (size_t i = 0; i < count; ++i) {
 					LockUnique<node_lock> ll;
-- 
2.43.0


From fd7d1be6effbdc33057bf8e10b47a68e79f4a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 014/106] fix: concurrent_map/set: copy and move constructors
 with allocator leaked when an element throws

---
 seq/internal/concurrent_hash_table.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index d226f8e..5cf5039 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1701,9 +1701,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(const ConcurrentHashTable& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
 				this->reserve(other.size());
 				other.visit_all([&](const Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(v); });
@@ -1713,9 +1711,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
 				if (alloc == other.get_safe_allocator()) {
 					this->swap(other, false);
-- 
2.43.0


From 98bcce466a87571d9ba039cec36f5a05472fd133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 015/106] fix: concurrent_map/set: erase_if(container,
 predicate) returned nothing

---
 seq/concurrent_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 253e0ee..8ccdd34 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -424,7 +424,7 @@ namespace seq
 	template<class Key, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_set<Key, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_set<Key, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 	template<class Key, class T, class Hash = hasher<Key>, class Equal = std::equal_to<>, class Allocator = std::allocator<std::pair<Key, T>>, unsigned Shards = seq::medium_concurrency>
@@ -919,7 +919,7 @@ namespace seq
 	template<class Key, class T, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_map<Key, T, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_map<Key, T, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 }
-- 
2.43.0


From 8b7e3c31e07b5baa0f2e641559b6af198132b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 016/106] fix: concurrent_map/set: assignments between
 different allocators, deadlock of concurrent copy assignments

---
 seq/concurrent_map.hpp                 |  8 ++---
 seq/internal/concurrent_hash_table.hpp | 49 ++++++++++++++++++++------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 8ccdd34..0a5713e 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -184,9 +184,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_set&
+		auto operator=(concurrent_set&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_set&
 		{
-			base_type::swap(other);
+			static_cast<base_type&>(*this) = static_cast<base_type&&>(other);
 			return *this;
 		}
 
@@ -600,9 +600,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_map&
+		auto operator=(concurrent_map&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_map&
 		{
-			base_type::swap(other);
+			static_cast<base_type&>(*this) = static_cast<base_type&&>(other);
 			return *this;
 		}
 
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 5cf5039..b678302 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1740,23 +1740,52 @@ namespace seq
 			ConcurrentHashTable& operator=(const ConcurrentHashTable& other)
 			{
 				if (this != std::addressof(other)) {
+					// Keep both containers locked, like merge() and operator==()
+					std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
+					LockUnique<data_lock_type> l1(&d_data_lock, true);
+					LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
+
 					clear();
-					{
-						// Allocator assignment
-						std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
-						LockUnique<data_lock_type> l1(&d_data_lock, true);
-						LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
-
-						assign_allocator<Alloc>(*this, other.get_allocator());
-						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
+					if constexpr (assign_alloc<Alloc>::value) {
+						// The internal data must be released by the allocator that created it
+						if (!(get_allocator() == other.get_allocator())) {
+							PrivateData::destroy(AtomicLoad(d_data));
+							d_data = nullptr;
+						}
 					}
+					assign_allocator<Alloc>(*this, other.get_allocator());
+					get_data_no_lock();
 					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
 				}
 				return *this;
 			}
-			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(noexcept(std::declval<ConcurrentHashTable&>().swap(std::declval<ConcurrentHashTable&>())))
+			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(nothrow_move_alloc<Alloc>::value &&
+											     noexcept(std::declval<base_hash_equal&>().swap(std::declval<base_hash_equal&>())))
 			{
-				swap(other);
+				if (this == std::addressof(other))
+					return *this;
+				if constexpr (is_concurrent)
+					std::lock(d_data_lock, other.d_data_lock);
+				LockUnique<data_lock_type> l1(&d_data_lock, true);
+				LockUnique<data_lock_type> l2(&other.d_data_lock, true);
+
+				if constexpr (!move_alloc<Alloc>::value) {
+					if (!(get_allocator() == other.get_allocator())) {
+						// The internal data cannot be exchanged, move each element
+						clear();
+						get_data_no_lock();
+						other.visit_all([this](Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, std::move(v)); });
+						other.clear();
+						return *this;
+					}
+				}
+
+				PrivateData* odata = AtomicLoad(other.d_data);
+				other.d_data = (AtomicLoad(d_data));
+				d_data = (odata);
+				if constexpr (move_alloc<Alloc>::value)
+					std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(other));
+				static_cast<base_hash_equal&>(*this).swap(other);
 				return *this;
 			}
 
-- 
2.43.0


From fcfad4cabf5e8e6831a17d86e4d0bab3bff397f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 017/106] fix: concurrent_map comparison: the mapped value was
 extracted with the type of the key

---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index 3803c70..a81d16a 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From 6a6fb92ba5fffa0cc8923b34f7225af65e0a2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:48 +0000
Subject: [PATCH 018/106] fix: concurrent_map/set: visit_all() on a non-const
 container ignored the functor result

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index b678302..cbf0231 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -486,7 +486,7 @@ namespace seq
 			bool for_each_until(ConcurrentValueNode<T>* n, F&& f) noexcept(noexcept(std::forward<F>(f)(std::declval<std::uint8_t*>(), 0, std::declval<T&>())))
 			{
 				return static_cast<const ConcurrentHashNode*>(this)->for_each_until(
-				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
+				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { return std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
 			}
 		};
 
-- 
2.43.0


From 8330b60cd78e3d184a22c7354ecc9b557c954efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 019/106] fix: concurrent_map/set: a visitor that throws ended
 the process when the key comparison is noexcept

---
 seq/internal/concurrent_hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index cbf0231..5be8029 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -494,7 +494,7 @@ namespace seq
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
 		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) noexcept(noexcept(eq(std::forward<K>(key),
-																	     ExtractKey::key(std::declval<Value&>())))) -> size_t
+																	     ExtractKey::key(std::declval<Value&>()))) && noexcept(std::forward<F>(f)(std::declval<Value&>()))) -> size_t
 		{
 			do {
 				auto v = FindWithTh<ExtractKey, chain_concurrent_node_size>(th, eq, std::forward<K>(key), n->hashs, n->values());
@@ -510,7 +510,7 @@ namespace seq
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
 		SEQ_CONCURRENT_INLINE auto FindInNode(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentHashNode* node, const ConcurrentValueNode<Value>* values, F&& f) noexcept(
-		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>())))) -> size_t
+		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>()))) && noexcept(std::forward<F>(f)(std::declval<Value&>()))) -> size_t
 		{
 			if (auto v = FindWithTh<ExtractKey, max_concurrent_node_size>(th, eq, std::forward<K>(key), node->hashs, values->values())) {
 				std::forward<F>(f)(const_cast<Value&>(*v));
-- 
2.43.0


From 4ac7b138bbfa5b790dd549c7f34a01355f425892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 020/106] fix: algorithm: elements move-assigned to themselves
 when merging reverse iterators

---
 seq/algorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..85e9ff9 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -207,6 +207,9 @@ namespace seq
 		{
 			return it;
 		}
+		// Declare first: iterators might be wrapped in any order
+		template<class Iter>
+		auto unwrap_iter(std::reverse_iterator<Iter> it) noexcept;
 		template<class Iter>
 		auto unwrap_iter(std::move_iterator<Iter> it) noexcept
 		{
-- 
2.43.0


From 84b6af1a8c61f90251d3c5c392608841f31711cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 021/106] fix: algorithm: merge() into an output iterator does
 not compile

---
 seq/algorithm.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 85e9ff9..27bd255 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -419,13 +419,15 @@ namespace seq
 				// just advance output iterator if not
 				// a std::reverse_iterator (used by
 				// merge_backward which do not use the result).
-				if constexpr (!is_reverse_iterator<Out>::value)
+				if constexpr (Overlap && !is_reverse_iterator<Out>::value)
 					out = iter_next(out, iter_distance(first2, end2));
 			}
 			else
 				out = copy_internal(first2, end2, out);
 
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(dst, out, c), "");
+			if constexpr (std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<Out>::iterator_category>) {
+				SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(dst, out, c), "");
+			}
 			return out;
 		}
 
@@ -645,7 +647,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
-- 
2.43.0


From 6ee9198631ec77eb2c96795868ed9052b93a75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 022/106] fix: algorithm: net_sort() ends the process when a
 swap throws

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 27bd255..f456b08 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -815,7 +815,7 @@ namespace seq
 		}
 
 		template<class T>
-		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept
+		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept(is_relocatable<T>::value || std::is_nothrow_swappable<T>::value)
 		{
 			// Swap elements based on is_less.
 			// Uses branchless swap for relocatable types.
-- 
2.43.0


From fec0c1aeb819b255d6de7308d01ce49152130429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 023/106] fix: algorithm: net_sort() is not stable for blocks
 of 8 random access elements

---
 seq/algorithm.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index f456b08..83e6a8a 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -836,6 +836,9 @@ namespace seq
 #define CHECK_2_NO_OVERLAPP(a, b, c, d)                                                                                                                                                                \
 	CHECK_2(a, b);                                                                                                                                                                                 \
 	CHECK_2(c, d)
+#define CHECK_3_NO_OVERLAPP(a, b, c, d, e, f)                                                                                                                                                          \
+	CHECK_2_NO_OVERLAPP(a, b, c, d);                                                                                                                                                               \
+	CHECK_2(e, f)
 #define CHECK_4_NO_OVERLAPP(a, b, c, d, e, f, g, h)                                                                                                                                                    \
 	CHECK_2_NO_OVERLAPP(a, b, c, d);                                                                                                                                                               \
 	CHECK_2_NO_OVERLAPP(e, f, g, h)
@@ -843,17 +846,21 @@ namespace seq
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
+			// Odd-even transposition network: only adjacent elements
+			// are exchanged, which keeps the sort stable.
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
 			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
-			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
-			CHECK_2(5, 6);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
 		}
 
 #undef CHECK_2
 #undef CHECK_2_NO_OVERLAPP
+#undef CHECK_3_NO_OVERLAPP
 #undef CHECK_4_NO_OVERLAPP
 
 		template<unsigned N, class Iter, class Cmp>
-- 
2.43.0


From a9715c45a87c32af6c94689ee3f0606167f9c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 024/106] fix: algorithm: null_buffer allocates

---
 seq/algorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 83e6a8a..21b2615 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1144,6 +1144,9 @@ namespace seq
 				return (count / 8u);
 			if (buf.size == std::numeric_limits<size_t>::max() - 2)
 				return (count / 32u);
+			if (buf.size == std::numeric_limits<size_t>::max() - 4)
+				// null_buffer: do not allocate
+				return 0;
 			return (count / 128u);
 		}
 
@@ -1170,7 +1173,7 @@ namespace seq
 	static constexpr buffer<void*> tiny_buffer{ nullptr, std::numeric_limits<size_t>::max() - 3u };
 
 	/// @brief Null buffer, uses (slow) bufferless merge sort
-	static constexpr buffer<void*> null_buffer{ nullptr, 0 };
+	static constexpr buffer<void*> null_buffer{ nullptr, std::numeric_limits<size_t>::max() - 4u };
 
 	/// @brief Stable merge algorithm similar to std::merge.
 	///
@@ -1322,7 +1325,7 @@ namespace seq
 		if constexpr (std::is_same_v<buffer<void*>, Buffer>) {
 			// Compute buffer size
 			size_t buf_size = sort_buffer_size(buf, size / 2);
-			if (buf_size < 16)
+			if (buf_size < 16 && buf.size != null_buffer.size)
 				buf_size = 16;
 			std::vector<Key> buf_(buf_size);
 			return merge_sort_internal(wrap_iter(begin, 0), size, cmp, seq::buffer<Key*>{ buf_.data(), buf_.size() });
-- 
2.43.0


From a375f8b9a6192beada1d9efa3d50d0c68b69f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 025/106] fix: algorithm: unique() keeps duplicates after the
 first removed element

---
 seq/algorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 21b2615..a171bc6 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1434,10 +1434,13 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
+			if (set.contains(std::addressof(*first))) {
 				continue;
 			}
-			*loc++ = std::move(*first);
+			// Insert the final address of the element
+			*loc = std::move(*first);
+			set.emplace(std::addressof(*loc));
+			++loc;
 		}
 		return loc;
 	}
-- 
2.43.0


From 45ac335bbe2de0ebd4714eb2daea72dacb7a1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 026/106] fix: concurrent hash table, unique(): a hash function
 that throws ends the process

---
 seq/algorithm.hpp                      | 4 ++--
 seq/internal/concurrent_hash_table.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index a171bc6..24e0844 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1374,7 +1374,7 @@ namespace seq
 			  : Hash(h)
 			{
 			}
-			size_t operator()(const Key* k) const noexcept { return Hash::operator()(*k); }
+			size_t operator()(const Key* k) const { return Hash::operator()(*k); }
 		};
 		// Comparison function working on pointer
 		template<class Key, class Equal>
@@ -1384,7 +1384,7 @@ namespace seq
 			  : Equal(eq)
 			{
 			}
-			size_t operator()(const Key* l, const Key* r) const noexcept { return Equal::operator()(*l, *r); }
+			size_t operator()(const Key* l, const Key* r) const { return Equal::operator()(*l, *r); }
 		};
 	}
 
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 5be8029..f0cfb72 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -716,10 +716,11 @@ namespace seq
 			void move_back(node_type* buckets, value_node_type* values, size_t new_hash_mask, node_type* old_buckets, value_node_type* old_values, size_t old_hash_mask) noexcept(
 			  std::is_nothrow_move_constructible_v<Value>)
 			{
-				// In case of exception (bad_alloc only) during rehash, move back from new buckets to previous buckets
+				// In case of exception during rehash, move back from new buckets to previous buckets
 				for (size_t i = 0; i < new_hash_mask + 1; ++i) {
 					buckets[i].for_each(values + i, [&](std::uint8_t* hashs, unsigned j, Value& v) {
-						size_t h = hash_key(extract_key::key(v));
+						// When growing, the new position gives the old one without using the hash function (that might throw)
+						size_t h = new_hash_mask >= old_hash_mask ? i : hash_key(extract_key::key(v));
 						size_t idx = h & old_hash_mask;
 						auto loc = FindFreeSlotInNode(old_buckets + idx, old_values + idx);
 						SEQ_ASSERT_DEBUG(loc.first, "");
@@ -1593,7 +1594,7 @@ namespace seq
 				SEQ_CONCURRENT_INLINE auto max_load_factor() const noexcept -> float { return AtomicLoad(load_factor); }
 
 				template<class K>
-				SEQ_CONCURRENT_INLINE auto hash_key(const K& key) const noexcept -> size_t
+				SEQ_CONCURRENT_INLINE auto hash_key(const K& key) const -> size_t
 				{
 					return hash_map::hash_key(this->hash_function(), key);
 				}
-- 
2.43.0


From fcadf1442107d56db377cf9111ed64247df553c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 027/106] fix: sequence: shrinking removes one element too many

---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..3c1c645 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1284,8 +1284,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1807,8 +1809,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1934,8 +1938,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (diff && front == d_data->end.next) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From 9755fd5610a64ca740b3aa6515c083f0df665e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 028/106] fix: sequence: comparison and difference with the end
 iterator

---
 seq/sequence.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 3c1c645..048f887 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -351,6 +351,9 @@ namespace seq
 			// Distance between iterators
 			static auto distance(const sequence_const_iterator& it1, const sequence_const_iterator& it2) -> difference_type
 			{
+				if (it1 == it2)
+					return 0; // the iterators of an empty sequence might be null
+
 				if (it1.node == it2.node) {
 					// Same node
 					if (it1.pos > it2.pos) {
@@ -469,12 +472,12 @@ namespace seq
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos)));
+			return a.node == b.node ? (a.pos > b.pos) : (a.node->node_index > b.node->node_index);
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator<(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos)));
+			return a.node == b.node ? (a.pos < b.pos) : (a.node->node_index < b.node->node_index);
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>=(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
@@ -779,7 +782,8 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				// the end position comes after every chunk
+				endNode()->node_index = (std::numeric_limits<std::int64_t>::max)();
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
@@ -879,7 +883,8 @@ namespace seq
 								if (vec_chunk && node != endNode())
 									vec_chunk->push_back(node);
 								index = 0;
-								node->node_index = static_cast<std::int64_t>(chunks++);
+								if (node != endNode())
+									node->node_index = static_cast<std::int64_t>(chunks++);
 							}
 							++it;
 						}
-- 
2.43.0


From b42c20b56ace6595091da57a80f90c14322427c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 029/106] fix: sequence: shrink_to_fit() and sort() leave
 inconsistent chunk lists

---
 seq/sequence.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 048f887..e59149c 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -893,6 +893,17 @@ namespace seq
 						// Update current node bounds in case of exception
 						node->start = static_cast<int>(bit_scan_forward_64(node->used));
 						node->end = static_cast<int>(bit_scan_reverse_64(node->used)) + 1;
+						// Rebuild the order and the list of partially free chunks
+						endNode()->prev_free = endNode()->next_free = endNode();
+						std::int64_t idx = 0;
+						for (chunk_type* c = static_cast<chunk_type*>(endNode()->next); c != endNode(); c = static_cast<chunk_type*>(c->next)) {
+							c->node_index = idx++;
+							c->prev_free = c->next_free = endNode();
+							if (c->used != full) {
+								c->next_free = endNode()->next_free;
+								c->next_free->prev_free = endNode()->next_free = c;
+							}
+						}
 						throw;
 					}
 
@@ -917,6 +928,8 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						if (vec_chunk)
+							vec_chunk->pop_back();
 					}
 
 					last->next = endNode();
@@ -945,8 +958,10 @@ namespace seq
 				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
 				if (last->used == full)
 					endNode()->prev_free = endNode()->next_free = endNode();
-				else
+				else {
 					endNode()->prev_free = endNode()->next_free = last;
+					last->prev_free = last->next_free = endNode();
+				}
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From 9e2fd311b43dde1b6cdab5819c6f308e58c98eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 030/106] fix: sequence: constructors leak when an element
 throws

---
 seq/sequence.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index e59149c..e9826ac 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1378,6 +1378,14 @@ namespace seq
 			}
 		}
 
+		// Empty sequence without internal data.
+		// Other constructors delegate to this one: elements are destroyed by the destructor if they throw.
+		sequence(const Allocator& al, std::nullptr_t)
+		  : Allocator(al)
+		  , d_data(nullptr)
+		{
+		}
+
 	public:
 		/// @brief Default constructor, initialize internal data
 		sequence() noexcept(std::is_nothrow_default_constructible_v<Allocator>)
@@ -1397,8 +1405,7 @@ namespace seq
 		/// @param value fill value
 		/// @param al allocator object
 		sequence(size_type count, const T& value, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al, nullptr)
 		{
 			resize(count, value);
 		}
@@ -1406,16 +1413,14 @@ namespace seq
 		/// @param count initial size
 		/// @param al allocator object
 		explicit sequence(size_type count, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al, nullptr)
 		{
 			resize(count);
 		}
 		/// @brief Copy constructor
 		/// @param other input sequence to copy
 		sequence(const sequence& other)
-		  : Allocator(copy_allocator(other.get_allocator()))
-		  , d_data(nullptr)
+		  : sequence(copy_allocator(other.get_allocator()), nullptr)
 		{
 			if (other.size())
 				import(other);
@@ -1424,8 +1429,7 @@ namespace seq
 		/// @param other input sequence to copy
 		/// @param al allocator object
 		sequence(const sequence& other, const Allocator& al)
-		  : Allocator(al)
-		  , d_data(nullptr)
+		  : sequence(al, nullptr)
 		{
 			if (other.size())
 				import(other);
@@ -1442,8 +1446,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		sequence(sequence&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_data(alloc))
+		  : sequence(alloc, nullptr)
 		{
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
@@ -1456,8 +1459,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param al allocator object
 		sequence(const std::initializer_list<T>& lst, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al, nullptr)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -1468,8 +1470,7 @@ namespace seq
 		/// @param al allocator object
 		template<class Iter>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al, nullptr)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 8f83bbf542d0a1aeae7089abb8405f9c37f5e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 031/106] fix: sequence: assignment between sequences with
 different allocators

---
 seq/sequence.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index e9826ac..e6179c7 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1486,8 +1486,7 @@ namespace seq
 
 				if constexpr (assign_alloc<Allocator>::value) {
 					if (get_allocator() != other.get_allocator()) {
-						destroy_data(d_data);
-						d_data = nullptr;
+						clear();
 					}
 				}
 				assign_allocator(get_allocator(), other.get_allocator());
@@ -1504,9 +1503,24 @@ namespace seq
 		/// @brief Move assignment operator
 		/// @param other input sequence object
 		/// @return reference to this
-		auto operator=(sequence&& other) noexcept(noexcept(std::declval<sequence&>().swap(std::declval<sequence&>()))) -> sequence&
-		{
-			this->swap(other);
+		auto operator=(sequence&& other) noexcept(nothrow_move_alloc<Allocator>::value && noexcept(std::declval<sequence&>().swap(std::declval<sequence&>()))) -> sequence&
+		{
+			if constexpr (!is_always_equal<Allocator>::value) {
+				if (get_allocator() != other.get_allocator()) {
+					if constexpr (!move_alloc<Allocator>::value) {
+						// different allocators: move elements one by one
+						assign(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()));
+						return *this;
+					}
+					else {
+						clear();
+						move_allocator(get_allocator(), other.get_allocator());
+						std::swap(d_data, other.d_data);
+						return *this;
+					}
+				}
+			}
+			std::swap(d_data, other.d_data);
 			return *this;
 		}
 
-- 
2.43.0


From 653febe977b979638a5e1c0a8559bd12c1cb2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 032/106] fix: tiered_vector: sort() used a bucket count that
 filling the front bucket may reduce

---
 seq/tiered_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index dd25275..fa05da9 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2352,7 +2352,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
 
 				size_t size_before = 0;
 				if (bucket_idx)
@@ -2379,6 +2378,9 @@ namespace seq
 					}
 				}
 
+				// Filling the front bucket might have removed back buckets
+				size_t bucket_count = d_buckets.size() - bucket_idx;
+
 				// Create buffer to sort buckets
 				std::vector<T> buf(count / 2);
 
-- 
2.43.0


From 88bc23719d8cda853a7c92dea34c5c073d87c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 033/106] fix: flat containers: lookups in a container that
 became empty read a destroyed element

---
 seq/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..a7e96e2 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,7 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			if SEQ_UNLIKELY (d.size() == 0)
 				return { 0, false };
 
 			using T = typename Deque::value_type;
-- 
2.43.0


From 033905bb19d043c57eb749b7040e83d084fbbd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 034/106] fix: flat containers: equal_range() of an absent key
 holds one element

---
 seq/flat_map.hpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index a7e96e2..4cf341f 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -884,34 +884,19 @@ namespace seq
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) -> std::pair<iterator, iterator>
 			{
 				iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
-				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
-				iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				return std::pair<iterator, iterator>(low, upper_bound(x));
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) const -> std::pair<const_iterator, const_iterator>
 			{
 				const_iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
-				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
-				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				return std::pair<const_iterator, const_iterator>(low, upper_bound(x));
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
 			{
 				size_t low = lower_bound_pos(x);
-				if (low == size())
-					return std::pair<size_t, size_t>(low, low);
-				if constexpr (Unique)
-					return std::pair<size_t, size_t>(low, low + 1);
-				size_t up = upper_bound_pos(x);
-				return std::pair<size_t, size_t>(low, up);
+				return std::pair<size_t, size_t>(low, upper_bound_pos(x));
 			}
 
 			template<class C2, bool Unique2>
-- 
2.43.0


From 0da3361023e6d0b7edb0632a0c7c2626f815d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 035/106] fix: flat containers: insert/assign from non random
 access iterators, contents out of order when they throw

---
 seq/flat_map.hpp | 160 +++++++++++++++--------------------------------
 1 file changed, 50 insertions(+), 110 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 4cf341f..51324d1 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -441,110 +441,59 @@ namespace seq
 			// tiered_vector object
 			container_type d_deque;
 
+			// Empties the container if an operation on several elements does not complete
+			struct clear_guard
+			{
+				container_type* deque;
+				~clear_guard()
+				{
+					if (deque)
+						deque->clear();
+				}
+			};
+			static constexpr bool nothrow_relocation = is_relocatable<Value>::value || (std::is_nothrow_move_constructible_v<Value> && std::is_nothrow_move_assignable_v<Value>);
+			// Insertion/removal of elements inside the tiered_vector: a failure leaves the elements in order if they move without throwing
+			auto shift_guard() noexcept -> clear_guard { return clear_guard{ nothrow_relocation ? nullptr : &d_deque }; }
+
+			// Sort the elements and remove non unique values if necessary
+			void sort_all()
+			{
+				if (!std::is_sorted(d_deque.begin(), d_deque.end(), base()))
+					sort_full_deque<Stable>(d_deque, base());
+				remove_duplicates();
+				d_deque.manager()->update_all_back_values();
+			}
+			void remove_duplicates()
+			{
+				if constexpr (Unique) {
+					auto it = std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
+					d_deque.erase(it.absolutePos(), d_deque.size());
+				}
+			}
+
 			template<class Iter, class Cat>
 			void assign_cat(Iter first, Iter last, Cat /*unused*/)
 			{
-				iterator it = d_deque.begin();
-				iterator en = d_deque.end();
-				bool sorted = true;
-				bool unique = true;
-
 				// Copy the range [first,last) to the tiered_vector using already allocated memory
-
-				Iter prev = first;
-				size_type count = 1;
-				if (d_deque.size() > 0) {
+				clear_guard guard{ &d_deque };
+				size_type count = 0;
+				for (iterator it = d_deque.begin(); count != d_deque.size() && first != last; ++it, ++first, ++count)
 					*it = *first;
-					++it;
-					++first;
-				}
-				else {
+				d_deque.resize(count);
+				for (; first != last; ++first)
 					d_deque.push_back(*first);
-					++first;
-				}
-
-				while (it != en && first != last) {
-					*it = *first;
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-					}
-					++it;
-					prev = first;
-					++first;
-					++count;
-				}
-				while (first != last) {
-					push_back(*first);
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-						prev = first;
-					}
-
-					++first;
-					++count;
-				}
-
-				// Resize if the tiered_vector was bigger
-				resize(count);
-
-				// Sort if necessary, remove non unique values if necessary
-				if (!sorted)
-					sort_full_deque<Stable>(d_deque, base());
-				if constexpr (Unique)
-					if ((!sorted || !unique)) {
-						iterator it =
-						  std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
-						d_deque.erase(it, d_deque.end());
-					}
-				d_deque.manager()->update_all_back_values();
+				sort_all();
+				guard.deque = nullptr;
 			}
 
 			template<class Iter>
 			void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 			{
-				// d_deque.clear();
+				clear_guard guard{ &d_deque };
 				d_deque.resize(static_cast<size_t>(last - first));
-				auto it = d_deque.begin();
-				bool sorted = true;
-				bool unique = true;
-
-				Iter prev = first;
-				*it = *first;
-				++it;
-				++first;
-				while (first != last && sorted) {
-					*it = *first;
-
-					if ((*this)(*first, *prev))
-						sorted = false;
-					else if (Unique && !(*this)(*prev, *first))
-						unique = false;
-					prev = first;
-
-					++it;
-					++first;
-				}
-				while (first != last) {
-					*it = *first;
-					++it;
-					++first;
-				}
-
-				if (!sorted)
-					sort_full_deque<Stable>(d_deque, base());
-				if constexpr (Unique)
-					if ((!sorted || !unique)) {
-						iterator l =
-						  std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
-						d_deque.erase(l, d_deque.end());
-					}
-				d_deque.manager()->update_all_back_values();
+				std::copy(first, last, d_deque.begin());
+				sort_all();
+				guard.deque = nullptr;
 			}
 
 			flat_tree()
@@ -745,21 +694,16 @@ namespace seq
 				}
 
 				size_t size_before = d_deque.size();
-
-				if constexpr (is_random_access_v<InputIt>)
-					// Resize tiered_vector
-					d_deque.resize(std::distance(first, last) + size_before);
+				clear_guard guard{ &d_deque };
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
-				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+				if constexpr (is_random_access_v<InputIt>) {
+					d_deque.resize(static_cast<size_t>(std::distance(first, last)) + size_before);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
+				}
 				else {
-					while (first != last) {
-						*dit = *first;
-						++first;
-						++dit;
-					}
+					for (; first != last; ++first)
+						d_deque.push_back(*first);
 				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
@@ -768,13 +712,9 @@ namespace seq
 
 				// Merge
 				std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(size_before), d_deque.end(), base());
-
-				if constexpr (Unique) {
-					// Remove duplicates
-					auto it = std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
-					d_deque.erase(it.absolutePos(), d_deque.size());
-				}
+				remove_duplicates();
 				d_deque.manager()->update_all_back_values();
+				guard.deque = nullptr;
 			}
 
 			template<class InputIt, class Tag>
-- 
2.43.0


From b1207cda6b027e80443345ed326a1462f5a55a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 036/106] fix: flat containers: elements out of order when an
 insertion or removal throws

---
 seq/flat_map.hpp | 51 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 51324d1..a22c030 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -607,11 +607,18 @@ namespace seq
 			iterator iterator_at(size_t pos) noexcept { return d_deque.iterator_at(pos); }
 			const_iterator iterator_at(size_t pos) const noexcept { return d_deque.iterator_at(pos); }
 
+			template<class Policy, class K, class... Args>
+			void emplace_at(size_t pos, K&& key, Args&&... args)
+			{
+				clear_guard guard = shift_guard();
+				Policy::emplace(d_deque, pos, std::forward<K>(key), std::forward<Args>(args)...);
+				guard.deque = nullptr;
+			}
 			template<class Policy, class K, class... Args>
 			auto emplace_pos_multi(Policy, K&& key, Args&&... args) -> std::pair<size_t, bool>
 			{
 				size_t pos = tvector_upper_bound(d_deque, key, base());
-				Policy::emplace(d_deque, pos, std::forward<K>(key), std::forward<Args>(args)...);
+				emplace_at<Policy>(pos, std::forward<K>(key), std::forward<Args>(args)...);
 				return std::pair<size_t, bool>(pos, true);
 			}
 			template<class Policy, class K, class... Args>
@@ -625,7 +632,7 @@ namespace seq
 					if (l.second)
 						return { l.first, false };
 					l.second = true;
-					Policy::emplace(d_deque, l.first, std::forward<K>(key), std::forward<Args>(args)...);
+					emplace_at<Policy>(l.first, std::forward<K>(key), std::forward<Args>(args)...);
 					return l;
 				}
 
@@ -633,7 +640,7 @@ namespace seq
 				res.first = tvector_lower_bound<!Unique>(d_deque, key, base()).first;
 				res.second = !(res.first != d_deque.size() && !(*this)(key, d_deque[res.first]));
 				if (res.second)
-					Policy::emplace(d_deque, res.first, std::forward<K>(key), std::forward<Args>(args)...);
+					emplace_at<Policy>(res.first, std::forward<K>(key), std::forward<Args>(args)...);
 				return res;
 			}
 			template<class K, class... Args>
@@ -654,7 +661,7 @@ namespace seq
 					if (hint != end() && (*this)(key, *hint)) {
 						auto h = hint;
 						if (hint != begin() && !(*this)(key, *(--hint))) {
-							Policy::emplace(d_deque, static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...);
+							emplace_at<Policy>(static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...);
 							return std::pair<size_t, bool>(static_cast<size_t>(h.pos), true);
 						}
 					}
@@ -664,7 +671,7 @@ namespace seq
 					// value is < hint, check that value before hint is smaller
 					auto h = hint;
 					if (hint == begin() || (*this)(*(--hint), key)) {
-						Policy::emplace(d_deque, static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...);
+						emplace_at<Policy>(static_cast<size_t>(h.pos), std::forward<K>(key), std::forward<Args>(args)...);
 						return std::pair<size_t, bool>(static_cast<size_t>(h.pos), true);
 					}
 				}
@@ -732,11 +739,33 @@ namespace seq
 				}
 				assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
 			}
-			void erase_pos(size_type pos) { d_deque.erase(pos); }
-			auto erase(const_iterator pos) -> iterator { return d_deque.erase(pos); }
-			auto erase(iterator pos) -> iterator { return d_deque.erase(pos); }
-			auto erase(const_iterator first, const_iterator last) -> iterator { return d_deque.erase(first, last); }
-			void erase(size_t first, size_t last) { d_deque.erase(first, last); }
+			void erase_pos(size_type pos)
+			{
+				clear_guard guard = shift_guard();
+				d_deque.erase(pos);
+				guard.deque = nullptr;
+			}
+			auto erase(const_iterator pos) -> iterator
+			{
+				clear_guard guard = shift_guard();
+				iterator it = d_deque.erase(pos);
+				guard.deque = nullptr;
+				return it;
+			}
+			auto erase(iterator pos) -> iterator { return erase(const_iterator(pos)); }
+			auto erase(const_iterator first, const_iterator last) -> iterator
+			{
+				clear_guard guard = shift_guard();
+				iterator it = d_deque.erase(first, last);
+				guard.deque = nullptr;
+				return it;
+			}
+			void erase(size_t first, size_t last)
+			{
+				clear_guard guard = shift_guard();
+				d_deque.erase(first, last);
+				guard.deque = nullptr;
+			}
 			template<class K>
 			auto erase(const K& key) -> size_type
 			{
@@ -744,7 +773,7 @@ namespace seq
 					size_t pos = tvector_binary_search<!Unique>(d_deque, key, base());
 					if (pos == d_deque.size())
 						return 0;
-					d_deque.erase(pos);
+					erase_pos(pos);
 					return 1;
 				}
 				else {
-- 
2.43.0


From b3c9e53b794f030ffe6881eff6451693b204fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 037/106] fix: flat containers: erase_if() on an empty
 container

---
 seq/flat_map.hpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index a22c030..8dc480b 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -785,6 +785,20 @@ namespace seq
 					return count;
 				}
 			}
+			template<class Pred>
+			auto erase_if(Pred p) -> size_type
+			{
+				if (empty())
+					return 0;
+				clear_guard guard{ &d_deque };
+				auto it = std::remove_if(d_deque.begin(), d_deque.end(), p);
+				size_type res = static_cast<size_type>(d_deque.end() - it);
+				d_deque.erase(it, d_deque.end());
+				if (d_deque.manager())
+					d_deque.manager()->update_all_back_values();
+				guard.deque = nullptr;
+				return res;
+			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto find(const K& x) -> iterator
 			{
@@ -1017,6 +1031,10 @@ namespace seq
 	class flat_set
 	{
 		using flat_tree_type = detail::flat_tree<Key, Key, Compare, Allocator, Stable, Unique>;
+		template<class K, class C, class A, bool S, bool U>
+		friend class flat_set;
+		template<class K, class C, class A, bool S, bool U, class P>
+		friend auto erase_if(flat_set<K, C, A, S, U>& s1, P p) -> typename flat_set<K, C, A, S, U>::size_type;
 		flat_tree_type d_tree;
 
 		using Policy = detail::BuildValue<Key, has_is_transparent<Compare>::value>;
@@ -1643,6 +1661,10 @@ namespace seq
 	class flat_map
 	{
 		using flat_tree_type = detail::flat_tree<Key, std::pair<Key, T>, Compare, Allocator, Stable, Unique>;
+		template<class K, class U1, class C, class A, bool S, bool U>
+		friend class flat_map;
+		template<class K, class U1, class C, class A, bool S, bool U, class P>
+		friend auto erase_if(flat_map<K, U1, C, A, S, U>& s1, P p) -> typename flat_map<K, U1, C, A, S, U>::size_type;
 		flat_tree_type d_tree;
 
 		using Policy = detail::BuildValue<std::pair<Key, T>, has_is_transparent<Compare>::value>;
@@ -2234,14 +2256,7 @@ namespace seq
 	template<class Key, class Compare, class Al1, bool S1, bool U1, class Pred>
 	auto erase_if(flat_set<Key, Compare, Al1, S1, U1>& s1, Pred p) -> typename flat_set<Key, Compare, Al1, S1, U1>::size_type
 	{
-		using container_type = typename flat_set<Key, Compare, Al1, S1, U1>::container_type;
-		// use const_cast to avoid flagging the flat_set as dirty
-		container_type& d = const_cast<container_type&>(s1.container());
-		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
-		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
-		return res;
+		return s1.d_tree.erase_if(p);
 	}
 
 	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
@@ -2269,14 +2284,7 @@ namespace seq
 	template<class Key, class T, class Compare, class Al1, bool S1, bool U1, class Pred>
 	auto erase_if(flat_map<Key, T, Compare, Al1, S1, U1>& s1, Pred p) -> typename flat_map<Key, T, Compare, Al1, S1, U1>::size_type
 	{
-		using container_type = typename flat_map<Key, T, Compare, Al1, S1, U1>::container_type;
-		// use const_cast to avoid flagging the flat_set as dirty
-		container_type& d = const_cast<container_type&>(s1.container());
-		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
-		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
-		return res;
+		return s1.d_tree.erase_if(p);
 	}
 
 } // end namespace seq
-- 
2.43.0


From a9e31314f70aa6434797d14349616e4910c503b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 038/106] fix: flat containers: merge()

---
 seq/flat_map.hpp | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 8dc480b..fb86dc5 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -356,7 +356,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								*it_rem = std::move(*first2);
 								++it_rem;
@@ -388,7 +388,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								remaining->push_back(std::move(*first2));
 							}
@@ -882,23 +882,40 @@ namespace seq
 				return std::pair<size_t, size_t>(low, upper_bound_pos(x));
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			template<class C2, bool Stable2, bool Unique2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>& source)
 			{
-				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
+				if (static_cast<const void*>(this) == static_cast<const void*>(std::addressof(source)) || source.empty())
+					return;
+
+				clear_guard guard{ &d_deque };
+				clear_guard source_guard{ &source.d_deque };
+
+				if constexpr (!Unique) {
+					// add elements from source to this tiered_vector
+					insert(std::make_move_iterator(source.begin()), std::make_move_iterator(source.end()), false);
+					source.clear();
+				}
+				else if constexpr (Unique2 && std::is_same_v<C2, Compare>) {
+					container_type out(get_allocator());
+					container_type rem(source.get_allocator());
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
-					d_deque = std::move(out);
-					source.d_deque = std::move(rem);
+					if (out.manager())
+						out.manager()->update_all_back_values();
+					if (rem.manager())
+						rem.manager()->update_all_back_values();
+					d_deque.swap(out);
+					source.d_deque.swap(rem);
 				}
 				else {
-					// add elements from source to this tiered_vector
-					size_t before_size = size();
-					d_deque.insert(d_deque.end(), source.begin(), source.end());
-					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
-					source.clear();
+					container_type rem(source.get_allocator());
+					for (Value& v : source) {
+						if (!emplace(std::move(v)).second)
+							rem.push_back(std::move(v));
+					}
+					source.d_deque.swap(rem);
 				}
+				guard.deque = source_guard.deque = nullptr;
 			}
 
 			auto begin() noexcept -> iterator { return d_deque.begin(); }
@@ -1471,8 +1488,8 @@ namespace seq
 		/// @brief Attempts to extract each element in source and insert it into this using the comparison object of this.
 		/// If there is an element in this with key equivalent to the key of an element from source, then that element is not extracted from source.
 		/// Note that elements from source are moved to this.
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator>& source)
+		template<class C2, bool Stable2, bool Unique2>
+		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator, Stable2, Unique2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
@@ -2047,8 +2064,8 @@ namespace seq
 		}
 		SEQ_ALWAYS_INLINE auto equal_range_pos(const Key& x) const -> std::pair<size_t, size_t> { return d_tree.equal_range_pos(x); }
 
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator>& source)
+		template<class C2, bool Stable2, bool Unique2>
+		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator, Stable2, Unique2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
-- 
2.43.0


From baee0ff346311a03cd943739a89cf1a87514ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 039/106] fix: flat multi containers: assignment of an
 initializer list, insertion of a sorted range do not compile

---
 seq/flat_map.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index fb86dc5..94779c1 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -724,7 +724,7 @@ namespace seq
 				guard.deque = nullptr;
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
@@ -1619,7 +1619,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -1637,11 +1637,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
@@ -2185,7 +2185,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From 88b5a5c5d02a2949c68db83a715d920af91cd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 040/106] fix: flat containers: moving elements between
 different allocators

---
 seq/flat_map.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 94779c1..36ed469 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -540,8 +540,13 @@ namespace seq
 			}
 			flat_tree(flat_tree&& other, const Allocator& alloc)
 			  : base_type(std::move(other))
-			  , d_deque(std::move(other.d_deque), alloc)
+			  , d_deque(alloc)
 			{
+				// Elements moved one by one (different allocators) are left in an unspecified order
+				clear_guard guard{ &other.d_deque };
+				d_deque = container_type(std::move(other.d_deque), alloc);
+				if (d_deque.size())
+					d_deque.manager()->update_all_back_values();
 			}
 			flat_tree(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
 			  : flat_tree(init.begin(), init.end(), comp, alloc)
@@ -555,6 +560,19 @@ namespace seq
 			auto operator=(flat_tree&& other) noexcept(std::is_nothrow_move_assignable_v<base_type> && std::is_nothrow_move_assignable_v<container_type>) -> flat_tree&
 			{
 				if (this != std::addressof(other)) {
+					if constexpr (!is_always_equal<Allocator>::value && !move_alloc<Allocator>::value) {
+						if (get_allocator() != other.get_allocator()) {
+							// Elements moved one by one are left in an unspecified order
+							clear_guard guard{ &d_deque };
+							clear_guard other_guard{ &other.d_deque };
+							d_deque = std::move(other.d_deque);
+							if (d_deque.size())
+								d_deque.manager()->update_all_back_values();
+							base() = std::move(other.base());
+							guard.deque = nullptr;
+							return *this;
+						}
+					}
 					d_deque = std::move(other.d_deque);
 					base() = std::move(other.base());
 				}
-- 
2.43.0


From 34d5bde363e510f30ccfc076234e8071d81c3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 041/106] fix: radix containers: heterogeneous lookup reads a
 destroyed copy of the key

---
 seq/radix_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index e4ef92c..f7fc946 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -49,7 +49,7 @@ namespace seq
 		{
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
 				return ExtractKey{}(p);
 			}
@@ -486,7 +486,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
 				return ExtractKey{}(p);
 			}
-- 
2.43.0


From c473666e6c51d616b5a261d1a9d3b0579282cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 042/106] fix: radix containers: equal_range() of an absent key
 is (end, end)

---
 seq/radix_map.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index f7fc946..314c243 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -385,8 +385,10 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<iterator, iterator>
 		{
 			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
+			if (it == d_tree.end()) {
+				it = d_tree.lower_bound(key);
+				return std::pair<iterator, iterator>(it, it);
+			}
 			auto start = it++;
 			return std::pair<iterator, iterator>(start, it);
 		}
@@ -969,8 +971,10 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) -> std::pair<iterator, iterator>
 		{
 			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
+			if (it == d_tree.end()) {
+				it = d_tree.lower_bound(key);
+				return std::pair<iterator, iterator>(it, it);
+			}
 			auto start = it++;
 			return std::pair<iterator, iterator>(start, it);
 		}
@@ -979,8 +983,10 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<const_iterator, const_iterator>
 		{
 			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<const_iterator, const_iterator>(d_tree.end(), d_tree.end());
+			if (it == d_tree.end()) {
+				it = d_tree.lower_bound(key);
+				return std::pair<const_iterator, const_iterator>(it, it);
+			}
 			auto start = it++;
 			return std::pair<const_iterator, const_iterator>(start, it);
 		}
-- 
2.43.0


From 70f203b749c77201420d46e5797b5dfdca8055c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 043/106] fix: radix containers: -0. and 0. are different keys

---
 seq/internal/radix_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..16c60b9 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -171,7 +171,7 @@ namespace seq
 			{
 				float d;
 				std::uint32_t u;
-			} u = { k };
+			} u = { k + 0.f }; // -0 and 0 are the same key
 			// Flip all except top if top bit is set.
 			u.u ^= ((static_cast<unsigned>((static_cast<int>(u.u)) >> 31)) >> 1);
 			// Flip top bit.
@@ -184,7 +184,7 @@ namespace seq
 			{
 				double d;
 				std::uint64_t u;
-			} u = { k };
+			} u = { k + 0. }; // -0 and 0 are the same key
 			// Flip all except top if top bit is set.
 			u.u ^= ((static_cast<std::uint64_t>((static_cast<std::int64_t>(u.u)) >> 63ll)) >> 1ll);
 			// Flip top bit.
-- 
2.43.0


From 476615cce5d4fb0070c610dca33f80c1c2475d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 044/106] fix: radix containers: sequences of signed or 8 byte
 values out of order

---
 seq/internal/radix_tree.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 16c60b9..1428df7 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -384,22 +384,24 @@ namespace seq
 					type* p = reinterpret_cast<type*>(&hash);
 					unsigned_type* up = reinterpret_cast<unsigned_type*>(&hash);
 					static_assert(!std::is_const_v<T>, " const type!");
+					// Characters past the end must remain 0, even for signed types
+					const size_t remaining = char_offset < size ? size - char_offset : 0;
 					if constexpr (sizeof(type) == 2) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						up[2] = swap_b(to_uint(p[2]));
-						up[3] = swap_b(to_uint(p[3]));
+						up[0] = remaining > 0 ? swap_b(to_uint(p[0])) : 0;
+						up[1] = remaining > 1 ? swap_b(to_uint(p[1])) : 0;
+						up[2] = remaining > 2 ? swap_b(to_uint(p[2])) : 0;
+						up[3] = remaining > 3 ? swap_b(to_uint(p[3])) : 0;
 						hash = swap_b(hash);
 					}
 					else if constexpr (sizeof(type) == 4) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
+						up[0] = remaining > 0 ? swap_b(to_uint(p[0])) : 0;
+						up[1] = remaining > 1 ? swap_b(to_uint(p[1])) : 0;
 						hash = swap_b(hash);
 					}
 					else {
 						// no byte swap here, just plain old bits manipulation
-						up[0] = to_uint(p[0]);
-						if (shift > 32 && (char_offset + 1) < size) {
+						up[0] = remaining > 0 ? to_uint(p[0]) : 0;
+						if (byte_offset && shift > 32 && (char_offset + 1) < size) {
 							auto hash2 = to_uint(data[char_offset + 1]);
 							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
 							return static_cast<unsigned>((hash << bit_offset) >> (64u - count));
-- 
2.43.0


From e17d176d2c5700aed385ddbee2af4b5ae70e77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 045/106] fix: radix containers: merge(), lower_bound() and
 upper_bound() with a key extractor do not compile

---
 seq/internal/radix_tree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 1428df7..7fe4163 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1993,7 +1993,7 @@ namespace seq
 
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					if (this->emplace(std::move(const_cast<value_type&>(*it))).second)
 						it = other.erase(it);
 					else
 						++it;
@@ -3313,7 +3313,7 @@ namespace seq
 			template<class U>
 			SEQ_ALWAYS_INLINE const_iterator lower_bound(const U& k) const
 			{
-				return lower_bound_hash(hash_key(k), k);
+				return lower_bound_hash(hash_key(k), ExtractKey{}(k));
 			}
 
 			SEQ_ALWAYS_INLINE const_iterator upper_bound_hash(const_hash_ref hash, const key_type& key) const
@@ -3326,7 +3326,7 @@ namespace seq
 			template<class U>
 			SEQ_ALWAYS_INLINE const_iterator upper_bound(const U& k) const
 			{
-				return upper_bound_hash(hash_key(k), k);
+				return upper_bound_hash(hash_key(k), ExtractKey{}(k));
 			}
 
 			/// @brief Find key based on its hash value
-- 
2.43.0


From 8a0fb47fb379ce5e6e59fc8d16386ba5c92249eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 046/106] fix: radix containers: a throwing insertion or
 removal in a leaf destroys elements twice or loses them

---
 seq/internal/radix_tree.hpp | 161 +++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 84 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 7fe4163..ae66459 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -719,76 +719,69 @@ namespace seq
 			return lower_bound<false, T>(vals, size, key, [](const auto& l, const auto& r) { return Hasher::less(ExtractKey{}(l), ExtractKey{}(r)); }).first;
 		}
 
-		/// @brief Copy count elements from src to dst while destroying elements in src
-		/// In case of exception, destroy all elements in in src and dst.
+		/// @brief Tells if elements can be moved around without throwing
 		template<class U>
-		static inline void copy_destroy(U* dst, U* src, unsigned count)
+		static constexpr bool nothrow_move_v = std::is_nothrow_move_constructible_v<U> && std::is_nothrow_move_assignable_v<U>;
+
+		/// @brief Move count elements from src to dst while destroying elements in src.
+		/// Leaves room for gap elements at position pos, and ignores skip elements of src at position pos.
+		/// In case of exception, destroy all elements created in dst and leave src unchanged (if U is nothrow movable or copyable).
+		template<class U>
+		static inline void copy_destroy(U* dst, U* src, unsigned count, unsigned pos, unsigned gap, unsigned skip = 0)
 		{
-			if constexpr (is_relocatable<U>::value)
-				memcpy(static_cast<void*>(dst), static_cast<const void*>(src), sizeof(U) * count);
+			if constexpr (is_relocatable<U>::value) {
+				for (unsigned i = pos; i < pos + skip; ++i)
+					src[i].~U();
+				memcpy(static_cast<void*>(dst), static_cast<const void*>(src), sizeof(U) * pos);
+				memcpy(static_cast<void*>(dst + pos + gap), static_cast<const void*>(src + pos + skip), sizeof(U) * (count - pos - skip));
+			}
 			else {
 				unsigned i = 0;
 				try {
-					for (; i < count; ++i) {
-						new (dst + i) U(std::move(src[i]));
-						src[i].~U();
-					}
+					for (; i < pos; ++i)
+						new (dst + i) U(std::move_if_noexcept(src[i]));
+					for (i = pos + skip; i < count; ++i)
+						new (dst + i + gap - skip) U(std::move_if_noexcept(src[i]));
 				}
 				catch (...) {
 					// destroy created elements
-					for (unsigned j = 0; j < i; ++j)
-						dst[j].~U();
-					// finish destroying src
-					for (; i < count; ++i) {
-						src[i].~U();
+					for (unsigned j = 0; j < i; ++j) {
+						if (j < pos)
+							dst[j].~U();
+						else if (j >= pos + skip)
+							dst[j + gap - skip].~U();
 					}
 					throw;
 				}
+				for (i = 0; i < count; ++i)
+					src[i].~U();
 			}
 		}
 
-		/// @brief Insert element at src position while moving elements to the right at dst.
-		/// Basic exception guarantee.
+		/// @brief Insert element at src position while moving elements to the right.
+		/// U must be relocatable or nothrow movable. Strong exception guarantee.
 		template<class U, class Policy, class... Args>
-		static void SEQ_ALWAYS_INLINE insert_move_right(U* dst, U* src, unsigned count, Policy, Args&&... args)
+		static void SEQ_ALWAYS_INLINE insert_move_right(U* src, unsigned count, Policy, Args&&... args)
 		{
-			// Move src to the right
-			// In case of exception, values are in undefined state, but no new value created (basic exception guarantee)
+			// Create the new value first, as its construction might throw and as it might depend on the moved elements.
+			alignas(U) unsigned char storage[sizeof(U)];
+			U* tmp = reinterpret_cast<U*>(storage);
+			Policy::emplace(tmp, std::forward<Args>(args)...);
 
 			if constexpr (is_relocatable<U>::value) {
-				if (count)
-					memmove(static_cast<void*>(dst), static_cast<void*>(src), count * sizeof(U));
-				try {
-					Policy::emplace(src, std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// move back to the left
-					memmove(static_cast<void*>(src), static_cast<const void*>(dst), count * sizeof(U));
-					throw;
-				}
+				memmove(static_cast<void*>(src + 1), static_cast<void*>(src), count * sizeof(U));
+				memcpy(static_cast<void*>(src), static_cast<const void*>(tmp), sizeof(U));
 			}
 			else {
-				try {
-					if (count) {
-						new (dst + count - 1) U();
-						std::move_backward(src, src + count, dst + count);
-						src->~U();
-						Policy::emplace(src, std::forward<Args>(args)...);
-					}
-					else
-						Policy::emplace(src, std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// destroy created element
-					if (count)
-						(dst + count - 1)->~U();
-					throw;
-				}
+				new (src + count) U(std::move(src[count - 1]));
+				std::move_backward(src, src + count - 1, src + count);
+				*src = std::move(*tmp);
+				tmp->~U();
 			}
 		}
 
 		/// @brief Erase element at pos in src.
-		/// Basic exception guarantee
+		/// U must be relocatable or nothrow movable.
 		template<class U>
 		static void erase_pos(U* src, unsigned pos, unsigned count)
 		{
@@ -797,7 +790,6 @@ namespace seq
 				memmove(static_cast<void*>(src + pos), static_cast<const void*>(src + pos + 1), (count - pos - 1) * sizeof(U));
 			}
 			else {
-				// might throw, in which case the count remains the same.
 				std::move(src + pos + 1, src + count, src + pos);
 				src[count - 1].~U();
 			}
@@ -1010,31 +1002,21 @@ namespace seq
 					Policy::emplace((n->values() + pos), std::forward<Args>(args)...);
 					n->hashs()[pos] = th;
 					try {
-						if (Sorted && old_size != pos) {
-							copy_destroy(n->hashs(), this->hashs(), pos);
-							copy_destroy(n->hashs() + pos + 1, this->hashs() + pos, (old_size - pos));
-
-							// both calls might throw
-							copy_destroy(n->values(), this->values(), pos);
-							copy_destroy(n->values() + pos + 1, this->values() + pos, (old_size - pos));
-						}
-						else {
-							copy_destroy(n->hashs(), this->hashs(), old_size);
-							// both calls might throw
-							copy_destroy(n->values(), this->values(), old_size);
-						}
+						// might throw
+						copy_destroy(n->values(), this->values(), old_size, pos, 1);
 					}
 					catch (...) {
 						n->values()[pos].~T();
 						throw;
 					}
+					copy_destroy(n->hashs(), this->hashs(), old_size, pos, 1);
 				}
 				catch (...) {
 					al.deallocate(n, hash_for_size(old_size + 1, new_capacity), new_capacity);
 					throw;
 				}
 
-				al.deallocate(this, hash_for_size(old_size, old_size), old_size);
+				al.deallocate(this, hash_for_size(old_size, *capacity()), *capacity());
 
 				return std::pair<LeafNode*, unsigned>(n, pos);
 			}
@@ -1051,7 +1033,9 @@ namespace seq
 				else
 					pos = size;
 
-				if SEQ_UNLIKELY (*capacity() == size) {
+				// moving elements within the leaf might throw: use a new leaf instead
+				static constexpr bool move_in_place = is_relocatable<T>::value || nothrow_move_v<T>;
+				if SEQ_UNLIKELY (*capacity() == size || (!move_in_place && Sorted && pos != size)) {
 					// might throw, fine
 					auto res = switch_buffer(al, size, pos, th, p, std::forward<K>(key), std::forward<Args>(args)...);
 					(*res.first->size())++;
@@ -1059,8 +1043,10 @@ namespace seq
 				}
 
 				if (Sorted && pos != size) {
-					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
-					insert_move_right(values() + pos + 1, values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					if constexpr (move_in_place) {
+						insert_move_right(values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+						insert_move_right(hashs() + pos, (size - pos), EmplacePolicy{}, th);
+					}
 				}
 				else {
 					Policy::emplace((values() + size), std::forward<K>(key), std::forward<Args>(args)...);
@@ -1074,36 +1060,43 @@ namespace seq
 			template<class NodeAllocator>
 			LeafNode* erase(NodeAllocator& al, unsigned pos)
 			{
-				erase_pos(values(), pos, *size());
-				erase_pos(hashs(), pos, *size());
-				(*size())--;
+				static constexpr bool move_in_place = is_relocatable<T>::value || nothrow_move_v<T>;
+				const unsigned count = *size();
 
-				if (*size() == 0) {
-					unsigned cap = capacity_for_size(1);
-					al.deallocate(this, hash_for_size(1, cap), cap);
+				if (count == 1) {
+					values()[0].~T();
+					al.deallocate(this, hash_for_size(1, *capacity()), *capacity());
 					return nullptr;
 				}
 
-				unsigned cap = capacity_for_size(*size());
-				if (cap != *capacity()) {
-					// might throw, fine
-					LeafNode* n = al.allocate(hash_for_size(*size(), cap), cap);
-					*n->size() = *this->size();
-					*n->capacity() = cap;
-
+				unsigned cap = capacity_for_size(count - 1);
+				if (cap != *capacity() || !move_in_place) {
+					LeafNode* n = nullptr;
 					try {
-						copy_destroy(n->values(), values(), *size());
-						copy_destroy(n->hashs(), this->hashs(), *size());
+						n = al.allocate(hash_for_size(count - 1, cap), cap);
+						*n->size() = count - 1;
+						*n->capacity() = cap;
+						copy_destroy(n->values(), values(), count, pos, 0, 1);
 					}
 					catch (...) {
-						al.deallocate(n, hash_for_size(*size(), cap), cap);
-						throw;
+						if (n)
+							al.deallocate(n, hash_for_size(count - 1, cap), cap);
+						if (!move_in_place)
+							throw;
+						n = nullptr; // cannot shrink: keep this leaf
 					}
+					if (n) {
+						copy_destroy(n->hashs(), this->hashs(), count, pos, 0, 1);
+						al.deallocate(this, hash_for_size(count, *capacity()), *capacity());
+						return n;
+					}
+				}
 
-					al.deallocate(this, hash_for_size(*size() + 1, *capacity()), *capacity());
-
-					return n;
+				if constexpr (move_in_place) {
+					erase_pos(values(), pos, count);
+					erase_pos(hashs(), pos, count);
 				}
+				(*size())--;
 				return this;
 			}
 
-- 
2.43.0


From 2e3aff05c55878ef11ec4c5ddb0a3cf1b6bd53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 047/106] fix: radix containers: constructors leak when they
 throw, moving between different allocators

---
 seq/internal/radix_tree.hpp | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index ae66459..a660ef1 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1897,19 +1897,13 @@ namespace seq
 			}
 
 			RadixTree(const RadixTree& other)
-			  : Hash(other)
-			  , Allocator(copy_allocator(other.get_allocator()))
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), copy_allocator(other.get_allocator()))
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
 			}
 			RadixTree(const RadixTree& other, const Allocator& al)
-			  : Hash(other)
-			  , Allocator(al)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), al)
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
@@ -1924,22 +1918,17 @@ namespace seq
 				swap(other, false);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
-			  : Hash(other)
-			  , Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), alloc)
 			{
 				if (alloc == other.get_allocator())
 					swap(other, false);
-				else if (other.size())
-					insert(make_move_iterator(other.begin()), make_move_iterator(other.end()), false);
+				else
+					move_elements(other);
 			}
 
 			template<class Iter>
 			RadixTree(Iter first, Iter last, const Allocator& alloc = Allocator())
-			  : Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(alloc)
 			{
 				insert(first, last);
 			}
@@ -1949,9 +1938,17 @@ namespace seq
 
 			// Assignment operators/functions
 
-			auto operator=(RadixTree&& other) noexcept(noexcept(std::declval<RadixTree&>().swap(std::declval<RadixTree&>()))) -> RadixTree&
+			auto operator=(RadixTree&& other) noexcept(is_always_equal<Allocator>::value || move_alloc<Allocator>::value) -> RadixTree&
 			{
-				swap(other);
+				if (std::addressof(other) != this) {
+					clear();
+					if (move_alloc<Allocator>::value || get_allocator() == other.get_allocator()) {
+						move_allocator<Allocator>(*this, other);
+						swap(other, false);
+					}
+					else
+						move_elements(other);
+				}
 				return *this;
 			}
 
@@ -2030,6 +2027,18 @@ namespace seq
 					swap_allocator<Allocator>(*this, other);
 			}
 
+			/// @brief Move all elements of other, which uses a different allocator, to this empty tree
+			void move_elements(RadixTree& other)
+			{
+				// Elements moved one by one are left in an unspecified state
+				struct clear_guard
+				{
+					RadixTree* tree;
+					~clear_guard() { tree->clear(); }
+				} guard{ &other };
+				insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
+			}
+
 			/// @brief Reserve capcity ahead, only works for unsorted trees
 			void reserve(size_t capacity)
 			{
-- 
2.43.0


From b9083f0672b5a926724f65a5ed80cd0f4294425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 048/106] fix: radix containers: shrink_to_fit() loses elements
 when it throws

---
 seq/internal/radix_tree.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index a660ef1..0c9b56a 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2068,7 +2068,24 @@ namespace seq
 				// Create new radix tree and reinsert all values inside
 				RadixTree other(static_cast<Hash&>(*this), get_allocator());
 				other.reserve(this->size());
-				other.insert(std::make_move_iterator(begin()), std::make_move_iterator(end()), false);
+				if constexpr (!nothrow_move_v<T> && std::is_copy_constructible_v<T>)
+					other.insert(begin(), end(), false);
+				else {
+					try {
+						other.insert(std::make_move_iterator(begin()), std::make_move_iterator(end()), false);
+					}
+					catch (...) {
+						if constexpr (is_sorted) {
+							// Give back the moved values
+							auto dst = begin();
+							for (auto it = other.begin(); it != other.end(); ++it, ++dst)
+								*dst = std::move(*it);
+						}
+						else
+							clear();
+						throw;
+					}
+				}
 				other.swap(*this);
 			}
 
-- 
2.43.0


From 88f1fe574959c430dcd32e10ae2b253029722b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 049/106] fix: radix containers: insertion that throws
 terminates, or leaves moved-from or unsorted elements

---
 seq/internal/radix_tree.hpp | 46 ++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 0c9b56a..9b47433 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2504,10 +2504,17 @@ namespace seq
 					T* vals = child->values();
 					unsigned count = child->count();
 					for (unsigned i = 0; i < count; ++i)
-						vec->emplace_no_check(std::move(vals[i]));
+						vec->emplace_no_check(std::move_if_noexcept(vals[i]));
 					position = Policy::emplace_vector_no_check(*vec, std::forward<K>(key), std::forward<Args>(args)...);
 				}
 				catch (...) {
+					// give back the moved values
+					if constexpr (nothrow_move_v<T>) {
+						for (unsigned i = 0; i < vec->size(); ++i) {
+							child->values()[i] = std::move(const_cast<T&>(vec->at(i)));
+							child->hashs()[i] = hash_key(child->values()[i]).tiny_hash();
+						}
+					}
 					d_data->base.destroy_vector(vec);
 					throw;
 				}
@@ -2581,7 +2588,7 @@ namespace seq
 
 						if (!child_dir->const_child(new_pos).full()) {
 							// create node. If this throw, the new directory is destroyed (basic exception guarantee)
-							n = node::make(d_data->base, cth, EmplacePolicy{}, std::move(vals[i])).first;
+							n = node::make(d_data->base, cth, EmplacePolicy{}, std::move_if_noexcept(vals[i])).first;
 							child_dir->child(new_pos) = child_ptr(n, directory::IsLeaf);
 							child_dir->child_count++;
 							child_dir->first_valid_child = new_pos;
@@ -2591,14 +2598,25 @@ namespace seq
 							// if Sort is false, insert the value at the end of the leaf (only for sorted nodes)
 							n = static_cast<node*>(child_dir->const_child(new_pos).ptr());
 							auto p = n->template insert<extract_key_type, Less>(
-							  d_data->base, hash_bits, Sort ? static_cast<unsigned>(-1) : n->count(), cth, EmplacePolicy{}, std::move(vals[i]));
+							  d_data->base, hash_bits, Sort ? static_cast<unsigned>(-1) : n->count(), cth, EmplacePolicy{}, std::move_if_noexcept(vals[i]));
 							child_dir->child(new_pos) = child_ptr(n = p.first, directory::IsLeaf);
 						}
 					}
 				}
 				catch (...) {
-					// In case of exception, just destroyed the newly created directory.
-					// Some values might have been moved to it but, hey, this is basic exception guarantee only
+					// In case of exception, give back the moved values and destroy the newly created directory.
+					if constexpr (nothrow_move_v<T>) {
+						unsigned i = 0;
+						child_dir->for_each_leaf([&](directory* d, unsigned p) {
+							node* leaf = d->child(p).to_node();
+							for (unsigned j = 0; j < leaf->count(); ++j, ++i) {
+								child->values()[i] = std::move(leaf->values()[j]);
+								child->hashs()[i] = leaf->hashs()[j];
+							}
+						});
+						if constexpr (Sort)
+							child->template sort<extract_key_type>(Less{});
+					}
 					directory::destroy(d_data->base, child_dir);
 					throw;
 				}
@@ -2730,7 +2748,7 @@ namespace seq
 			}
 
 			template<class U>
-			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) noexcept -> directory*
+			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) -> directory*
 			{
 				// Check if the value to insert follows the directory prefix.
 				// If not, create an intermediate directory with a new prefix.
@@ -2897,8 +2915,20 @@ namespace seq
 					return;
 
 				const_iterator it = this->end();
-				for (; start != end; ++start) {
-					it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+				if constexpr (is_sorted && !nothrow_move_v<T>) {
+					// Sorting leaves might throw
+					for (; start != end; ++start)
+						it = this->template emplace_hash_hint<true>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+					return;
+				}
+				try {
+					for (; start != end; ++start) {
+						it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+					}
+				}
+				catch (...) {
+					sort_leaves();
+					throw;
 				}
 				if (is_sorted && _sort_leaves)
 					sort_leaves();
-- 
2.43.0


From 15bdadef720b65b809aff92a44ec777e2e69e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 050/106] fix: radix containers: dangling root directory when a
 merge or a rebalance throws

---
 seq/internal/radix_tree.hpp | 42 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 9b47433..5e0306e 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2390,6 +2390,9 @@ namespace seq
 						if (parent_dir->first_valid_child == parent_pos)
 							parent_dir->invalidate_first_valid();
 					}
+					else
+						// merging might throw
+						d_root = d_data->base.root = new_dir;
 					directory* d = merge_dir(new_dir);
 					if (!d)
 						break;
@@ -2948,7 +2951,7 @@ namespace seq
 				return first;
 			}
 
-			size_t remove_directory(directory* d)
+			size_t remove_directory(directory* d, directory* new_root)
 			{
 				// Remove the directory from the tree
 				// and returns the total number fo removed elements.
@@ -2957,14 +2960,9 @@ namespace seq
 				//
 				// This leave the tree in a valid state.
 
-				if (!d->parent) {
+				if (!d->parent)
 					// Root dir
-					// Create a new root of half the size, might throw, fine
-					auto* new_root = directory::make(d_data->base, d->hash_len - start_arity);
 					d_data->base.root = d_root = new_root;
-				}
-
-				// The remaining does not throw
 
 				auto* p = d->parent;
 
@@ -3009,11 +3007,30 @@ namespace seq
 			{
 				const_iterator res = end();
 
+				// If d is the root, create a new root of half the size
+				directory* new_root = nullptr;
+				if (!d->parent) {
+					try {
+						new_root = directory::make(d_data->base, d->hash_len - start_arity);
+					}
+					catch (...) {
+						// Do not rebalance
+						return it;
+					}
+				}
+
 				// Move iterator value to tmp storage
 				alignas(T) char data[sizeof(T)];
 				T* value = it == end() ? nullptr : (T*)data;
 				if (value) {
-					new (value) T(std::move(*it));
+					try {
+						new (value) T(std::move_if_noexcept(*it));
+					}
+					catch (...) {
+						if (new_root)
+							directory::destroy(d_data->base, new_root);
+						throw;
+					}
 				}
 
 				// Check if 'it' is inside d.
@@ -3031,8 +3048,8 @@ namespace seq
 					}
 				}
 
+				remove_directory(d, new_root);
 				try {
-					remove_directory(d);
 
 					// Reinsert all values inside directory into the tree
 					d->for_each_leaf([this, &it](directory* dir, unsigned pos) {
@@ -3063,9 +3080,10 @@ namespace seq
 					}
 				}
 				catch (...) {
-					// Destroy the directory and recompute ends
-					// to leave the tree in a valid state
-					directory::destroy(d_data->base, d);
+					// Destroy the directory to leave the tree in a valid state.
+					// Note that the tree itself might have been cleared.
+					root_type base(get_allocator());
+					directory::destroy(base, d);
 					if (value)
 						value->~T();
 					throw;
-- 
2.43.0


From e81214ccbb709cc991b486a8a6cb91b82aec86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 051/106] fix: radix containers: erasing the last element of a
 vector node leaks it

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 5e0306e..296122e 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3113,7 +3113,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From 0d2316ce49028aea261617dcea2b45153d047ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 052/106] fix: ordered containers: rehash(n) with n below the
 size never ends, and a copied one-element container is not indexed

---
 seq/ordered_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..a6fa143 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -583,6 +583,9 @@ namespace seq
 					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
 				if (size == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
+				// The table must always have an empty bucket
+				if (size <= this->size())
+					size = this->size() + 1;
 				size_t new_hash_mask;
 				size_t new_hash_len;
 				if ((size & (size - 1ULL)) == 0ULL)
-- 
2.43.0


From 1f63fd2bbb7c980d71ed0d2dcf57e00d8bbd0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 053/106] fix: ordered containers: linear probing stops at a
 tombstone on insertion (duplicate keys) or never ends

---
 seq/ordered_map.hpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index a6fa143..a998148 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -648,27 +648,44 @@ namespace seq
 				const auto* end = d_buckets + d_hash_mask;
 				dist_type dist = 0;
 
-				// Combination of linear and robin-hood probing in the same loop.
-				// An empty node has a distance of -1 and break the probe chain.
-				// A tombstone has a value 127 and never break the probe chain
-				// (it is superior to node_type::max_distance which is 126, and dist is never incremented when tombstones are present: linear situation)
-				// A tombstone value is never checked as its tiny hash is 0 (which is invalid).
+				// Robin-hood probing: an empty node has a distance of -1 and break the probe chain.
 
-				if SEQ_UNLIKELY(!robin_hood)
+				if SEQ_UNLIKELY(!robin_hood) {
 					check_hash_operation();
+					return find_linear(hash, key);
+				}
 
 				while (!(dist > it->distance())) {
 					// Check for equality (first the hash part and then the key itself).
 					if (h == it->hash() && (*this)(extract_key::key(sequence_node_value(*it)), key))
 						return const_iterator(it->node(), it->pos());
 					it = it == end ? d_buckets : it + 1;
-					if SEQ_LIKELY(robin_hood)
-						++dist;
+					++dist;
 				}
 				// Failed lookup
 				return d_seq.end();
 			}
 
+			template<class K>
+			SEQ_NOINLINE(auto)
+			find_linear(size_t hash, const K& key) const -> const_iterator
+			{
+				// Key lookup using linear probing.
+				// An empty node has a distance of -1 and break the probe chain, a tombstone does not.
+				// A tombstone value is never checked as its tiny hash is 0 (which is invalid).
+				// There might be no empty node left, only tombstones.
+
+				const tiny_hash h = node_type::small_hash(hash);
+				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
+				for (size_t count = 0; count <= d_hash_mask && d_buckets[index].distance() != -1; ++count) {
+					const node_type& n = d_buckets[index];
+					if (h == n.hash() && (*this)(extract_key::key(sequence_node_value(n)), key))
+						return const_iterator(n.node(), n.pos());
+					index = index == d_hash_mask ? 0 : index + 1;
+				}
+				return d_seq.end();
+			}
+
 			template<class K>
 			SEQ_ALWAYS_INLINE auto find(const K& key) const -> const_iterator
 			{
@@ -685,10 +702,11 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
+				// Pure linear hashing: the key might be located after a tombstone
+				const_iterator found = find_linear(hash, extract_key::key(key));
+				if (found != d_seq.end())
+					return std::pair<iterator, bool>(iterator(found), false);
 				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
-						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
-- 
2.43.0


From 13634c12e13260a8b3809d9b7950c4933db59118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 054/106] fix: ordered containers: stable_sort() of ordered_map
 does not compile, ordered_set lacks it

---
 seq/ordered_map.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index a998148..3ddc473 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1299,6 +1299,12 @@ namespace seq
 			sequence().sort();
 			rehash();
 		}
+		template<class Less>
+		void stable_sort(Less le)
+		{
+			sort(le);
+		}
+		void stable_sort() { sort(); }
 		
 		/// @brief Calls seq::sequence::shrink_to_fit().
 		/// Remove potential holes in the sequence object due to calls to ordered_set::erase().
@@ -1721,12 +1727,12 @@ namespace seq
 		template<class Less>
 		void stable_sort(Less le)
 		{
-			sequence().stable_sort(LessAdapter<Less>(le));
+			sequence().sort(LessAdapter<Less>(le));
 			this->base_type::rehash();
 		}
 		void stable_sort()
 		{
-			sequence().stable_sort(LessAdapter<std::less<Key>>());
+			sequence().sort(LessAdapter<std::less<Key>>());
 			this->base_type::rehash();
 		}
 		void shrink_to_fit()
-- 
2.43.0


From d534c9789c3a1475c464677c4ab5751d5a716b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 055/106] fix: ordered_map: insert(hint, P&&) does not compile

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 3ddc473..9eb9d2a 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1775,7 +1775,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
-- 
2.43.0


From e898c5039c738fe4ecaa6f005edd7e0e7649844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 056/106] fix: ordered containers: a rehash that throws loses
 the hash table

---
 seq/ordered_map.hpp | 46 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 9eb9d2a..e9e1d8a 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -293,22 +293,32 @@ namespace seq
 			void rehash(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
 			{
 				// Rehash the table for given mask value.
-				// The old table is dropped before creating the new one, avoiding memory peaks.
+				// The old table is kept until the new one is complete: it is left unchanged if anything throws.
 				// Do not check for potential duplicate values.
 
+				node_type* buckets = make_buckets((new_hash_mask + 1ULL));
+				const int max_dist = d_max_dist;
+				d_max_dist = 1;
 				try {
-					free_buckets(d_buckets);
-					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
-					d_max_dist = 1;
-					d_buckets = make_buckets((new_hash_mask + 1ULL));
+					fill_buckets(buckets, new_hash_mask, new_hash_len, first, last);
 				}
 				catch (...) {
-					// mark as dirty
-					mark_dirty();
+					d_max_dist = max_dist;
+					node_allocator al = d_seq.get_allocator();
+					al.deallocate(buckets, new_hash_mask + 1ULL);
 					throw;
 				}
 
+				free_buckets(d_buckets);
+				d_buckets = buckets;
+				d_hash_mask = new_hash_mask;
+				d_hash_len = new_hash_len;
+				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+			}
+
+			template<class Iter>
+			void fill_buckets(node_type* buckets, size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
+			{
 				size_t hash, index;
 				size_t hmask = new_hash_mask;
 				typename node_type::dist_type dist = 0;
@@ -321,24 +331,24 @@ namespace seq
 					// Compute index
 					index = mask_hash(hash, new_hash_mask, new_hash_len);
 
-					if (d_buckets[index].distance() == -1) {
-						d_buckets[index] = node_type(node_type::small_hash(hash), 0, first.as_uint());
+					if (buckets[index].distance() == -1) {
+						buckets[index] = node_type(node_type::small_hash(hash), 0, first.as_uint());
 						continue;
 					}
 
 					// Robin-hood probing
 					dist = 0;
-					while (dist <= d_buckets[index].distance()) {
+					while (dist <= buckets[index].distance()) {
 						index = (index == hmask) ? 0 : index + 1;
 						dist++;
 					}
 					d_max_dist = (dist > d_max_dist) ? dist : d_max_dist;
-					node_type n = d_buckets[index];
-					d_buckets[index] = node_type(node_type::small_hash(hash), dist, first.as_uint());
+					node_type n = buckets[index];
+					buckets[index] = node_type(node_type::small_hash(hash), dist, first.as_uint());
 
 					// Insert node
 					// if (dist)
-					start_insert(d_buckets, new_hash_mask, index, dist, n);
+					start_insert(buckets, new_hash_mask, index, dist, n);
 				}
 
 				for (; first != last; ++first) {
@@ -348,16 +358,12 @@ namespace seq
 					index = mask_hash(hash, new_hash_mask, new_hash_len);
 
 					// Pure linear hashing
-					while (!d_buckets[index].null()) {
+					while (!buckets[index].null()) {
 						index = (index == hmask) ? 0 : index + 1;
 					}
 					// Insert
-					d_buckets[index] = node_type(node_type::small_hash(hash), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, first.as_uint());
+					buckets[index] = node_type(node_type::small_hash(hash), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, first.as_uint());
 				}
-
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
-				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
 			template<class Iter>
-- 
2.43.0


From 5508da7db3b82d85e5e241ec61fd5cb2b5c35cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 057/106] fix: ordered containers: wrong wrap around and lost
 table when removing duplicates in a rehash

---
 seq/ordered_map.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index e9e1d8a..06f6984 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -379,12 +379,20 @@ namespace seq
 					d_next_target = d_hash_mask = d_hash_len = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
+					d_hash_mask = new_hash_mask;
+					d_hash_len = new_hash_len;
+					insert_remove_duplicates(new_hash_mask, new_hash_len, first, last);
 				}
 				catch (...) {
 					mark_dirty();
 					throw;
 				}
+				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+			}
 
+			template<class Iter>
+			void insert_remove_duplicates(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
+			{
 				size_t hash, index, dist;
 				size_t bsize = new_hash_mask + 1ULL;
 
@@ -435,14 +443,10 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
-				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
 			SEQ_ALWAYS_INLINE void start_insert(node_type* buckets, size_t hash_mask, size_t index, typename node_type::dist_type dist, node_type node) noexcept
-- 
2.43.0


From 9a492309a3e0a5b0c5dd2c35863e60412544bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 058/106] fix: ordered containers: copy/move assignment ignore
 allocators and hash functions and keep a stale table

---
 seq/ordered_map.hpp | 80 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 06f6984..140ca82 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -534,8 +534,10 @@ namespace seq
 					other.d_max_dist = 1;
 				}
 				else {
-					// rehash
+					// The values were moved one by one: the table of the other container is not valid anymore
 					d_buckets = null_node();
+					d_next_target = d_hash_mask = d_hash_len = 0;
+					other.clear();
 					rehash(0, true);
 				}
 			}
@@ -554,7 +556,63 @@ namespace seq
 					std::swap(d_max_dist, other.d_max_dist);
 					std::swap(d_load_factor, other.d_load_factor);
 					d_seq.swap(other.d_seq);
+				}
+			}
+
+			void copy_assign(const SparseFlatNodeHashTable& other)
+			{
+				// Drop the table first: it refers to the current values and belongs to the current allocator
+				clear();
+				try {
+					d_seq = other.d_seq;
+					if (other.dirty())
+						mark_dirty();
+					max_load_factor(other.max_load_factor());
+					rehash(0, true);
+				}
+				catch (...) {
+					mark_dirty();
+					throw;
+				}
+			}
+
+			void move_assign(SparseFlatNodeHashTable& other) noexcept(
+			  std::is_nothrow_move_assignable_v<sequence_type> && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
+			{
+				if (this == std::addressof(other))
+					return;
+				clear();
+				if (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || d_seq.get_allocator() == other.d_seq.get_allocator()) {
+					d_seq = std::move(other.d_seq);
+					base_type::swap(other);
+					d_load_factor = other.d_load_factor;
+					std::swap(d_buckets, other.d_buckets);
+					std::swap(d_hash_mask, other.d_hash_mask);
+					std::swap(d_hash_len, other.d_hash_len);
+					std::swap(d_next_target, other.d_next_target);
+					std::swap(d_max_dist, other.d_max_dist);
+				}
+				else
+					move_assign_values(other);
+			}
+
+			void move_assign_values(SparseFlatNodeHashTable& other)
+			{
+				// The allocators are different: the values are moved one by one
+				const int max_dist = other.d_max_dist;
+				try {
+					d_seq = std::move(other.d_seq);
+					other.clear();
 					base_type::swap(other);
+					d_load_factor = other.d_load_factor;
+					d_max_dist = max_dist;
+					rehash(0, true);
+				}
+				catch (...) {
+					mark_dirty();
+					if (other.size())
+						other.mark_dirty();
+					throw;
 				}
 			}
 
@@ -1193,19 +1251,15 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::copy_assign(other);
 			}
 			return *this;
 		}
 
 		/// @brief Move assignment operator
-		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_set&
+		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().move_assign(std::declval<base_type&>()))) -> ordered_set&
 		{
-			base_type::swap(other);
+			base_type::move_assign(other);
 			return *this;
 		}
 
@@ -1665,17 +1719,13 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::copy_assign(other);
 			}
 			return *this;
 		}
-		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
+		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().move_assign(std::declval<base_type&>()))) -> ordered_map&
 		{
-			base_type::swap(other);
+			base_type::move_assign(other);
 			return *this;
 		}
 
-- 
2.43.0


From 60c84a52eaf3ec76d1baab37c703f068ffd8d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 059/106] fix: ordered containers: range erase and erase_if
 that throw leave a stale table

---
 seq/ordered_map.hpp | 53 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 140ca82..b430e8e 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -949,7 +949,14 @@ namespace seq
 				// Works for dirty hash map
 				iterator res = d_seq.erase(first, last);
 				// force rehash
-				rehash(0, true);
+				try {
+					rehash(0, true);
+				}
+				catch (...) {
+					// the table refers to erased values
+					mark_dirty();
+					throw;
+				}
 				return res;
 			}
 
@@ -2119,13 +2126,23 @@ namespace seq
 		// avoid flagging the map as dirty
 		auto& seq = const_cast<sequence_type&>(set.csequence());
 		size_t count = 0;
-		for (auto it = seq.begin(); it != seq.end();) {
-			if (p(*it)) {
-				it = seq.erase(it);
-				++count;
+		try {
+			for (auto it = seq.begin(); it != seq.end();) {
+				if (p(*it)) {
+					it = seq.erase(it);
+					++count;
+				}
+				else
+					++it;
+			}
+		}
+		catch (...) {
+			// the hash table refers to the erased values
+			if (count) {
+				set.sequence();
+				set.rehash();
 			}
-			else
-				++it;
+			throw;
 		}
 		if (count) {
 			// flag as dirty and rehash
@@ -2170,13 +2187,23 @@ namespace seq
 		// avoid flagging the map as dirty
 		auto& seq = const_cast<sequence_type&>(set.csequence());
 		size_t count = 0;
-		for (auto it = seq.begin(); it != seq.end();) {
-			if (p(*it)) {
-				it = seq.erase(it);
-				++count;
+		try {
+			for (auto it = seq.begin(); it != seq.end();) {
+				if (p(*it)) {
+					it = seq.erase(it);
+					++count;
+				}
+				else
+					++it;
+			}
+		}
+		catch (...) {
+			// the hash table refers to the erased values
+			if (count) {
+				set.sequence();
+				set.rehash();
 			}
-			else
-				++it;
+			throw;
 		}
 		if (count) {
 			// flag as dirty and rehash
-- 
2.43.0


From 8021b6c57d33f1344b91b9f2b938167a8846cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 060/106] fix: radix containers:
 try_emplace()/insert_or_assign() with an existing key consume their arguments
 in a vector node

---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 296122e..66a5fcc 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -695,6 +695,10 @@ namespace seq
 			template<class Vector, class K, class... Args>
 			static std::pair<size_t, bool> emplace_vector(Vector& v, K&& key, Args&&... args)
 			{
+				// Leave the arguments alone if the key exists
+				const size_t found = v.find(key);
+				if (found != v.size())
+					return std::pair<size_t, bool>(found, false);
 				return v.emplace(
 				  typename Vector::value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...)));
 			}
-- 
2.43.0


From b49e41d0ce26625c400ace41f24558ba5279433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 061/106] fix: radix hash containers: assignment and swap do
 not take the hash function along

---
 seq/internal/radix_tree.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 66a5fcc..f2821dc 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1950,8 +1950,10 @@ namespace seq
 						move_allocator<Allocator>(*this, other);
 						swap(other, false);
 					}
-					else
+					else {
+						copy_hash(other);
 						move_elements(other);
+					}
 				}
 				return *this;
 			}
@@ -1961,6 +1963,7 @@ namespace seq
 				if (std::addressof(other) != this) {
 					clear();
 					assign_allocator<Allocator>(*this, other);
+					copy_hash(other);
 					insert(other.begin(), other.end(), false);
 				}
 				return *this;
@@ -2027,10 +2030,25 @@ namespace seq
 			{
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
+				swap_hash(other);
 				if (swap_alloc)
 					swap_allocator<Allocator>(*this, other);
 			}
 
+			/// @brief Swap the hash functions, which belong to the values
+			void swap_hash(RadixTree& other) noexcept
+			{
+				if constexpr (std::is_move_constructible_v<Hash> && std::is_move_assignable_v<Hash>)
+					std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
+			}
+
+			/// @brief Copy the hash function of other
+			void copy_hash(const RadixTree& other)
+			{
+				if constexpr (std::is_copy_assignable_v<Hash>)
+					static_cast<Hash&>(*this) = static_cast<const Hash&>(other);
+			}
+
 			/// @brief Move all elements of other, which uses a different allocator, to this empty tree
 			void move_elements(RadixTree& other)
 			{
-- 
2.43.0


From 2103af1cc7c7ca6467481b22aa76bc07816eb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 062/106] fix: concurrent containers: erasing an element whose
 move throws leaves a duplicate key or freed chain nodes

---
 seq/internal/concurrent_hash_table.hpp | 43 ++++++++++++++++----------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index f0cfb72..f728292 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1079,6 +1079,7 @@ namespace seq
 					free_nodes(d);
 					d = right;
 				}
+				v->right = nullptr;
 			}
 
 			void erase_from_dense(node_type* bucket, value_node_type* values, chain_node_type* n, unsigned pos)
@@ -1117,25 +1118,33 @@ namespace seq
 			}
 			void erase_from_bucket(node_type* bucket, value_node_type* values, unsigned pos)
 			{
-				// Erase position from main node and shift left remaining values
-				if (values->right) {
-					// Take last value from right node
-					values->values()[pos] = std::move(values->right->values()[values->right->count() - 1]);
-					bucket->hashs[pos + 1] = values->right->hashs[values->right->count()];
-					// Erase last value from right node
-					erase_from_dense(bucket, values, values->right, values->right->count() - 1);
-				}
-				else {
-					// move hashs and values toward the left
-					if (unsigned move_count = (bucket->hashs[0] - pos - 1)) {
-						std::move(values->values() + pos + 1, values->values() + pos + 1 + move_count, values->values() + pos);
-						memmove(bucket->hashs + pos + 1, bucket->hashs + pos + 2, move_count);
+				try {
+					// Erase position from main node and shift left remaining values
+					if (values->right) {
+						// Take last value from right node
+						values->values()[pos] = std::move(values->right->values()[values->right->count() - 1]);
+						bucket->hashs[pos + 1] = values->right->hashs[values->right->count()];
+					}
+					else {
+						// move hashs and values toward the left
+						if (unsigned move_count = (bucket->hashs[0] - pos - 1)) {
+							std::move(values->values() + pos + 1, values->values() + pos + 1 + move_count, values->values() + pos);
+							memmove(bucket->hashs + pos + 1, bucket->hashs + pos + 2, move_count);
+						}
+						// invalidate last hash, destroy value, decrease size
+						bucket->hashs[bucket->hashs[0]] = 0;
+						values->values()[bucket->hashs[0] - 1].~Value();
+						bucket->hashs[0]--;
+						return;
 					}
-					// invalidate last hash, destroy value, decrease size
-					bucket->hashs[bucket->hashs[0]] = 0;
-					values->values()[bucket->hashs[0] - 1].~Value();
-					bucket->hashs[0]--;
 				}
+				catch (...) {
+					// Erase full node, no ways to revert back the state
+					erase_full_bucket(bucket, values);
+					throw;
+				}
+				// Erase last value from right node
+				erase_from_dense(bucket, values, values->right, values->right->count() - 1);
 			}
 
 			bool contains_value(const Value& key_value) const
-- 
2.43.0


From 9a2545bc3efbd7804ad4606cdf164cc7956485cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 063/106] fix: concurrent containers: move with unequal
 allocators leaves moved-from elements in the source

---
 seq/internal/concurrent_hash_table.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index f728292..009bcfc 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1680,6 +1680,13 @@ namespace seq
 			SEQ_CONCURRENT_INLINE const PrivateData* get_data() const noexcept { return AtomicLoad(d_data); }
 			SEQ_CONCURRENT_INLINE const PrivateData* cget_data() const noexcept { return AtomicLoad(d_data); }
 
+			/// @brief Clear a table which elements were moved one by one, even if an exception was thrown
+			struct ClearGuard
+			{
+				ConcurrentHashTable* table;
+				~ClearGuard() { table->clear(); }
+			};
+
 			/// @brief Given a hash value, returns the corresponding sub-table index
 			SEQ_CONCURRENT_INLINE auto index_from_hash(size_t hash) const noexcept -> unsigned
 			{
@@ -1728,6 +1735,7 @@ namespace seq
 				}
 				else {
 					this->reserve(other.size());
+					ClearGuard guard{ &other };
 					other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
 				}
 			}
@@ -1784,8 +1792,8 @@ namespace seq
 						// The internal data cannot be exchanged, move each element
 						clear();
 						get_data_no_lock();
+						ClearGuard guard{ &other };
 						other.visit_all([this](Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, std::move(v)); });
-						other.clear();
 						return *this;
 					}
 				}
-- 
2.43.0


From f109f346b0124d2ac889fde7d2b2a430174277d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 064/106] fix: concurrent containers: operator== uses the hash
 function of the wrong table

---
 seq/internal/concurrent_hash_table.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 009bcfc..b719b2c 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -2098,6 +2098,17 @@ namespace seq
 				return res;
 			}
 
+			/// @brief Returns true if given value (key AND value) exists in this table
+			bool contains_value(const PrivateData* d, const Value& v) const
+			{
+				using extract_key = ExtractKey<Key, Value>;
+				// Each table uses its own hash function object
+				const size_t hash = d->hash_key(extract_key::key(v));
+				bool ret = false;
+				d->at(index_from_hash(hash)).visit_hash(hash, extract_key::key(v), [&](const auto& o) { ret = extract_key::has_value ? (extract_key::value(o) == extract_key::value(v)) : true; });
+				return ret;
+			}
+
 			bool operator==(const ConcurrentHashTable& other) const
 			{
 				// A table is equal to itself, avoid locking it twice
@@ -2118,8 +2129,10 @@ namespace seq
 				if (!d2)
 					return size() == 0;
 
+				if (size() != other.size())
+					return false;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i) {
-					if (!(d1->at(i).equal_to(d2->at(i))))
+					if (!d1->at(i).visit_all([&](const auto& v) { return other.contains_value(d2, v); }))
 						return false;
 				}
 				return true;
-- 
2.43.0


From 567ae4d4ef42c850cce36e997dcd53362cb69292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 065/106] fix: concurrent containers: merge() stores elements
 under the hash function of the other table

---
 seq/internal/concurrent_hash_table.hpp | 39 ++++++++------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index b719b2c..2f68d31 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1147,14 +1147,6 @@ namespace seq
 				erase_from_dense(bucket, values, values->right, values->right->count() - 1);
 			}
 
-			bool contains_value(const Value& key_value) const
-			{
-				// Returns true if given value (key AND value) exists in this table
-				size_t hash = hash_key(extract_key::key(key_value));
-				bool ret = false;
-				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
-				return ret;
-			}
 			bool contains(const Value& key_value) const
 			{
 				// Returns true if given value (key AND value) exists in this table
@@ -1503,24 +1495,6 @@ namespace seq
 						(*iter).unlock();
 				}
 			}
-
-			/// @brief Returns true if two ChainingHashTable are equals
-			bool equal_to(const ChainingHashTable& other) const
-			{
-				if (d_size != other.size())
-					return false;
-
-				return visit_all([&](const auto& v) { return other.contains_value(v); });
-			}
-
-			/// @brief insert all entries from other not found in this, and remove them from other
-			size_t merge(ChainingHashTable& other)
-			{
-				return other.erase_if([&](auto& v) {
-					size_t hash = hash_key(extract_key::key(v));
-					return this->emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
-				});
-			}
 		};
 
 		/// @brief Base concurrent hash table class, used by both concurrent_set and concurrent_map.
@@ -2048,6 +2022,15 @@ namespace seq
 				}
 			}
 
+			/// @brief Move the elements of given sub-table, hashed by another hash function object
+			auto merge_map(PrivateData* d, hash_map& other) const -> size_t
+			{
+				return other.erase_if([&](auto& v) {
+					const size_t hash = d->hash_key(ExtractKey<Key, Value>::key(v));
+					return d->at(index_from_hash(hash)).template emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
+				});
+			}
+
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
 				// Nothing to do when merging with itself
@@ -2067,7 +2050,7 @@ namespace seq
 
 				size_t res = 0;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					res += d1->at(i).merge(d2->at(i));
+					res += merge_map(d1, d2->at(i));
 				return res;
 			}
 
@@ -2093,7 +2076,7 @@ namespace seq
 				std::atomic<size_t> res = 0;
 				std::for_each(std::forward<ExecPolicy>(p), d1->maps, d1->maps + PrivateData::map_count, [&](const auto& m) {
 					unsigned index = static_cast<unsigned>(&m - d1->maps);
-					res += d1->at(index).merge(d2->at(index));
+					res += merge_map(d1, d2->at(index));
 				});
 				return res;
 			}
-- 
2.43.0


From 225940d1c0590a0329a844716635f55d265ed218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 066/106] fix: tiny_string: find functions with an empty
 pattern or a position beyond the end

---
 seq/tiny_string.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b380671..f4acee3 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -363,10 +363,10 @@ namespace seq
 		template<class Traits, class Char>
 		inline auto traits_string_find(const Char* data, size_t pos, size_t size, const Char* s, size_t n, size_t npos) noexcept -> size_t
 		{
-			if (n > size || pos + n > size)
+			if (n > size || pos > size - n)
 				return npos;
 			if (n == 0)
-				return 0;
+				return pos;
 
 			const Char* in = data + pos;
 			const Char* end = in + (size - pos - n) + 1;
@@ -1955,6 +1955,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == NULL ? npos : p - begin();
 		}
@@ -2003,6 +2005,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p)
 				if (*p != c)
@@ -2346,6 +2350,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == nullptr ? npos : static_cast<size_t>(p - begin());
 		}
@@ -2394,6 +2400,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p) {
 				if (*p != c) {
-- 
2.43.0


From c0e37d5abfae5ef0d83a1436d9f6eaf104c13d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 067/106] fix: tiny_string: find_last_of(const Char*, pos) and
 find_last_not_of(const Char*, pos) were ambiguous

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index f4acee3..a8a7bc2 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1993,7 +1993,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class Al, size_t S>
@@ -2020,7 +2020,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0)
-- 
2.43.0


From 1973f6b35950bd009ee81069399024a5674825dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 068/106] fix: tiny_string view: rfind, find_last_of and
 find_last_not_of did not compile for the pointer overloads

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index a8a7bc2..e30eaf7 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2370,7 +2370,7 @@ namespace seq
 		auto rfind(const std::basic_string_view<Char, Traits>& str, size_t pos = npos) const noexcept -> size_t { return rfind(str.data(), pos, str.size()); }
 
 		auto rfind(const Char* s, size_t pos = npos) const noexcept -> size_t { return rfind(s, pos, Traits::length(s)); }
-		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind(data(), pos, size(), s, n, npos); }
+		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind<Traits>(data(), pos, size(), s, n, npos); }
 		auto rfind(Char c, size_t pos = npos) const noexcept -> size_t { return std::basic_string_view<Char, Traits>(data(), size()).rfind(c, pos); }
 
 		auto find_first_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_of<Traits>(data(), pos, size(), s, n, npos); }
@@ -2388,7 +2388,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class A, size_t S>
@@ -2417,7 +2417,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0) {
-- 
2.43.0


From bfd7277fb40a66fd60edd2bff458f9b5fe7318eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 069/106] fix: tiny_string: operator+ for other character types
 than char

---
 seq/tiny_string.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index e30eaf7..f47c608 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2778,45 +2778,45 @@ namespace seq
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string<Char, Traits, Al2>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs.data(), rhs.size());
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string_view<Char, Traits>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs.data(), rhs.size());
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const Char* rhs)
 	{
-		return lhs + tstring_view(rhs);
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs);
 	}
 	template<class Char, class Traits, size_t Size, class Al>
-	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, char rhs)
+	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, Char rhs)
 	{
-		return lhs + tstring_view(&rhs, 1);
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(&rhs, 1);
 	}
 
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const std::basic_string<Char, Traits, Al2>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs.data(), lhs.size()) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const std::basic_string_view<Char, Traits>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs.data(), lhs.size()) + rhs;
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const Char* lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(Char lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(&lhs, 1) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(&lhs, 1) + rhs;
 	}
 
 	/// @brief Returns the string data (const char*) for given string object
-- 
2.43.0


From bea920322c88c3f96964e428fa94d5ceeacb359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 070/106] fix: tiny_string: compare(pos, len, ...) reads beyond
 the end when pos + len is greater than the size

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index f47c608..268b0b5 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2073,7 +2073,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
@@ -2471,7 +2471,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
 
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
-- 
2.43.0


From 80135dbb6e19fe205095f78a2564d021d2fb45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 071/106] fix: tiny_string: replace(..., str, subpos, sublen)
 clamped sublen with the size of the wrong string

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 268b0b5..8571c61 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1768,7 +1768,7 @@ namespace seq
 			if (len == npos || pos + len > size())
 				len = size() - pos;
 			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1779,7 +1779,7 @@ namespace seq
 			if (len == npos || pos + len > size())
 				len = size() - pos;
 			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1790,7 +1790,7 @@ namespace seq
 			if (len == npos || pos + len > size())
 				len = size() - pos;
 			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
-- 
2.43.0


From e10e7f145273a7cd7a353c8d52d21ef39fbf3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 072/106] fix: tiny_string: replace(pos, len, ...) with a
 length beyond the end

---
 seq/tiny_string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 8571c61..081ab9d 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1799,6 +1799,8 @@ namespace seq
 		auto replace(size_t pos, size_t len, const Char* s) -> tiny_string&
 		{
 			size_t l = Traits::length(s);
+			if (len == npos || pos + len > size())
+				len = size() - pos;
 			replace_internal(pos, len, s, s + l);
 			return *this;
 		}
@@ -1812,6 +1814,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by buffer s of size n
 		auto replace(size_t pos, size_t len, const Char* s, size_t n) -> tiny_string&
 		{
+			if (len == npos || pos + len > size())
+				len = size() - pos;
 			replace_internal(pos, len, s, s + n);
 			return *this;
 		}
@@ -1825,6 +1829,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by n copies of c
 		auto replace(size_t pos, size_t len, size_t n, Char c) -> tiny_string&
 		{
+			if (len == npos || pos + len > size())
+				len = size() - pos;
 			replace_internal(pos, len, cvalue_iterator<Char>(0, c), cvalue_iterator<Char>(n));
 			return *this;
 		}
-- 
2.43.0


From bdbc2d83eda3f0e528a324800b8ec62081211304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 073/106] fix: tiny_string: assign, append, insert and replace
 with a part of the string itself

---
 seq/tiny_string.hpp | 65 +++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 081ab9d..3c5a2b1 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -895,6 +895,15 @@ namespace seq
 			d_data.setSize(len);
 		}
 
+		template<class Iter>
+		static constexpr bool is_char_pointer = std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>;
+
+		bool is_inside(const Char* p) const noexcept
+		{
+			// Returns true if p points to this string
+			return std::less_equal<const Char*>{}(data(), p) && std::less_equal<const Char*>{}(p, data() + size());
+		}
+
 		template<class Iter, class Cat>
 		void assign_cat(Iter first, Iter last, Cat /*unused*/)
 		{
@@ -910,8 +919,12 @@ namespace seq
 		void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
 			// assign range for random access iterators
-			internal_resize(static_cast<size_t>(last - first), false, true);
-			std::copy(first, last, data());
+			if constexpr (is_char_pointer<Iter>)
+				assign(first, static_cast<size_t>(last - first));
+			else {
+				internal_resize(static_cast<size_t>(last - first), false, true);
+				std::copy(first, last, data());
+			}
 		}
 
 		template<class Iter, class Cat>
@@ -937,6 +950,14 @@ namespace seq
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
+			if constexpr (is_char_pointer<Iter>) {
+				if (is_inside(first)) {
+					// Insert a part of this string
+					tiny_string tmp(first, static_cast<size_t>(last - first), get_allocator());
+					insert_cat(pos, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
+					return;
+				}
+			}
 
 			if (pos < size() / 2) {
 				size_type to_insert = static_cast<size_t>(last - first);
@@ -985,6 +1006,14 @@ namespace seq
 		template<class Iter>
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
+			if constexpr (is_char_pointer<Iter>) {
+				if (first != last && is_inside(first)) {
+					// Replace by a part of this string
+					tiny_string tmp(first, static_cast<size_t>(last - first), get_allocator());
+					replace_cat(pos, len, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
+					return;
+				}
+			}
 			size_t input_size = (last - first);
 			size_t new_size = size() - len + input_size;
 			if (new_size <= capacity()) {
@@ -1254,9 +1283,7 @@ namespace seq
 		template<class OtherAlloc, size_t OtherMaxStaticSize>
 		auto assign(const tiny_string<Char, Traits, OtherAlloc, OtherMaxStaticSize>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		template<class Al>
@@ -1269,30 +1296,29 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const std::basic_string_view<Char, Traits>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.data(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
 			if (sublen == npos || subpos + sublen > str.size())
 				sublen = str.size() - subpos;
-			internal_resize(sublen, false, true);
-			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
-			return *this;
+			return assign(str.data() + subpos, sublen);
 		}
 		/// @brief Assign a null-terminated buffer to this string
 		auto assign(const Char* s) -> tiny_string&
 		{
-			size_t len = Traits::length(s);
-			internal_resize(len, false, true);
-			memcpy(this->data(), s, len * sizeof(Char));
-			return *this;
+			return assign(s, Traits::length(s));
 		}
 		/// @brief Assign a buffer to this string
 		auto assign(const Char* s, size_t n) -> tiny_string&
 		{
+			if (is_inside(s)) {
+				// Assign a part of this string
+				memmove(this->data(), s, n * sizeof(Char));
+				resize(n);
+				return *this;
+			}
 			internal_resize(n, false, true);
 			memcpy(this->data(), s, n * sizeof(Char));
 			return *this;
@@ -1575,8 +1601,10 @@ namespace seq
 				return *this;
 			size_t old_size = size();
 			size_t new_size = old_size + n;
+			const bool inside = is_inside(s);
+			const size_t offset = inside ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
-			memcpy(d + old_size, s, n * sizeof(Char));
+			memcpy(d + old_size, inside ? d + offset : s, n * sizeof(Char));
 			d[new_size] = 0;
 			return *this;
 		}
@@ -1598,7 +1626,10 @@ namespace seq
 		{
 			if (first == last)
 				return *this;
-			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
+			if constexpr (is_char_pointer<Iter>) {
+				return append(first, static_cast<size_t>(last - first));
+			}
+			else if constexpr (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
 				size_t n = std::distance(first, last);
 				size_t old_size = size();
 				size_t new_size = old_size + n;
-- 
2.43.0


From 7d3f24b61e4bd983cc6370f4db54c39f7eb1e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 074/106] fix: tiny_string: shrink_to_fit() released its buffer
 with a wrong size

---
 seq/tiny_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 3c5a2b1..cff90fc 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1423,8 +1423,9 @@ namespace seq
 			if (!is_sso() && capacity_internal() != s + 1) {
 				Char* p = d_data.d_union.non_sso.data;
 				if (is_sso(s)) {
+					const size_t capacity = capacity_internal();
 					memcpy(d_data.d_union.sso.data, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, capacity + char_offset);
 				}
 				else {
 					Char* _new = d_data.allocate(s + char_offset + 1);
-- 
2.43.0


From 628cc01c2755ebea5d98393ee2b0d60137788cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 075/106] fix: tiny_string: an emptied string was not null
 terminated

---
 seq/tiny_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index cff90fc..28ff7f1 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -550,7 +550,8 @@ namespace seq
 
 			SEQ_STR_INLINE_STRONG void reset() noexcept
 			{
-				// Initialize with SSO string of size 0
+				// Initialize with (null terminated) SSO string of size 0
+				d_union.sso.data[0] = 0;
 				last_sso_char() = static_cast<unsigned_char>(sso_mask);
 			}
 		};
-- 
2.43.0


From fd45051edfbfe4105c222653e3faf42e53c3be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 076/106] fix: tiny_string: replace() moved bytes instead of
 characters for wide strings

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 28ff7f1..8b57206 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1020,7 +1020,7 @@ namespace seq
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
-					memmove(data() + pos + input_size, data() + pos + len, size() - (pos + len));
+					memmove(data() + pos + input_size, data() + pos + len, (size() - (pos + len)) * sizeof(Char));
 
 				// copy input
 				std::copy(first, last, data() + pos);
-- 
2.43.0


From 1b734fdc20f285848a4fe06a4d8c4c05ca1fc297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 077/106] fix: tiny_string: temporary strings did not use the
 allocator of the string

---
 seq/tiny_string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 8b57206..8a58c26 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -909,7 +909,7 @@ namespace seq
 		void assign_cat(Iter first, Iter last, Cat /*unused*/)
 		{
 			// assign range for non random access iterators
-			tiny_string tmp;
+			tiny_string tmp(get_allocator());
 			while (first != last) {
 				tmp.push_back(*first);
 				++first;
@@ -1031,7 +1031,7 @@ namespace seq
 			}
 
 			// otherwise, create a new string and fill it (might throw)
-			tiny_string other(new_size, 0);
+			tiny_string other(new_size, 0, get_allocator());
 			Char* op = other.data();
 			// first part
 			memcpy(op, data(), pos * sizeof(Char));
@@ -1046,7 +1046,7 @@ namespace seq
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, Cat c)
 		{
 			// otherwise, create a new string and fill it
-			tiny_string other;
+			tiny_string other(get_allocator());
 			// first part
 			other.append(data(), pos);
 			// middle part
@@ -1392,7 +1392,7 @@ namespace seq
 				return;
 			}
 
-			tiny_string other(n, 0);
+			tiny_string other(n, 0, get_allocator());
 			if (n > old_size) {
 				std::fill_n(other.data(), n - old_size, c);
 				memcpy(other.data() + n - old_size, data(), old_size * sizeof(Char));
-- 
2.43.0


From e211825e44a7112156cfe7b4b8f180e666ba48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 078/106] fix: tiny_string: copy assignment propagates the
 allocator and leaves the string unchanged if it fails

---
 seq/tiny_string.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 8a58c26..118767c 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1265,12 +1265,19 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const tiny_string& other) -> tiny_string&
 		{
-			if (is_sso() && other.is_sso())
+			if (is_sso() && other.is_sso()) {
 				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
+				assign_allocator(get_allocator(), other.get_allocator());
+			}
 			else {
 				if constexpr (assign_alloc<Allocator>::value) {
 					if (get_allocator() != other.get_allocator()) {
+						tiny_string tmp(other, other.get_allocator());
 						clear();
+						assign_allocator(get_allocator(), other.get_allocator());
+						memcpy(&d_data.d_union, &tmp.d_data.d_union, sizeof(d_data.d_union));
+						tmp.d_data.reset();
+						return *this;
 					}
 				}
 				assign_allocator(get_allocator(), other.get_allocator());
-- 
2.43.0


From eae5a39e2f2fef145b8b84efe3ccb26cd78ac968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 079/106] fix: tiny_string: move assignment with unequal
 allocators that do not propagate

---
 seq/tiny_string.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 118767c..e68219d 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1341,12 +1341,17 @@ namespace seq
 		/// @brief Assign to this string the initializer list il
 		auto assign(std::initializer_list<Char> il) -> tiny_string& { return assign(il.begin(), il.end()); }
 		/// @brief Move the content of other to this string. Equivalent to tiny_string::operator=.
-		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(noexcept(std::declval<internal_data&>().swap(std::declval<internal_data&>()))) -> tiny_string&
+		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || is_always_equal<Allocator>::value)
+		  -> tiny_string&
 		{
-			if constexpr (sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
-				// Use internal_data.swap() for small static size or if moving allocator is NOT noexcept
+			if constexpr (sizeof(tiny_string) <= 16 && is_always_equal<Allocator>::value)
+				// Use internal_data.swap() for small static size
 				d_data.swap(other.d_data);
 			else if SEQ_LIKELY (this != std::addressof(other)) {
+				if constexpr (!std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value && !is_always_equal<Allocator>::value) {
+					if (get_allocator() != other.get_allocator())
+						return assign(other.data(), other.size());
+				}
 				if (!is_sso())
 					d_data.deallocate(d_data.d_union.non_sso.data, capacity_internal() + char_offset);
 				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
-- 
2.43.0


From e332901d683214ab6cc01389cad13958d1562362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 080/106] fix: tiny_string: append and insert of input ranges
 leave the string unchanged if they fail

---
 seq/tiny_string.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index e68219d..84700c0 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -936,12 +936,11 @@ namespace seq
 			if (first == last)
 				return;
 
-			// push back, might throw
-			size_type prev_size = size();
+			// Build the inserted part first, might throw
+			tiny_string tmp(get_allocator());
 			for (; first != last; ++first)
-				push_back(*first);
-			// Might throw, fine
-			std::rotate(begin() + pos, begin() + prev_size, end());
+				tmp.push_back(*first);
+			insert_cat(pos, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
 		}
 
 		template<class Iter>
@@ -1652,10 +1651,12 @@ namespace seq
 				d[new_size] = 0;
 			}
 			else {
+				tiny_string tmp(get_allocator());
 				while (first != last) {
-					push_back(*first);
+					tmp.push_back(*first);
 					++first;
 				}
+				append(tmp.data(), tmp.size());
 			}
 			return *this;
 		}
-- 
2.43.0


From 04b4e0c54a186ab6ff43749265d2f4065e7886bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 081/106] fix: hold_any: bool and wchar_t are arithmetic types

---
 seq/any.hpp | 71 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ed1d39c..39e4fd6 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -90,46 +90,50 @@ namespace seq
 			return 1;
 		else if constexpr (std::is_same_v<signed char, T>)
 			return 2;
-		else if constexpr (std::is_same_v<short, T>)
+		else if constexpr (std::is_same_v<wchar_t, T>)
 			return 3;
-		else if constexpr (std::is_same_v<int, T>)
+		else if constexpr (std::is_same_v<short, T>)
 			return 4;
-		else if constexpr (std::is_same_v<long, T>)
+		else if constexpr (std::is_same_v<int, T>)
 			return 5;
-		else if constexpr (std::is_same_v<long long, T>)
+		else if constexpr (std::is_same_v<long, T>)
 			return 6;
-		else if constexpr (std::is_same_v<unsigned char, T>)
+		else if constexpr (std::is_same_v<long long, T>)
 			return 7;
-		else if constexpr (std::is_same_v<char16_t, T>)
+		else if constexpr (std::is_same_v<unsigned char, T>)
 			return 8;
-		else if constexpr (std::is_same_v<char32_t, T>)
+		else if constexpr (std::is_same_v<bool, T>)
 			return 9;
-		else if constexpr (std::is_same_v<unsigned short, T>)
+		else if constexpr (std::is_same_v<char16_t, T>)
 			return 10;
-		else if constexpr (std::is_same_v<unsigned int, T>)
+		else if constexpr (std::is_same_v<char32_t, T>)
 			return 11;
-		else if constexpr (std::is_same_v<unsigned long, T>)
+		else if constexpr (std::is_same_v<unsigned short, T>)
 			return 12;
-		else if constexpr (std::is_same_v<unsigned long long, T>)
+		else if constexpr (std::is_same_v<unsigned int, T>)
 			return 13;
-		else if constexpr (std::is_same_v<float, T>)
+		else if constexpr (std::is_same_v<unsigned long, T>)
 			return 14;
-		else if constexpr (std::is_same_v<double, T>)
+		else if constexpr (std::is_same_v<unsigned long long, T>)
 			return 15;
-		else if constexpr (std::is_same_v<long double, T>)
+		else if constexpr (std::is_same_v<float, T>)
 			return 16;
-		else if constexpr (std::is_same_v<std::string, T>)
+		else if constexpr (std::is_same_v<double, T>)
 			return 17;
-		else if constexpr (std::is_same_v<tstring, T>)
+		else if constexpr (std::is_same_v<long double, T>)
 			return 18;
-		else if constexpr (std::is_same_v<tstring_view, T>)
+		else if constexpr (std::is_same_v<std::string, T>)
 			return 19;
-		else if constexpr (std::is_same_v<const char*, T>)
+		else if constexpr (std::is_same_v<tstring, T>)
 			return 20;
-		else if constexpr (std::is_same_v<char*, T>)
+		else if constexpr (std::is_same_v<tstring_view, T>)
 			return 21;
-		else if constexpr (std::is_same_v<std::string_view, T>)
+		else if constexpr (std::is_same_v<const char*, T>)
 			return 22;
+		else if constexpr (std::is_same_v<char*, T>)
+			return 23;
+		else if constexpr (std::is_same_v<std::string_view, T>)
+			return 24;
 		else {
 			return 0;
 		}
@@ -145,7 +149,7 @@ namespace seq
 		if constexpr (v != 0)
 			return v;
 		else {
-			static constexpr int last_id = 22;
+			static constexpr int last_id = 24;
 			static int id = detail::build_type_id<last_id + 1>();
 			return id;
 		}
@@ -268,6 +272,10 @@ namespace seq
 						return static_cast<T>(*static_cast<const char*>(in));
 					case get_base_type_id<signed char>():
 						return static_cast<T>(*static_cast<const signed char*>(in));
+					case get_base_type_id<wchar_t>():
+						return static_cast<T>(*static_cast<const wchar_t*>(in));
+					case get_base_type_id<bool>():
+						return static_cast<T>(*static_cast<const bool*>(in));
 					case get_base_type_id<unsigned char>():
 						return static_cast<T>(*static_cast<const unsigned char*>(in));
 					case get_base_type_id<char16_t>():
@@ -308,10 +316,19 @@ namespace seq
 		T arithmetic_from_string(const String& in)
 		{
 			if constexpr (std::is_arithmetic_v<T>) {
-				T res;
-				if (from_chars(string_data(in), string_data(in) + string_size(in), res).ec != std::errc())
-					throw std::bad_cast();
-				return res;
+				if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, wchar_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t>) {
+					// not supported by from_chars()
+					const long long res = arithmetic_from_string<long long>(in);
+					if (static_cast<long long>(static_cast<T>(res)) != res)
+						throw std::bad_cast();
+					return static_cast<T>(res);
+				}
+				else {
+					T res;
+					if (from_chars(string_data(in), string_data(in) + string_size(in), res).ec != std::errc())
+						throw std::bad_cast();
+					return res;
+				}
 			}
 			else {
 				throw std::bad_cast();
@@ -330,6 +347,10 @@ namespace seq
 						return fmt(*static_cast<const char*>(in)).append(res);
 					case get_base_type_id<signed char>():
 						return fmt(*static_cast<const signed char*>(in)).append(res);
+					case get_base_type_id<wchar_t>():
+						return fmt(static_cast<long long>(*static_cast<const wchar_t*>(in))).append(res);
+					case get_base_type_id<bool>():
+						return fmt(static_cast<int>(*static_cast<const bool*>(in))).append(res);
 					case get_base_type_id<unsigned char>():
 						return fmt(*static_cast<const unsigned char*>(in)).append(res);
 					case get_base_type_id<char16_t>():
-- 
2.43.0


From e4976286447b4e9763865a9fbd4ad1fb3696e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 082/106] fix: hold_any: floating point values equal to an
 integer had another hash value

---
 seq/any.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index 39e4fd6..3c7350d 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -228,6 +228,15 @@ namespace seq
 					using char_type = typename T::value_type;
 					return hasher<basic_tstring_view<char_type>>{}(*static_cast<const T*>(in));
 				}
+				else if constexpr (std::is_floating_point_v<T>) {
+					// arithmetic values of different types that compare equal must have the same hash value
+					const long double v = static_cast<long double>(*static_cast<const T*>(in));
+					if (v >= -9223372036854775808.L && v < 0.L && v == static_cast<long double>(static_cast<long long>(v)))
+						return hasher<long long>{}(static_cast<long long>(v));
+					if (v >= 0.L && v < 18446744073709551616.L && v == static_cast<long double>(static_cast<unsigned long long>(v)))
+						return hasher<unsigned long long>{}(static_cast<unsigned long long>(v));
+					return hasher<double>{}(static_cast<double>(v));
+				}
 				else
 					return hasher<T>{}(*static_cast<const T*>(in));
 			}
-- 
2.43.0


From 2688e65c54944cb3c8486d5f76f324997dfe8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 083/106] fix: hold_any: order of signed and unsigned integral
 values

---
 seq/any.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 3c7350d..344b6ba 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -448,6 +448,15 @@ namespace seq
 			else
 				return false;
 		}
+		/// @brief Returns true if a is a negative arithmetic value
+		template<class T>
+		bool is_negative_arithmetic(const T& a)
+		{
+			if constexpr (std::is_arithmetic_v<T> && std::is_signed_v<T>)
+				return a < 0;
+			else
+				return false;
+		}
 		/// @brief Greater than comparison for hold_any::greater_than
 		template<class T, class Cast, class U>
 		bool greater_arithmetic(const U& a, const T& b)
@@ -1648,7 +1657,10 @@ namespace seq
 				}
 			}
 
-			return *out;
+		bool is_negative() const
+		{
+			// Returns true if this hold_any stores a negative signed integral
+			return is_signed_integral_type(this->type_id()) && this->template cast<long long>() < 0;
 		}
 
 	public:
@@ -1977,7 +1989,11 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
+					const bool a_neg = is_negative();
+					const bool b_neg = detail::is_negative_arithmetic(other);
+					if (a_neg != b_neg)
+						return a_neg;
+					if (!a_neg)
 						return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
 					else
 						return detail::less_arithmetic<type, long long>(this->template cast<long long>(), other);
@@ -2020,7 +2036,11 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
+					const bool a_neg = is_negative();
+					const bool b_neg = detail::is_negative_arithmetic(other);
+					if (a_neg != b_neg)
+						return b_neg;
+					if (!a_neg)
 						return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
 					else
 						return detail::greater_arithmetic<type, long long>(this->template cast<long long>(), other);
@@ -2104,7 +2124,11 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && is_arithmetic_type(b_id)) {
 				if (is_integral_type(a_id) && is_integral_type(b_id)) {
-					if (is_signed_integral_type(a_id) != is_signed_integral_type(b_id) || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
+					const bool a_neg = is_negative();
+					const bool b_neg = other.is_negative();
+					if (a_neg != b_neg)
+						return a_neg;
+					if (!a_neg)
 						return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
 					else
 						return this->template cast<long long>() < other.template cast<long long>();
-- 
2.43.0


From f67bb7c75ffc7ae6d92243553fa239f7d5f1b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 084/106] fix: hold_any: an empty object was greater than any
 value

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 344b6ba..b096c4f 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2023,7 +2023,7 @@ namespace seq
 			using type = typename std::decay<T>::type;
 
 			if (this->empty())
-				return true;
+				return false;
 
 			const type_info_type* otype = get_type<type>();
 
-- 
2.43.0


From e4af018062f88d3f417751a2578ee70d5a6a7d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 085/106] fix: hold_any: comparisons with character arrays and
 functions

---
 seq/any.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index b096c4f..db2be6c 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1937,6 +1937,10 @@ namespace seq
 		{
 			using type = typename std::decay<T>::type;
 
+			if constexpr (std::is_array_v<std::remove_reference_t<T>> || std::is_function_v<std::remove_reference_t<T>>)
+				// compare with a pointer
+				return equal_to(static_cast<type>(other));
+
 			// one empty: return false
 			if (this->empty())
 				return false;
@@ -1975,6 +1979,10 @@ namespace seq
 		{
 			using type = typename std::decay<T>::type;
 
+			if constexpr (std::is_array_v<std::remove_reference_t<T>> || std::is_function_v<std::remove_reference_t<T>>)
+				// compare with a pointer
+				return less_than(static_cast<type>(other));
+
 			if (this->empty())
 				return true;
 
@@ -2022,6 +2030,10 @@ namespace seq
 		{
 			using type = typename std::decay<T>::type;
 
+			if constexpr (std::is_array_v<std::remove_reference_t<T>> || std::is_function_v<std::remove_reference_t<T>>)
+				// compare with a pointer
+				return greater_than(static_cast<type>(other));
+
 			if (this->empty())
 				return false;
 
-- 
2.43.0


From fb4bb4bd805320a981ee2d43c7f92873dd60f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 086/106] fix: any_cast on pointers: other static sizes and
 null operands

---
 seq/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index db2be6c..448ca26 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2346,7 +2346,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(const hold_any<Interface, S, A, R>* operand) noexcept -> const T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<const T*>(operand->data());
 		return nullptr;
 	}
@@ -2354,7 +2354,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(hold_any<Interface, S, A, R>* operand) noexcept -> T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<T*>(operand->data());
 		return nullptr;
 	}
-- 
2.43.0


From 9638f404d19306cd25daa3541311201be2485f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 087/106] fix: hold_any: assignment and emplace of non
 assignable types, of types without inline storage and of parts of the held
 value

---
 seq/any.hpp | 227 +++++++++++++++++++++++++++-------------------------
 1 file changed, 116 insertions(+), 111 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 448ca26..21d0ae0 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -596,6 +596,35 @@ namespace seq
 			return false;
 		}
 
+		/// @brief Replace an object of type T by another one built from src, when T is not assignable
+		template<class T, class U>
+		void replace_any(void* out_storage, unsigned out_storage_size, U&& src)
+		{
+			if (sizeof(T) > out_storage_size) {
+				void* dst = SEQ_ANY_MALLOC(sizeof(T));
+				if SEQ_UNLIKELY (!dst)
+					throw std::bad_alloc();
+				try {
+					new (dst) T(std::forward<U>(src));
+				}
+				catch (...) {
+					SEQ_ANY_FREE(dst);
+					throw;
+				}
+				T* old = static_cast<T*>(read_void_p(out_storage));
+				old->~T();
+				SEQ_ANY_FREE(old);
+				memcpy(out_storage, &dst, sizeof(void*));
+			}
+			else if constexpr (std::is_nothrow_move_constructible_v<T>) {
+				T tmp(std::forward<U>(src));
+				static_cast<T*>(out_storage)->~T();
+				new (out_storage) T(std::move(tmp));
+			}
+			else
+				throw seq::bad_any_function_call("data type is not assignable");
+		}
+
 		template<class T, class any_type_info>
 		void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size)
 		{
@@ -611,6 +640,12 @@ namespace seq
 				// might throw, fine
 				assign_value(*static_cast<T*>(dst), *static_cast<const T*>(in));
 			}
+			else if (!std::is_copy_constructible_v<T>)
+				throw seq::bad_any_function_call("data type is not copyable");
+			else if (in_p == out_p) {
+				if constexpr (std::is_copy_constructible_v<T>)
+					replace_any<T>(out_storage, out_storage_size, *static_cast<const T*>(in));
+			}
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
@@ -642,6 +677,8 @@ namespace seq
 				// might throw, fine
 				move_assign_value(*static_cast<T*>(dst), *static_cast<T*>(in));
 			}
+			else if (in_p == out_p)
+				replace_any<T>(out_storage, out_storage_size, std::move(*static_cast<T*>(in)));
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
@@ -1604,58 +1641,64 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto big_size() const noexcept -> bool { return (this->d_type_info.full() & detail::big_size) != 0; }
 		SEQ_ALWAYS_INLINE auto non_relocatable() const noexcept -> bool { return (this->d_type_info.full() & detail::non_relocatable) != 0; }
 
-		template<class T>
-		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
-		{
-			// Returns pointer to T*, never reached (just here to avoid compile warning)
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static T t;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return &t;
-		}
-
 		template<class ValueType, class... Args>
 		auto emplace_args(Args&&... args) -> typename std::decay<ValueType>::type&
 		{
 			// Emplace construction
 			using type = typename std::decay<ValueType>::type;
 
-			auto* i_t = this->type();
-			auto* o_t = get_type<type>();
-			type* out = nullptr;
-			if (o_t == i_t) {
-				// same type
-				out = static_cast<type*>(this->data());
-				*out = type(std::forward<Args>(args)...);
+			if constexpr (std::is_move_assignable_v<type>) {
+				if (get_type<type>() == this->type()) {
+					// same type
+					type* out = static_cast<type*>(this->data());
+					*out = type(std::forward<Args>(args)...);
+					return *out;
+				}
+			}
+			// different types: build the new object first, as args might be a part of this object
+			hold_any tmp;
+			tmp.template construct<type>(std::forward<Args>(args)...);
+			replace(tmp);
+			return *static_cast<type*>(this->data());
+		}
+
+		template<class type, class... Args>
+		void construct(Args&&... args)
+		{
+			// Construct an object in this empty hold_any
+			this->d_type_info = get_type<type>();
+			void* d = nullptr;
+			try {
+				// create memory chunk and tags, might throw
+				d = this->template alloc<type>();
+				// construct, might throw
+				new (d) type(std::forward<Args>(args)...);
+			}
+			catch (...) {
+				// free memory chunk if needed
+				if (d && big_size())
+					SEQ_ANY_FREE(d);
+				// reset type info pointer and tags
+				this->d_type_info.set_full(0);
+				throw;
+			}
+		}
+
+		void replace(hold_any& tmp) noexcept(Relocatable)
+		{
+			// Replace the content of this hold_any by the content of tmp
+			reset();
+			if (Relocatable || tmp.big_size() || !tmp.non_relocatable()) {
+				memcpy(&this->d_storage, &tmp.d_storage, sizeof(this->d_storage));
+				this->d_type_info = tmp.d_type_info;
+				tmp.d_type_info.set_full(0);
 			}
 			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					out = new (d) type(std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && sizeof(type) > static_size)
-						SEQ_ANY_FREE(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
-					// just to remove cppcheck warning
-					out = get_null_out<type>();
-				}
+				// might throw
+				tmp.type()->move_any(tmp.type(), tmp.data(), nullptr, &this->d_storage, static_size);
+				this->d_type_info = tmp.d_type_info;
 			}
+		}
 
 		bool is_negative() const
 		{
@@ -1663,6 +1706,9 @@ namespace seq
 			return is_signed_integral_type(this->type_id()) && this->template cast<long long>() < 0;
 		}
 
+		// Size of the storage, as seen by copy_any() and move_any() for an object with a separate storage or not
+		static SEQ_ALWAYS_INLINE unsigned storage_size(bool big) noexcept { return big ? 0u : static_cast<unsigned>(static_size); }
+
 	public:
 		/// Base public type
 		using base_type =
@@ -1715,7 +1761,7 @@ namespace seq
 			}
 			else {
 				// copy data, might throw
-				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, storage_size(other.big_size()));
 			}
 			// copy type info
 			this->d_type_info = other.d_type_info;
@@ -1755,26 +1801,7 @@ namespace seq
 		{
 			// remove const ref to T
 			using type = typename std::decay<T>::type;
-			// set the type info pointer
-			this->d_type_info = get_type<type>();
-
-			SEQ_ASSERT_DEBUG(this->d_type_info != nullptr, "nullptr type info");
-
-			void* d = nullptr;
-			try {
-				// returns (and potentially allocate) memory storage, might throw
-				d = this->template alloc<type>();
-				// construct, might throw
-				new (d) type(std::forward<T>(value));
-			}
-			catch (...) {
-				// free memory if needed
-				if (d && (this->d_type_info.tag() & detail::big_size))
-					SEQ_ANY_FREE(d);
-				// reset type info
-				this->d_type_info.set_full(0);
-				throw;
-			}
+			construct<type>(std::forward<T>(value));
 		}
 
 		/// @brief Destructor
@@ -1783,24 +1810,21 @@ namespace seq
 		/// @brief Copy assignment
 		auto operator=(const hold_any& other) -> hold_any&
 		{
-			const auto* i_t = this->type();
 			const auto* o_t = other.type();
 
-			if (i_t != o_t) {
-				// reset this object content if its type is different than other's type
-				reset();
-				i_t = nullptr;
+			if (this->type() != o_t) {
+				// different types: copy first, as other might be a part of this object
+				hold_any tmp(other);
+				replace(tmp);
 			}
-
-			if (!other.big_size() && !other.complex_copy()) {
+			else if (!other.big_size() && !other.complex_copy()) {
 				// copy small POD type
-				memcpy(&this->d_storage, &other.d_storage, static_size);
+				memcpy(&this->d_storage, &other.d_storage, sizeof(this->d_storage));
 			}
 			else {
 				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+				o_t->copy_any(o_t, other.data(), o_t, &this->d_storage, storage_size(other.big_size()));
 			}
-			this->d_type_info = other.d_type_info;
 
 			return *this;
 		}
@@ -1810,8 +1834,10 @@ namespace seq
 		{
 			if constexpr (Relocatable) {
 				// Move assignment is much more simple with relocatable hold_any
-				std::swap(this->d_storage, other.d_storage);
-				std::swap(this->d_type_info, other.d_type_info);
+				// (other might be a part of this object)
+				hold_any tmp(std::move(other));
+				std::swap(this->d_storage, tmp.d_storage);
+				std::swap(this->d_type_info, tmp.d_type_info);
 				return *this;
 			}
 			else {
@@ -1821,10 +1847,9 @@ namespace seq
 					reset();
 					return *this;
 				}
-				const auto* i_t = this->type();
 				const auto* o_t = other.type();
 
-				if (i_t == o_t) {
+				if (this->type() == o_t) {
 					// same non null type
 					if (!other.non_relocatable()) {
 						// relocatable: just swap storage
@@ -1832,16 +1857,13 @@ namespace seq
 					}
 					else {
 						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+						o_t->move_any(o_t, other.data(), o_t, &this->d_storage, storage_size(other.big_size()));
 					}
 				}
 				else {
-					// different type, clear this object
-					reset();
-					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, static_size);
-					// copy type info with tags
-					this->d_type_info = other.d_type_info;
+					// different types: move first, as other might be a part of this object, might throw
+					hold_any tmp(std::move(other));
+					replace(tmp);
 				}
 
 				return *this;
@@ -1853,35 +1875,18 @@ namespace seq
 		auto operator=(T&& value) -> hold_any&
 		{
 			using type = typename std::decay<T>::type;
-			auto* i_t = this->type();
-			auto* o_t = get_type<type>();
 
-			if (o_t == i_t) {
-				// same type
-				*static_cast<type*>(this->data()) = std::forward<T>(value);
-			}
-			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					new (d) type(std::forward<T>(value));
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
+			if constexpr (std::is_assignable_v<type&, T&&>) {
+				if (get_type<type>() == this->type()) {
+					// same type
+					*static_cast<type*>(this->data()) = std::forward<T>(value);
+					return *this;
 				}
 			}
-
+			// different types: build the new object first, as value might be a part of this object
+			hold_any tmp;
+			tmp.template construct<type>(std::forward<T>(value));
+			replace(tmp);
 			return *this;
 		}
 
-- 
2.43.0


From a44dd5da5708dbbb5fbd2ae847052c2607025a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 088/106] fix: streams: a character equal to (Char)EOF was
 taken for the end of the stream

---
 seq/charconv.hpp | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..c065861 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -389,6 +389,16 @@ namespace seq
 			return sign == -1 ? (0ULL - val) : val;
 		}
 
+		/// @brief Convert a character to int, without collision with EOF for narrow character types
+		template<class Char>
+		static SEQ_ALWAYS_INLINE auto char_to_int(Char c) noexcept -> int
+		{
+			if constexpr (sizeof(Char) == 1)
+				return static_cast<int>(static_cast<unsigned char>(c));
+			else
+				return static_cast<int>(c);
+		}
+
 		static SEQ_ALWAYS_INLINE auto digit_value(int c) noexcept -> unsigned
 		{
 			return static_cast<unsigned>(c - '0');
@@ -1867,7 +1877,7 @@ namespace seq
 			const Char* d_end;
 			std::errc d_state;
 
-			auto set_eof() noexcept -> Char
+			auto set_eof() noexcept -> int
 			{
 				d_state = std::errc::invalid_argument;
 				return EOF;
@@ -1919,13 +1929,13 @@ namespace seq
 			SEQ_ALWAYS_INLINE void seek(const Char* pos) noexcept { d_start = pos; }
 			/// @brief Extract a single character from the stream and put the read position to the next character
 			/// @return extracted character or EOF
-			SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+			SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 			{
 				if SEQ_LIKELY (d_start != d_end) {
-					return *d_start++;
+					return char_to_int(*d_start++);
 				}
 				d_state = std::errc::invalid_argument;
-				return (Char)EOF;
+				return EOF;
 			}
 		};
 
@@ -1950,10 +1960,10 @@ namespace seq
 		streamsize d_pos;
 		StreamState d_state;
 
-		auto set_eof() noexcept -> Char
+		auto set_eof() noexcept -> int
 		{
 			d_state = EndOfFile;
-			return (Char)EOF;
+			return EOF;
 		}
 
 	public:
@@ -2023,10 +2033,10 @@ namespace seq
 		}
 		/// @brief Extract a single character from the stream and put the read position to the next character
 		/// @return extracted character or EOF
-		SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+		SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 		{
 			if SEQ_LIKELY (d_pos != d_len) {
-				return d_buff[d_pos++];
+				return detail::char_to_int(d_buff[d_pos++]);
 			}
 			return set_eof();
 			// return d_pos != d_len ? d_buff[d_pos++] : set_eof();
@@ -2071,13 +2081,13 @@ namespace seq
 		Char* d_buff_end;
 		State d_state;
 
-		auto set_eof() noexcept -> Char
+		auto set_eof() noexcept -> int
 		{
 			set_state(EndOfFile);
-			return (Char)EOF;
+			return EOF;
 		}
 
-		auto fillbuff() -> Char
+		auto fillbuff() -> int
 		{
 			d_file->read(d_buff, buff_size);
 			size_t read = d_file->gcount();
@@ -2087,7 +2097,7 @@ namespace seq
 			d_buff_end = d_buff + read;
 			if SEQ_LIKELY (read > 0) {
 				++d_pos;
-				return *d_buff_pos++;
+				return detail::char_to_int(*d_buff_pos++);
 			}
 			return set_eof();
 		}
@@ -2185,13 +2195,13 @@ namespace seq
 			return d_pos;
 		}
 		/// @brief Returns the next character from the stream and update the get position
-		SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+		SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 		{
 			// We need this one to be very fast
 			if SEQ_UNLIKELY (d_buff_pos == d_buff_end)
 				return fillbuff();
 			++d_pos;
-			return *d_buff_pos++;
+			return detail::char_to_int(*d_buff_pos++);
 		}
 		/// @brief Read several bytes from the stream, and return the number of read bytes.
 		auto read(Char* dst, size_t size) noexcept -> size_t
@@ -2242,7 +2252,7 @@ namespace seq
 		State d_state;
 		int d_flag;
 
-		auto set_eof() noexcept -> char
+		auto set_eof() noexcept -> int
 		{
 			set_state(EndOfFile);
 			return EOF;
@@ -2255,7 +2265,7 @@ namespace seq
 			d_buff_end = d_buff + read;
 			if SEQ_LIKELY (read) {
 				++d_pos;
-				return *d_buff_pos++;
+				return detail::char_to_int(*d_buff_pos++);
 			}
 			return set_eof();
 		}
@@ -2393,7 +2403,7 @@ namespace seq
 			if SEQ_UNLIKELY (d_buff_pos == d_buff_end)
 				return fillbuff();
 			++d_pos;
-			return *d_buff_pos++;
+			return detail::char_to_int(*d_buff_pos++);
 		}
 		/// @brief Read several bytes from the stream, and return the number of read bytes.
 		auto read(char* dst, streamsize size) noexcept -> streamsize
-- 
2.43.0


From 16190debb34f3567c6c9f4e0227911f1566757de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 089/106] fix: from_chars: wide characters were truncated when
 compared with nan and inf

---
 seq/charconv.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index c065861..8c1a2fe 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -416,10 +416,10 @@ namespace seq
 		{
 			return c == '\n' || c == '\r';
 		}
-		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> char
+		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> int
 		{
-			static constexpr char offset = 'a' - 'A';
-			return static_cast<char>(c >= 'a' ? c - offset : c);
+			static constexpr int offset = 'a' - 'A';
+			return (c >= 'a' && c <= 'z') ? c - offset : c;
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
@@ -709,8 +709,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			char a = to_upper((int)str.getc());
-			char n = to_upper((int)str.getc());
+			int a = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -723,8 +723,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			char n = to_upper((int)str.getc());
-			char f = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
+			int f = to_upper((int)str.getc());
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
-- 
2.43.0


From b83b813f0bf03d61532409a35d4b5c642ee603bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 090/106] fix: from_chars: a sign without a digit was accepted
 as an integer

---
 seq/charconv.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 8c1a2fe..bed4f3f 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -525,12 +525,8 @@ namespace seq
 				sign = -1;
 				first = (int)str.getc();
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
 
 			while (is_digit(first)) {
 				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
-- 
2.43.0


From d5353cc9e971415db9d33497d7fff3f526fac27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 091/106] fix: from_chars: integers at the end of the input
 left the stream in a wrong state or position

---
 seq/charconv.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index bed4f3f..eec7b98 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -600,6 +600,7 @@ namespace seq
 					if (x != 0) {
 						// X after non 0 digit, return
 						str.back();
+						str.reset();
 						return sign_value(x, sign); // sign == -1 ? -x : x;
 					}
 					first = (int)str.getc();
@@ -613,7 +614,9 @@ namespace seq
 
 				if SEQ_UNLIKELY (val >= base) {
 					// invalid char
-					str.back();
+					if (first != EOF)
+						str.back();
+					str.reset();
 					return sign_value(x, sign); // sign == -1 ? -x : x;
 				}
 				x = (x * static_cast<T>(base)) + static_cast<T>(val);
@@ -753,6 +756,7 @@ namespace seq
 		read_long_double(T res, Integral saved, int sign, char dot, Stream& str, const chars_format& fmt) -> T
 		{
 			// Read double too long to be read as separate integrals
+			str.reset();
 
 			if (std::isnan(res)) {
 				res = 0;
-- 
2.43.0


From 4155e7fba03c7ed11b65af221b7832062320e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 092/106] fix: from_chars: -nan was rejected

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index eec7b98..41ccefc 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -911,7 +911,7 @@ namespace seq
 				}
 			}
 			// potential nan
-			else if SEQ_UNLIKELY (to_upper(first) == 'N') {
+			if SEQ_UNLIKELY (first == 'n' || first == 'N') {
 				// read 'nan'
 				return read_nan<T>(saved, str);
 			}
-- 
2.43.0


From 7b9ed3e682547ede8f309b4c904f2459210aac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 093/106] fix: from_chars: reals without integral or without
 decimal part

---
 seq/charconv.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 41ccefc..da2dd69 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -930,7 +930,8 @@ namespace seq
 			str.back();
 			Integral check_point = str.tell();
 			// read intergal part
-			int64_t integral = read_int64(str);
+			bool no_integral = first == dot;
+			int64_t integral = no_integral ? 0 : read_int64(str);
 			if SEQ_UNLIKELY (!str) {
 				if (integral == -1) {
 					// too big: switch to the default slower version
@@ -956,12 +957,14 @@ namespace seq
 						// too big: switch to the default slower version
 						goto slow_path;
 					}
-					if (fmt == scientific) {
-						// exponent is mandatory
+					if (no_integral) {
+						// a dot without any digit
 						return return_bad_format<T>(saved, str);
 					}
 					// we accept a dot with nothing after
-					return sign_value(res, sign);
+					decimal = 0;
+					str.seek(new_check_point);
+					str.reset();
 				}
 				int dist = static_cast<int>(str.tell() - new_check_point);
 				res += static_cast<T>(decimal) * get_pow<T>(-dist);
-- 
2.43.0


From cd2b58e8c430de4e0902392dfaf393870db5295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 094/106] fix: from_chars: incomplete or forbidden exponents
 belong to the rest of the text

---
 seq/charconv.hpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index da2dd69..c708163 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -801,12 +801,10 @@ namespace seq
 			}
 
 			if (first == 'e' || first == 'E') {
-				if SEQ_UNLIKELY ((fmt & scientific) == 0) {
-					str.back();
-					return sign_value(res, sign);
-				}
-
 				save_point = str.tell() - 1;
+				if SEQ_UNLIKELY ((fmt & scientific) == 0)
+					goto partial;
+
 				// read exponent part
 				first = (int)str.getc();
 				int exp_sign = 1;
@@ -971,9 +969,11 @@ namespace seq
 				c = (int)str.getc();
 			}
 			if (c == 'e' || c == 'E') {
+				Integral exp_point = str.tell() - 1;
 				if SEQ_UNLIKELY (fmt == fixed) {
-					// exponent forbiden
-					return return_bad_format<T>(saved, str);
+					// exponent forbiden: stop before
+					str.seek(exp_point);
+					return sign_value(res, sign);
 				}
 				// read exponent
 				int exp = 0;
@@ -984,12 +984,15 @@ namespace seq
 					if (c == '-') {
 						esign = -1;
 					}
-					else if SEQ_UNLIKELY (c != '+') {
-						return return_bad_format<T>(saved, str);
-					}
-					c = (int)str.getc();
-					if (!is_digit(c)) {
-						return return_bad_format<T>(saved, str);
+					if (c == '-' || c == '+')
+						c = (int)str.getc();
+					if SEQ_UNLIKELY (!is_digit(c)) {
+						// not an exponent
+						if (fmt == scientific)
+							return return_bad_format<T>(saved, str);
+						str.reset();
+						str.seek(exp_point);
+						return sign_value(res, sign);
 					}
 				}
 				// read exponent value
-- 
2.43.0


From 0c0962c7a3cdc0390b632542f72d0c17e5ee5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 095/106] fix: from_chars: integer overflow on big exponents,
 zero with an exponent

---
 seq/charconv.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index c708163..b9d1794 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -827,7 +827,8 @@ namespace seq
 				}
 
 				do {
-					exp = (exp * 10) + static_cast<int>(first - '0');
+					if (exp < 100000)
+						exp = (exp * 10) + static_cast<int>(first - '0');
 					first = (int)str.getc();
 				} while (is_digit(first));
 				exp = exp_sign == -1 ? -exp : exp;
@@ -998,7 +999,8 @@ namespace seq
 				// read exponent value
 				unsigned cc = static_cast<unsigned>(c - '0');
 				do {
-					exp = (exp * 10) + static_cast<int>(cc);
+					if (exp < 100000)
+						exp = (exp * 10) + static_cast<int>(cc);
 					cc = static_cast<unsigned>((int)str.getc() - '0');
 				} while (cc <= 9U);
 				if (cc != _EOF) {
@@ -1008,6 +1010,9 @@ namespace seq
 					str.reset();
 				}
 
+				if SEQ_UNLIKELY (res == 0)
+					return sign_value(static_cast<T>(0), sign);
+
 				exp = sign_value(exp, esign);
 				// check exponent validity
 				if SEQ_UNLIKELY (exp > std::numeric_limits<T>::max_exponent10) {
-- 
2.43.0


From ac4858eef14a283df0fe2aea345771cdaf66d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 096/106] fix: from_chars: state after reading a real with many
 digits

---
 seq/charconv.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index b9d1794..802b120 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -862,12 +862,14 @@ namespace seq
 			return sign_value(res, sign);
 
 		error:
-			if (str) {
-				str.set_state(BadInputFormat);
-			}
 			str.seek(saved);
 			return 0;
 		partial:
+			if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
+				str.set_state(BadInputFormat);
+				str.seek(saved);
+				return 0;
+			}
 			str.reset();
 			str.seek(save_point);
 			return sign_value(res, sign);
-- 
2.43.0


From 5cc9595b27658644bd4404d6cbd43c8848f1caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 097/106] fix: from_chars: float with a mantissa greater than
 the biggest float

---
 seq/charconv.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 802b120..254f595 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1044,7 +1044,9 @@ namespace seq
 			// slower way of reading a floating point value, relies on floating point arithmetic.
 			// reuse the integral part if possible.
 			str.seek(check_point);
-			return read_long_double<T>(integral != -1 ? res : std::numeric_limits<T>::quiet_NaN(), saved, sign, dot, str, fmt);
+			// use at least the double type, as the mantissa alone might be too big for a float.
+			using Real = std::conditional_t<std::is_same_v<T, float>, double, T>;
+			return static_cast<T>(read_long_double<Real>(integral != -1 ? static_cast<Real>(res) : std::numeric_limits<Real>::quiet_NaN(), saved, sign, dot, str, fmt));
 		}
 
 		template<class T, class Stream>
-- 
2.43.0


From 821db6e3e860a260e98b7f2ba93e866fa98c4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 098/106] fix: to_chars: minimum width of integers in other
 bases than 10 overran its buffer

---
 seq/charconv.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 254f595..d94d0ab 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1160,8 +1160,9 @@ namespace seq
 				}
 				const char* chars = fmt.upper_case ? upper_chars : lower_chars;
 				int min_width = static_cast<int>(fmt.integral_min_width);
-				char tmp[66];
-				int index = 65;
+				static constexpr int max_size = 66 + 256;
+				char tmp[max_size];
+				int index = max_size - 1;
 				tmp[index] = 0;
 				unsigned neg = 0;
 
@@ -1183,8 +1184,8 @@ namespace seq
 					val = _new;
 				}
 				if (min_width >= 0) {
-					int count = 65 - index;
-					while (min_width-- > count && index > 0) {
+					int count = max_size - 1 - index;
+					while (min_width-- > count) {
 						tmp[--index] = '0';
 					}
 				}
-- 
2.43.0


From f99e73d279fdfcca9673e37538562f5f5ff7125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 099/106] fix: buffer_input_stream: read() copied bytes instead
 of characters

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index d94d0ab..b87ab62 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2063,7 +2063,7 @@ namespace seq
 		{
 			streamsize rem = d_len - d_pos;
 			streamsize to_read = std::min(size, rem);
-			memcpy(dst, d_buff + d_pos, to_read);
+			memcpy(dst, d_buff + d_pos, to_read * sizeof(Char));
 			if (size > rem) {
 				set_eof();
 			}
-- 
2.43.0


From dc7d3f2a8499197840dc88c5ec9d5e8f0eb8152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 100/106] fix: std_input_stream and file_input_stream: read()
 left a stale buffer

---
 seq/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index b87ab62..3527f6d 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2232,6 +2232,7 @@ namespace seq
 			}
 			if (size > from_buffer) {
 				size -= from_buffer;
+				d_buff_pos = d_buff_end = nullptr;
 				d_file->read(dst, size);
 				read_vals += d_file->gcount();
 				if (d_file->eof())
@@ -2434,6 +2435,7 @@ namespace seq
 			}
 			if (size > from_buffer) {
 				size -= from_buffer;
+				d_buff_pos = d_buff_end = nullptr;
 				streamsize _fread = fread(dst, 1, size, d_file);
 				read_vals += _fread;
 				if (_fread != size)
-- 
2.43.0


From 9626aedd70bd0b14c8cba69747f45fc7febea789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 101/106] fix: file_input_stream: building from a FILE* rewound
 and closed it

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 3527f6d..9245013 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2312,7 +2312,7 @@ namespace seq
 		/// @brief Construct from a FILE object.
 		/// If 'own' is true, closing the stream will also close the FILE object.
 		explicit file_input_stream(FILE* file, bool own) noexcept
-		  : d_file(file)
+		  : d_file(NULL)
 		  , d_pos(0)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
-- 
2.43.0


From da5ec4a433cc7333329277085c799955f538ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 102/106] fix: format: values whose own output uses the format
 module overwrote the text being written

---
 seq/format.hpp | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 42583de..87b944a 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -752,6 +752,26 @@ namespace seq
 			return tmp;
 		}
 
+		// Borrow one of the above thread local buffers.
+		// Formatting a custom type might use the format module again, and must not write in the same buffer.
+		template<class Char>
+		class borrow_buffer
+		{
+			std::basic_string<Char>& shared;
+
+		public:
+			std::basic_string<Char> str;
+			explicit borrow_buffer(std::basic_string<Char>& b) noexcept
+			  : shared(b)
+			  , str(std::move(b))
+			{
+				str.clear();
+			}
+			borrow_buffer(const borrow_buffer&) = delete;
+			borrow_buffer& operator=(const borrow_buffer&) = delete;
+			~borrow_buffer() noexcept { shared = std::move(str); }
+		};
+
 		// Helper function, append a ostream_format to a string
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
@@ -1280,8 +1300,8 @@ namespace seq
 		auto to_chars(Char* dst) -> Char*
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrow_buffer<Char> buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = buffer.str;
 			this->append(tmp);
 			detail::memcpy_char(dst, tmp.data(), tmp.size());
 			return dst + tmp.size();
@@ -1293,8 +1313,8 @@ namespace seq
 		auto to_chars(Char* dst, size_t max) -> std::pair<Char*, size_t>
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrow_buffer<Char> buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = buffer.str;
 			this->append(tmp);
 			if (tmp.size() > max) {
 				detail::memcpy_char(dst, tmp.data(), max);
@@ -1310,8 +1330,8 @@ namespace seq
 		{
 			using Char = typename std::iterator_traits<Iter>::value_type;
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrow_buffer<Char> buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = buffer.str;
 			this->append(tmp);
 			return std::copy(tmp.begin(), tmp.end(), dst);
 		}
@@ -1665,8 +1685,8 @@ namespace seq
 	{
 		using valid_char_type = typename ostream_format<T, S>::valid_char_type;
 		static_assert(std::is_same_v<valid_char_type, Elem>, "output to stream: cannot mix different character types");
-		auto& tmp = detail::ostream_buffer<Elem>();
-		tmp.clear();
+		detail::borrow_buffer<Elem> buffer(detail::ostream_buffer<Elem>());
+		auto& tmp = buffer.str;
 		size_t s = val.to_string(tmp);
 		if (!ostream_format<T, S>::auto_width_format) {
 			// non default ostream_format, the width formatting must be applied
@@ -2260,8 +2280,8 @@ namespace seq
 			template<class C>
 			auto to_chars(C* dst, size_t max) -> std::pair<C*, size_t>
 			{
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::borrow_buffer<C> buffer(detail::to_chars_buffer<C>());
+				auto& tmp = buffer.str;
 				reserve_string(tmp);
 				this->append(tmp);
 				if (tmp.size() > max) {
@@ -2276,8 +2296,8 @@ namespace seq
 			auto to_iter(Iter dst) -> Iter
 			{
 				using C = typename std::iterator_traits<Iter>::value_type;
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::borrow_buffer<C> buffer(detail::to_chars_buffer<C>());
+				auto& tmp = buffer.str;
 				reserve_string(tmp);
 				this->append(tmp);
 				return std::copy(tmp.begin(), tmp.end(), dst);
@@ -2945,8 +2965,8 @@ namespace seq
 	inline auto operator<<(std::basic_ostream<Elem, Traits>& oss, const detail::mutli_ostream_format<T, C, HS, P, S>& val) -> std::basic_ostream<Elem, Traits>&
 	{
 		static_assert(std::is_void_v<C> || std::is_same_v<Elem, C>, "cannot mix different character types");
-		auto& tmp = detail::multi_ostream_buffer<Elem>();
-		tmp.clear();
+		detail::borrow_buffer<Elem> buffer(detail::multi_ostream_buffer<Elem>());
+		auto& tmp = buffer.str;
 		val.append(tmp);
 		oss.rdbuf()->sputn(tmp.data(), static_cast<std::streamsize>(tmp.size()));
 		return oss;
-- 
2.43.0


From 17dd29a0bd0a07f0b54e4d6a0d8cd26a28e85c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 103/106] fix: split: the skip behavior was not applied to the
 last element and to single characters

---
 seq/format.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 87b944a..006f0a2 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3163,30 +3163,29 @@ namespace seq
 
 			void find_next() noexcept
 			{
-				// Special case: split all characters
-				if (match.full_split()) {
-					if (start == source.size())
+				do {
+					// end condition
+					if SEQ_UNLIKELY (start == view_type::npos - 1) {
 						start = view_type::npos;
-					else {
+						return;
+					}
+
+					// Special case: split all characters
+					if (match.full_split()) {
+						if (start == source.size()) {
+							start = view_type::npos;
+							return;
+						}
 						current = view_type(source.data() + start, 1);
 						++start;
+						continue;
 					}
-					return;
-				}
-
-				// end condition
-				if SEQ_UNLIKELY (start == view_type::npos - 1) {
-					start = view_type::npos;
-					return;
-				}
 
-				do {
 					size_t found = match.find(source, start);
 					if SEQ_UNLIKELY (found == view_type::npos) {
 						// last occurence
 						current = source.substr(start, source.size() - start);
 						start = view_type::npos - 1;
-						return;
 					}
 					else {
 						current = source.substr(start, found - start);
-- 
2.43.0


From c302d9ac9b51e93bab6ac43050cbedb7909ac48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 104/106] fix: replace: leading and adjacent matches were lost

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 006f0a2..7365446 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3249,7 +3249,7 @@ namespace seq
 	template<class Out, class Str1, class Str2, class Str3>
 	inline auto replace(const Str1& src, const Str2& match, const Str3& _new)
 	{
-		auto r = split(src, by_string(match), skip_empty{});
+		auto r = split(src, by_string(match), no_skip{});
 		return Out(join(_new, r));
 	}
 
-- 
2.43.0


From a117f8be09e68c8595a038846fc900c7f0e8ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 105/106] fix: hold_any: warning about the release of inline
 storage in emplace

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 21d0ae0..2734dd5 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1676,7 +1676,7 @@ namespace seq
 			}
 			catch (...) {
 				// free memory chunk if needed
-				if (d && big_size())
+				if (d && d != static_cast<void*>(&this->d_storage))
 					SEQ_ANY_FREE(d);
 				// reset type info pointer and tags
 				this->d_type_info.set_full(0);
-- 
2.43.0


From a32416cc9fbecc87d90606e7eca9864af5ef1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:02 +0000
Subject: [PATCH 106/106] fix: hold_any: a stored character pointer is never
 equal to a character array

---
 seq/any.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 2734dd5..c6849a0 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1942,7 +1942,10 @@ namespace seq
 		{
 			using type = typename std::decay<T>::type;
 
-			if constexpr (std::is_array_v<std::remove_reference_t<T>> || std::is_function_v<std::remove_reference_t<T>>)
+			if constexpr (std::is_array_v<std::remove_reference_t<T>>)
+				// a stored pointer is never equal to an array, otherwise compare with a pointer
+				return this->type() != get_type<type>() && equal_to(static_cast<type>(other));
+			else if constexpr (std::is_function_v<std::remove_reference_t<T>>)
 				// compare with a pointer
 				return equal_to(static_cast<type>(other));
 
-- 
2.43.0

