From be5d598709fc2e6b600061859164eeb7434a3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 01/89] fix: OptionalWithFlagValue::or_else returns an optional

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..7e8bfe4 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1344,12 +1344,12 @@ namespace fastgltf {
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func) const& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func) const& {
 			return *this ? *this : std::invoke(std::forward<F>(func));
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func)&& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func)&& {
 			return *this ? std::move(*this) : std::invoke(std::forward<F>(func));
 		}
 
-- 
2.43.0


From 6dd8cd4c70f7085d377fc948ab8e4323d35d5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 02/89] fix: converting an OptionalWithFlagValue rvalue to
 std::optional returned a dangling reference

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 7e8bfe4..2429c12 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1410,11 +1410,11 @@ namespace fastgltf {
 			return std::move(_value);
 		}
 
-		operator std::optional<T>() const noexcept {
+		operator std::optional<T>() const& noexcept {
 			return has_value() ? std::optional<T>(_value) : std::nullopt;
 		}
 
-		operator std::optional<T>&&()&& noexcept {
+		operator std::optional<T>()&& noexcept {
 			return has_value() ? std::optional<T>(std::move(_value)) : std::nullopt;
 		}
 	};
-- 
2.43.0


From 05a10593b155460cf10315eb2d1ba01e4d496c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 03/89] fix: OptionalWithFlagValue::swap left the source
 engaged when swapping with an empty optional

---
 include/fastgltf/types.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 2429c12..73b118c 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1360,8 +1360,10 @@ namespace fastgltf {
 				std::swap(_value, other._value);
 			} else if (has_value() && !other.has_value()) {
 				other._value = std::move(_value);
+				reset();
 			} else if (!has_value() && other.has_value()) {
 				_value = std::move(other._value);
+				other.reset();
 			}
 		}
 
-- 
2.43.0


From fe25d51d84edd5ee2484b6fb480f0d617282fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 04/89] fix: an empty OptionalWithFlagValue compares less than
 every value

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 73b118c..79a560b 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1444,12 +1444,12 @@ namespace fastgltf {
 
 	FASTGLTF_EXPORT template <typename T, typename U>
 	bool operator<(const OptionalWithFlagValue<T>& opt, const U& value) {
-		return opt.has_value() && *opt < value;
+		return !opt.has_value() || *opt < value;
 	}
 
 	FASTGLTF_EXPORT template <typename T, typename U>
 	bool operator<=(const OptionalWithFlagValue<T>& opt, const U& value) {
-		return opt.has_value() && *opt <= value;
+		return !opt.has_value() || *opt <= value;
 	}
 
 	FASTGLTF_EXPORT template <typename T, typename U>
-- 
2.43.0


From c3409e27224dcad55244e59f363049b67f0174bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 05/89] fix: SmallVector's reverse iterators did not compile

---
 include/fastgltf/types.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 79a560b..ef3a143 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -833,12 +833,12 @@ namespace fastgltf {
 	    [[nodiscard]] const_iterator end() const noexcept { return begin() + size(); }
 	    [[nodiscard]] const_iterator cend() const noexcept { return begin() + size(); }
 
-        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<T*> rend() { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return begin(); }
+        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return std::reverse_iterator<const T*>(begin()); }
 
         [[nodiscard]] T* data() noexcept { return _data; }
         [[nodiscard]] const T* data() const noexcept { return _data; }
-- 
2.43.0


From 26c0fe71204d1a85ae1505b815b5dd36cf943816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 06/89] fix: SmallVector::clear and reserve forgot to update
 the capacity or free the old allocation

---
 include/fastgltf/types.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index ef3a143..0fdf389 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -886,7 +886,7 @@ namespace fastgltf {
 			// Destroy all objects in the old allocation
 			std::destroy(begin(), end());
 
-            if (!isUsingStack() && _data && size() != 0) {
+            if (!isUsingStack() && _data) {
 				allocator.deallocate(_data, _capacity);
             }
 
@@ -999,6 +999,7 @@ namespace fastgltf {
 			if (!isUsingStack() && size() != 0) {
 				allocator.deallocate(_data, _capacity);
 				_data = reinterpret_cast<T*>(storage.data());
+				_capacity = N;
 			}
 
 			_size = 0;
-- 
2.43.0


From e76e33459fc13c325a2e80c429fe1b8dcfb1d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 07/89] fix: moving a SmallVector leaked, lost or double-used
 elements and memory

---
 include/fastgltf/types.hpp | 65 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 0fdf389..cc19192 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -741,6 +741,35 @@ namespace fastgltf {
             }
         }
 
+		// Moves (or copies) the objects into uninitialised memory and destroys the originals.
+		static void relocate(T* first, std::size_t count, T* result) {
+			for (std::size_t i = 0; i < count; ++i) {
+				if constexpr (std::is_nothrow_move_constructible_v<T>) {
+					new(result + i) T(std::move(first[i]));
+				} else if constexpr (std::is_copy_constructible_v<T>) {
+					new(result + i) T(first[i]);
+				} else {
+					new(result + i) T(std::move(first[i]));
+				}
+			}
+			std::destroy(first, first + count);
+		}
+
+		// Takes over the elements of other. This vector has to be empty and must not own any memory.
+		void take(SmallVector& other) {
+			if (other.isUsingStack()) {
+				relocate(other.begin(), other.size(), begin());
+				_capacity = N;
+			} else if (allocator == other.allocator) {
+				_data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
+				_capacity = std::exchange(other._capacity, N);
+			} else {
+				reserve(other.size());
+				relocate(other.begin(), other.size(), begin());
+			}
+			_size = std::exchange(other._size, 0);
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -766,20 +795,8 @@ namespace fastgltf {
             copy(other.begin(), other.size(), begin());
         }
 
-        SmallVector(SmallVector&& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            if (other.isUsingStack()) {
-                if (!other.empty()) {
-                    resize(other.size());
-                    copy(other.begin(), other.size(), begin());
-                    other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
-            } else {
-                _data = std::exchange(other._data, nullptr);
-                _size = std::exchange(other._size, 0);
-                _capacity = std::exchange(other._capacity, N);
-            }
+        SmallVector(SmallVector&& other) noexcept : allocator(other.allocator), _data(reinterpret_cast<T*>(storage.data())) {
+            take(other);
         }
 
         SmallVector& operator=(const SmallVector& other) {
@@ -799,19 +816,15 @@ namespace fastgltf {
 
         SmallVector& operator=(SmallVector&& other) noexcept {
             if (std::addressof(other) != this) {
-                if (other.isUsingStack()) {
-                    if (!other.empty()) {
-                        resize(other.size());
-                        copy(other.begin(), other.size(), begin());
-                        other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                        _size = std::exchange(other._size, 0);
-                        _capacity = std::exchange(other._capacity, N);
-                    }
-                } else {
-                    _data = std::exchange(other._data, nullptr);
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
+                std::destroy(begin(), end());
+                if (!isUsingStack()) {
+                    allocator.deallocate(_data, _capacity);
+                    _data = reinterpret_cast<T*>(storage.data());
                 }
+                _size = 0;
+                _capacity = N;
+
+                take(other);
             }
             return *this;
         }
-- 
2.43.0


From 40458c695357fbc15f01115b2f45ddd8dc5400cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 08/89] fix: SmallVector::shrink_to_fit leaked the heap
 allocation and assigned into uninitialised storage

---
 include/fastgltf/types.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index cc19192..8cb3b8b 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -964,26 +964,20 @@ namespace fastgltf {
 				return;
 			}
 
-			// If we can use the object's memory again, we'll copy everything over.
-			if (size() <= N) {
-				copy(begin(), size(), reinterpret_cast<T*>(storage.data()));
-				_data = reinterpret_cast<T*>(storage.data());
-			} else {
-				// We have to use heap allocated memory.
-				auto* alloc = allocator.allocate(size());
-				for (std::size_t i = 0; i < size(); ++i) {
-					new(alloc + i) T((*this)[i]);
-				}
-
-				if (_data && !isUsingStack()) {
-					std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-				}
-
-				_data = alloc;
+			// The storage within the object cannot shrink.
+			if (isUsingStack()) {
+				return;
 			}
 
-			_capacity = _size;
+			// If we can use the object's memory again, we'll move everything over.
+			// Otherwise, we have to use heap allocated memory.
+			const bool fitsStack = size() <= N;
+			auto* alloc = fitsStack ? reinterpret_cast<T*>(storage.data()) : allocator.allocate(size());
+			relocate(begin(), size(), alloc);
+			allocator.deallocate(_data, _capacity);
+
+			_data = alloc;
+			_capacity = fitsStack ? N : _size;
 		}
 
 		void assign(std::size_t count, const T& value) {
-- 
2.43.0


From 99436b5862cbc4adc524c3793e032f1d5f9066f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 09/89] fix: SmallVector growth invalidated arguments that
 refer to the vector's own elements

---
 include/fastgltf/types.hpp | 73 +++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 8cb3b8b..04a7685 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -755,6 +755,23 @@ namespace fastgltf {
 			std::destroy(first, first + count);
 		}
 
+		// We use geometric growth, similarly to std::vector.
+		static std::size_t growthFor(std::size_t newCapacity) {
+			return static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));
+		}
+
+		// Moves all elements into the new allocation and frees the old one.
+		void replaceAllocation(T* alloc, std::size_t newCapacity) {
+			relocate(begin(), size(), alloc);
+
+			if (!isUsingStack() && _data) {
+				allocator.deallocate(_data, _capacity);
+			}
+
+			_data = alloc;
+			_capacity = newCapacity;
+		}
+
 		// Takes over the elements of other. This vector has to be empty and must not own any memory.
 		void take(SmallVector& other) {
 			if (other.isUsingStack()) {
@@ -879,32 +896,8 @@ namespace fastgltf {
                 return;
             }
 
-            // We use geometric growth, similarly to std::vector.
-            newCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));
-
-			T* alloc = allocator.allocate(newCapacity);
-
-			// Copy/Move the old data into the new memory
-			for (std::size_t i = 0; i < size(); ++i) {
-				auto& x = (*this)[i];
-				if constexpr (std::is_nothrow_move_constructible_v<T>) {
-					new(alloc + i) T(std::move(x));
-				} else if constexpr (std::is_copy_constructible_v<T>) {
-					new(alloc + i) T(x);
-				} else {
-					new(alloc + i) T(std::move(x));
-				}
-			}
-
-			// Destroy all objects in the old allocation
-			std::destroy(begin(), end());
-
-            if (!isUsingStack() && _data) {
-				allocator.deallocate(_data, _capacity);
-            }
-
-            _data = alloc;
-            _capacity = newCapacity;
+            newCapacity = growthFor(newCapacity);
+            replaceAllocation(allocator.allocate(newCapacity), newCapacity);
         }
 
         void resize(std::size_t newSize) {
@@ -938,20 +931,12 @@ namespace fastgltf {
 				// Just destroy the "overflowing" elements.
 				std::destroy(begin() + newSize, end());
 			} else {
-				// Reserve enough capacity and copy the new value over.
+				// Reserve enough capacity and copy the new value over. The value might refer to one of our elements.
+				const T copyOfValue(value);
 				auto oldSize = _size;
 				reserve(newSize);
 				for (auto it = begin() + oldSize; it != begin() + newSize; ++it) {
-					if (it == nullptr)
-						break;
-
-					if constexpr (std::is_move_constructible_v<T>) {
-						new (it) T(std::move(value));
-					} else if constexpr (std::is_trivially_copyable_v<T>) {
-						std::memcpy(it, std::addressof(value), sizeof(T));
-					} else {
-						new (it) T(value);
-					}
+					new (it) T(copyOfValue);
 				}
 			}
 
@@ -1014,10 +999,18 @@ namespace fastgltf {
 
         template <typename... Args>
         decltype(auto) emplace_back(Args&&... args) {
-            // We reserve enough capacity for the new element, and then just increment the size.
-			reserve(_size + 1);
+			if (_size == _capacity && (!isUsingStack() || _size >= N)) {
+				// The arguments might refer to one of our elements, so the new element is constructed before the others move.
+				const auto newCapacity = growthFor(_size + 1);
+				T* alloc = allocator.allocate(newCapacity);
+				new (alloc + _size) T(std::forward<Args>(args)...);
+				replaceAllocation(alloc, newCapacity);
+			} else {
+				// We reserve enough capacity for the new element, and then just increment the size.
+				reserve(_size + 1);
+				new (end()) T(std::forward<Args>(args)...);
+			}
 			++_size;
-            new (std::addressof(back())) T(std::forward<Args>(args)...);
             return (back());
         }
 
-- 
2.43.0


From 31c4b33632905a148a7b16a39c0fb5c58853250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 10/89] fix: StaticVector::fromVector only copied as many bytes
 as the vector has elements

---
 include/fastgltf/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 04a7685..7af7208 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -647,7 +647,7 @@ namespace fastgltf {
 		static StaticVector<T> fromVector(std::vector<T> vector) {
 			StaticVector<T> staticVector(vector.size());
 			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(staticVector.data(), vector.data(), vector.size());
+				std::memcpy(staticVector.data(), vector.data(), vector.size() * sizeof(T));
 			} else {
 				for (auto it = vector.begin(); it != vector.end(); ++it) {
 					staticVector[std::distance(vector.begin(), it)] = *it;
-- 
2.43.0


From dbce106698a80aef1dc96bdf81a6a399d8eb1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 11/89] fix: a moved-from StaticVector kept its size

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 7af7208..0e13cd7 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -632,12 +632,12 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
 			_array = std::move(other._array);
-			_size = other.size();
+			_size = std::exchange(other._size, 0);
 			return *this;
 		}
 
-- 
2.43.0


From 9f9f61b23c42a671e96ca5ea92de232973a78419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 12/89] fix: StaticVector compared the representation of its
 elements instead of the elements

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 0e13cd7..4649513 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -694,13 +694,13 @@ namespace fastgltf {
 
         bool operator==(const StaticVector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin());
         }
 
         // This is mostly just here for compatibility and the tests
         bool operator==(const std::vector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin());
         }
     };
 
-- 
2.43.0


From 9dc8aa4d1ecb5886311a8b5259d7eae073203c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 13/89] fix: split URIs as RFC 3986 defines, in particular
 authorities and fragments containing '?'

---
 src/fastgltf.cpp | 78 +++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..64e3e7e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -426,8 +426,9 @@ void fg::URIView::parse() {
 	}
 
 	std::size_t idx = 0;
-	auto firstColon = view.find(':');
-	if (firstColon != std::string::npos) {
+	// The first colon only ends a scheme if no other component starts before it.
+	auto firstColon = view.find_first_of(":/?#");
+	if (firstColon != std::string::npos && view[firstColon] == ':') {
 		// URI has a scheme.
 		if (firstColon == 0) {
 			// Empty scheme is invalid
@@ -439,40 +440,41 @@ void fg::URIView::parse() {
 	}
 
 	if (startsWith(view.substr(idx), "//")) {
-		// URI has an authority part.
+		// URI has an authority part, which ends at the path, query or fragment.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
-		auto userInfo = view.find('@', idx);
-		if (userInfo != std::string::npos && userInfo < nextSlash) {
-			_userinfo = view.substr(idx, userInfo - idx);
-			idx += _userinfo.size() + 1;
+		const auto authorityEnd = std::min(view.find_first_of("/?#", idx), view.size());
+		auto authority = view.substr(idx, authorityEnd - idx);
+
+		auto userInfo = authority.find('@');
+		if (userInfo != std::string::npos) {
+			_userinfo = authority.substr(0, userInfo);
+			authority.remove_prefix(userInfo + 1);
 		}
 
-		auto hostEnd = nextSlash - 1;
-		std::size_t portColon;
-		if (view[idx] == '[') {
-			hostEnd = view.find(']', idx);
+		if (startsWith(authority, "[")) {
+			// IPv6 addresses are made up of colons, so we need to search for the port after its address.
+			auto hostEnd = authority.find(']');
 			if (hostEnd == std::string::npos) {
 				_valid = false;
 				return;
 			}
-			// IPv6 addresses are made up of colons, so we need to search after its address.
-			// This will just be hostEnd + 1 or std::string::npos.
-			portColon = view.find(':', hostEnd);
+			_host = authority.substr(1, hostEnd - 1);
+			authority.remove_prefix(hostEnd + 1);
 		} else {
-			portColon = view.find(':', idx);
+			_host = authority.substr(0, authority.find(':'));
+			authority.remove_prefix(_host.size());
 		}
 
-		if (portColon != std::string::npos) {
-			_host = view.substr(idx, portColon - idx);
-			++portColon; // We don't want to include the colon in the port string.
-			_port = view.substr(portColon, nextSlash - portColon);
-		} else {
-			++idx;
-			_host = view.substr(idx, hostEnd - idx);
+		if (!authority.empty()) {
+			if (authority.front() != ':') {
+				_valid = false;
+				return;
+			}
+			// We don't want to include the colon in the port string.
+			_port = authority.substr(1);
 		}
 
-		idx = nextSlash; // Path includes this slash
+		idx = authorityEnd; // Path includes this slash
 	}
 
 	if (_scheme == "data") {
@@ -481,25 +483,19 @@ void fg::URIView::parse() {
 		// which can be multiple MB.
 		_path = view.substr(idx);
 	} else {
-		// Parse the path.
-		auto questionIdx = view.find('?', idx);
-		auto hashIdx = view.find('#', idx);
+		// The fragment starts at the first '#', the query at the first '?' before that.
+		auto rest = view.substr(idx);
+		auto hashIdx = rest.find('#');
+		if (hashIdx != std::string::npos) {
+			_fragment = rest.substr(hashIdx + 1);
+			rest = rest.substr(0, hashIdx);
+		}
+		auto questionIdx = rest.find('?');
 		if (questionIdx != std::string::npos) {
-			_path = view.substr(idx, questionIdx - idx);
-
-			if (hashIdx == std::string::npos) {
-				_query = view.substr(++questionIdx);
-			} else {
-				++questionIdx;
-				_query = view.substr(questionIdx, hashIdx - questionIdx);
-				_fragment = view.substr(++hashIdx);
-			}
-		} else if (hashIdx != std::string::npos) {
-			_path = view.substr(idx, hashIdx - idx);
-			_fragment = view.substr(++hashIdx);
-		} else {
-			_path = view.substr(idx);
+			_query = rest.substr(questionIdx + 1);
+			rest = rest.substr(0, questionIdx);
 		}
+		_path = rest;
 	}
 }
 
-- 
2.43.0


From 15c0ab02c61cacada4decb3cb19bf331ffd4110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 14/89] fix: re-assigning, copying or moving URIs left stale
 views and validity behind

---
 src/fastgltf.cpp | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 64e3e7e..c6fca1f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -410,6 +410,7 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
@@ -420,6 +421,10 @@ fg::URIView& fg::URIView::operator=(std::string_view other) {
 }
 
 void fg::URIView::parse() {
+	// Forget the components of any previous URI.
+	_scheme = _path = _userinfo = _host = _port = _query = _fragment = {};
+	_valid = true;
+
 	if (view.empty()) {
 		_valid = false;
 		return;
@@ -567,7 +572,7 @@ fg::URI::URI(const URI& other) {
 }
 
 fg::URI::URI(URI&& other) noexcept {
-	*this = other;
+	*this = std::move(other);
 }
 
 fg::URI& fg::URI::operator=(const URI& other) {
@@ -592,20 +597,18 @@ fg::URI& fg::URI::operator=(const URIView& other) {
 }
 
 fg::URI& fg::URI::operator=(URI&& other) noexcept {
-	auto* oldData = other.uri.data();
+	if (this == std::addressof(other)) {
+		return *this;
+	}
+
 	uri = std::move(other.uri);
+	// The string might have been copied, so we always readjust the views.
+	readjustViews(other.view);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
+	// Invalidate the previous URI.
+	other.uri.clear();
+	other.view = URIView();
 	other.view._valid = false;
-
-	if (uri.data() != oldData) {
-		// Allocation changed, we need to readjust views
-		readjustViews(other.view);
-	} else {
-		// No reallocation happened, we can safely copy the view.
-		view = other.view;
-	}
 	return *this;
 }
 
@@ -614,13 +617,18 @@ fg::URI::operator fg::URIView() const noexcept {
 }
 
 void fg::URI::readjustViews(const URIView& other) {
-	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
-	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
-	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-	if (!other._host.empty())     { view._host       = std::string_view(uri.data() + (other._host.data()       - other.view.data()), other._host.size()); }
-	if (!other._port.empty())     { view._port       = std::string_view(uri.data() + (other._port.data()       - other.view.data()), other._port.size()); }
-	if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }
-	if (!other._fragment.empty()) { view._fragment   = std::string_view(uri.data() + (other._fragment.data()   - other.view.data()), other._fragment.size()); }
+	const auto* oldData = other.view.data();
+	const auto adjust = [&](std::string_view part) {
+		return part.empty() ? std::string_view() : std::string_view(uri.data() + (part.data() - oldData), part.size());
+	};
+	view._scheme   = adjust(other._scheme);
+	view._path     = adjust(other._path);
+	view._userinfo = adjust(other._userinfo);
+	view._host     = adjust(other._host);
+	view._port     = adjust(other._port);
+	view._query    = adjust(other._query);
+	view._fragment = adjust(other._fragment);
+	view._valid    = other._valid;
 
 	view.view = uri;
 }
-- 
2.43.0


From 23a69147492efb08e5c1989e1d47f32fb16e60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 15/89] fix: percent-decoding read past the end and decoded
 malformed sequences

---
 src/fastgltf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c6fca1f..ae0aa3b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -29,6 +29,7 @@
 #error "fastgltf requires C++17"
 #endif
 
+#include <cctype>
 #include <fstream>
 #include <functional>
 #include <mutex>
@@ -638,6 +639,10 @@ void fg::URI::decodePercents(std::string& x) noexcept {
 		if (x[i] != '%')
 			continue;
 
+		// Only a percent sign followed by two hexadecimal digits is an encoded character.
+		if (x.size() - i < 3 || !std::isxdigit(static_cast<unsigned char>(x[i + 1])) || !std::isxdigit(static_cast<unsigned char>(x[i + 2])))
+			continue;
+
 		// Read the next two chars and store them
 		std::array<char, 3> chars = {x[i + 1], x[i + 2]};
 		x[i] = static_cast<char>(std::strtoul(chars.data(), nullptr, 16));
-- 
2.43.0


From fe6492494fff5ed06e220e49068a4064fae55f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 16/89] fix: split URIs before percent-decoding them, so that
 encoded delimiters stay in their component

---
 include/fastgltf/types.hpp |  1 +
 src/fastgltf.cpp           | 58 ++++++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4649513..664a563 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1542,6 +1542,7 @@ namespace fastgltf {
 		URIView view;
 
 		void readjustViews(const URIView& other);
+		void parseAndDecode();
 
 	public:
 		explicit URI() noexcept;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ae0aa3b..1376a0f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -545,24 +545,15 @@ bool fg::URIView::isDataUri() const noexcept {
 fg::URI::URI() noexcept = default;
 
 fg::URI::URI(std::string uri) noexcept : uri(std::move(uri)) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+	parseAndDecode();
 }
 
 fg::URI::URI(std::string_view uri) noexcept : uri(uri) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+	parseAndDecode();
 }
 
 fg::URI::URI(const URIView& view) noexcept : uri(view.view) {
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(view);
-	} else {
-		// Reparses the URI string
-		this->view = this->uri;
-	}
+	parseAndDecode();
 }
 
 // Some C++ stdlib implementations copy in some cases when moving strings, which invalidates the
@@ -585,15 +576,7 @@ fg::URI& fg::URI::operator=(const URI& other) {
 
 fg::URI& fg::URI::operator=(const URIView& other) {
 	uri = other.view;
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(other);
-	} else {
-		// We removed some encoded chars, which have now invalidated all the string views.
-		// Therefore, the URI needs to be parsed again.
-		view = this->uri;
-	}
+	parseAndDecode();
 	return *this;
 }
 
@@ -634,6 +617,39 @@ void fg::URI::readjustViews(const URIView& other) {
 	view.view = uri;
 }
 
+// The URI has to be split before it is decoded, as an encoded delimiter is part of its component.
+void fg::URI::parseAndDecode() {
+	view = std::string_view(uri); // Also parses.
+	if (uri.find('%') == std::string::npos) {
+		return;
+	}
+
+	// Decode each component separately to find out where it ends up in the decoded string.
+	const URIView encoded(view);
+	const auto decoded = [](std::string_view part) {
+		std::string copy(part);
+		decodePercents(copy);
+		return copy;
+	};
+	constexpr std::array<std::string_view URIView::*, 7> components = {
+		&URIView::_scheme, &URIView::_path, &URIView::_userinfo, &URIView::_host, &URIView::_port, &URIView::_query, &URIView::_fragment,
+	};
+	std::array<std::pair<std::size_t, std::size_t>, components.size()> ranges = {};
+	for (std::size_t i = 0; i < components.size(); ++i) {
+		const auto part = encoded.*components[i];
+		if (!part.empty()) {
+			const auto offset = static_cast<std::size_t>(part.data() - encoded.view.data());
+			ranges[i] = { decoded(encoded.view.substr(0, offset)).size(), decoded(part).size() };
+		}
+	}
+
+	decodePercents(uri);
+	view.view = uri;
+	for (std::size_t i = 0; i < components.size(); ++i) {
+		view.*components[i] = view.view.substr(ranges[i].first, ranges[i].second);
+	}
+}
+
 void fg::URI::decodePercents(std::string& x) noexcept {
 	for (std::size_t i = 0; i < x.size(); ++i) {
 		if (x[i] != '%')
-- 
2.43.0


From 39fbc87d03bc25504632e057fc3ebc79dc2e6b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 17/89] fix: sse4_decode_inplace wrote up to three bytes past
 the end of the output

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..4bbad8f 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From cb5f83f15da298df63bf61fe059d3d6e277cf98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 18/89] fix: decoding an empty base64 string read out of bounds

---
 include/fastgltf/base64.hpp | 2 ++
 src/base64.cpp              | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/base64.hpp b/include/fastgltf/base64.hpp
index 06dec64..1532f71 100644
--- a/include/fastgltf/base64.hpp
+++ b/include/fastgltf/base64.hpp
@@ -49,6 +49,8 @@ namespace fastgltf::base64 {
      * 4 chars long.
      */
     FASTGLTF_EXPORT [[gnu::always_inline]] constexpr std::size_t getPadding(const std::string_view string) {
+        if (string.empty())
+            return 0;
         assert(string.size() >= 4 && string.size() % 4 == 0);
         const auto size = string.size();
         for (auto i = 1; i < 4; ++i)
diff --git a/src/base64.cpp b/src/base64.cpp
index 4bbad8f..67e81fb 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -394,7 +394,11 @@ void fg::base64::fallback_decode_inplace(std::string_view encoded, std::uint8_t*
 	std::array<std::uint8_t, blockSize> sixBitChars {};
 
 	const auto encodedSize = encoded.size();
-	for (auto pos = 0U; pos + 4 < encodedSize; pos += 4) {
+	if (encodedSize < blockSize) {
+		return;
+	}
+
+	for (std::size_t pos = 0; pos + 4 < encodedSize; pos += 4) {
 		std::memcpy(sixBitChars.data(), &encoded[pos], blockSize);
 
 		decode_block(sixBitChars, output);
-- 
2.43.0


From 83c1af8990a036e56382e9bd7140869cb46486ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 19/89] fix: base64 decoding read past its lookup table for
 non-ASCII characters

---
 src/base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 67e81fb..875e907 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -379,8 +379,8 @@ namespace fastgltf::base64 {
     template <typename Output>
 	FASTGLTF_FORCEINLINE void decode_block(std::array<std::uint8_t, 4>& sixBitChars, Output output) {
 		for (std::size_t i = 0; i < 4; i++) {
-			assert(static_cast<std::size_t>(sixBitChars[i]) < base64lut.size());
-			sixBitChars[i] = base64lut[sixBitChars[i]];
+			const auto index = static_cast<std::size_t>(sixBitChars[i]);
+			sixBitChars[i] = index < base64lut.size() ? base64lut[index] : std::uint8_t(0);
 		}
 
 		output[0] = (sixBitChars[0] << 2U) + ((sixBitChars[1] & 0x30U) >> 4U);
-- 
2.43.0


From 48f4cbe2fc0db9ab4e9e001ebb041a209c1886ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 20/89] fix: Accessor::updateBoundsToInclude started new bounds
 at zero instead of the first value

---
 include/fastgltf/types.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 664a563..affac4e 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2696,10 +2696,14 @@ namespace fastgltf {
 		 */
 		template <typename T, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(T value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(1);
-			if (!min)
+				max->set<T>(0, value);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(1);
+				min->set<T>(0, value);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == 1 && min->size() == 1);
@@ -2718,10 +2722,16 @@ namespace fastgltf {
 		 */
 		template <typename T, std::size_t N, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(math::vec<T, N> value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(value.size());
-			if (!min)
+				for (std::size_t i = 0; i < value.size(); ++i)
+					max->set<T>(i, value[i]);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(value.size());
+				for (std::size_t i = 0; i < value.size(); ++i)
+					min->set<T>(i, value[i]);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == value.size() && min->size() == value.size());
-- 
2.43.0


From e908f4b8ac65e8eb5b1f580eb49eebb5713ec42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 21/89] fix: move-assigning AccessorBoundsArray destroyed the
 buffer as the other array's type

---
 include/fastgltf/types.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index affac4e..0ceeed6 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1657,8 +1657,8 @@ namespace fastgltf {
 
 		auto& operator=(const AccessorBoundsArray& other) = delete;
 		auto& operator=(AccessorBoundsArray&& other) noexcept {
-			len = other.len;
-			dataType = other.dataType;
+			if (this == &other)
+				return *this;
 			switch (dataType) {
 				case BoundsType::int64:
 					std::destroy_at(&int64_buffer);
@@ -1669,6 +1669,8 @@ namespace fastgltf {
 				default:
 					FASTGLTF_UNREACHABLE
 			}
+			len = other.len;
+			dataType = other.dataType;
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
-- 
2.43.0


From 68f7233f62a17151d3310f949cdcfaf9843beb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 22/89] fix: reject optional properties that have the wrong
 JSON type instead of ignoring them

---
 src/fastgltf.cpp | 162 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 121 insertions(+), 41 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1376a0f..d0bf76e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -347,23 +347,29 @@ namespace fastgltf {
 		}
 
 		dom::object extensionsObject;
-		if (child["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto error = child["extensions"].get_object().get(extensionsObject); error == SUCCESS) FASTGLTF_LIKELY {
 			dom::object textureTransform;
-			if (hasBit(extensions, Extensions::KHR_texture_transform) && extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) == SUCCESS) FASTGLTF_LIKELY {
+			auto transformError = hasBit(extensions, Extensions::KHR_texture_transform)
+				? extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) : NO_SUCH_FIELD;
+			if (transformError == SUCCESS) FASTGLTF_LIKELY {
 				auto transform = std::make_unique<TextureTransform>();
 				transform->rotation = 0.0F;
 
-				if (textureTransform["texCoord"].get_uint64().get(index) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["texCoord"].get_uint64().get(index); error == SUCCESS) FASTGLTF_LIKELY {
 					transform->texCoordIndex = index;
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				double rotation = 0.0F;
-				if (textureTransform["rotation"].get_double().get(rotation) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["rotation"].get_double().get(rotation); error == SUCCESS) FASTGLTF_LIKELY {
 					transform->rotation = static_cast<num>(rotation);
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				dom::array array;
-				if (textureTransform["offset"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["offset"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -371,9 +377,11 @@ namespace fastgltf {
 						}
 						transform->uvOffset[i] = static_cast<num>(val);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
-				if (textureTransform["scale"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["scale"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -381,10 +389,16 @@ namespace fastgltf {
 						}
 						transform->uvScale[i] = static_cast<num>(val);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				info->transform = std::move(transform);
+			} else if (transformError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		return Error::None;
@@ -1509,13 +1523,17 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		info.gltfVersion = std::string { version };
 
 		std::string_view copyright;
-		if (assetInfo["copyright"].get_string().get(copyright) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto error = assetInfo["copyright"].get_string().get(copyright); error == SUCCESS) FASTGLTF_LIKELY {
 			info.copyright = std::string { copyright };
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidOrMissingAssetField;
 		}
 
 		std::string_view generator;
-		if (assetInfo["generator"].get_string().get(generator) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto error = assetInfo["generator"].get_string().get(generator); error == SUCCESS) FASTGLTF_LIKELY {
 			info.generator = std::string { generator };
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidOrMissingAssetField;
 		}
 
 		asset.assetInfo = std::move(info);
@@ -1685,8 +1703,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 
 
         std::uint64_t bufferView;
-        if (accessorObject["bufferView"].get_uint64().get(bufferView) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = accessorObject["bufferView"].get_uint64().get(bufferView); error == SUCCESS) FASTGLTF_LIKELY {
             accessor.bufferViewIndex = static_cast<std::size_t>(bufferView);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         // byteOffset is optional, but defaults to 0
@@ -1700,7 +1720,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		// Type of min and max should always be the same.
 		auto parseMinMax = [&](const std::string_view key, std::optional<AccessorBoundsArray>& ref) -> Error {
 			dom::array elements;
-			if (accessorObject[key].get_array().get(elements) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto error = accessorObject[key].get_array().get(elements); error == SUCCESS) FASTGLTF_LIKELY {
 				const auto num = getNumComponents(accessor.type);
 
 				if (accessor.componentType == ComponentType::Float || accessor.componentType == ComponentType::Double) {
@@ -1772,6 +1792,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 				if (idx < num) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
+			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 			return Error::None;
 		};
@@ -1793,7 +1815,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		}
 
         dom::object sparseAccessorObject;
-        if (accessorObject["sparse"].get_object().get(sparseAccessorObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = accessorObject["sparse"].get_object().get(sparseAccessorObject); error == SUCCESS) FASTGLTF_LIKELY {
             SparseAccessor sparse = {};
             std::uint64_t value;
             dom::object child;
@@ -1840,6 +1862,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             }
 
             accessor.sparse = sparse;
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -1852,8 +1876,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		}
 
 		std::string_view name;
-        if (accessorObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = accessorObject["name"].get_string().get(name); error == SUCCESS) {
 	        accessor.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(accessor.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 	    asset.accessors.emplace_back(std::move(accessor));
@@ -1955,8 +1981,10 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
             sampler.outputAccessor = static_cast<std::size_t>(output);
 
             std::string_view interpolation;
-            if (samplerObject["interpolation"].get_string().get(interpolation) != SUCCESS) FASTGLTF_UNLIKELY {
+            if (auto error = samplerObject["interpolation"].get_string().get(interpolation); error == NO_SUCH_FIELD) {
                 sampler.interpolation = AnimationInterpolation::Linear;
+            } else if (error != SUCCESS) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             } else {
                 if (interpolation == "LINEAR") {
                     sampler.interpolation = AnimationInterpolation::Linear;
@@ -1983,8 +2011,10 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
 
 
 		std::string_view name;
-        if (animationObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = animationObject["name"].get_string().get(name); error == SUCCESS) {
 	        animation.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(animation.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 	    asset.animations.emplace_back(std::move(animation));
@@ -2028,7 +2058,9 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
         // When parsing GLB, there's a buffer object that will point to the BUF chunk in the
         // file. Otherwise, data must be specified in the "uri" field.
         std::string_view uriString;
-        if (bufferObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto uriError = bufferObject["uri"].get_string().get(uriString); uriError != SUCCESS && uriError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
+        } else if (uriError == SUCCESS) FASTGLTF_LIKELY {
 			URIView uriView(uriString);
 
             if (!uriView.valid()) {
@@ -2079,8 +2111,10 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
 		}
 
 		std::string_view name;
-        if (bufferObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = bufferObject["name"].get_string().get(name); error == SUCCESS) {
 	        buffer.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(buffer.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         ++bufferIndex;
@@ -2138,9 +2172,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         dom::object extensionObject;
-        if (bufferViewObject["extensions"].get_object().get(extensionObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = bufferViewObject["extensions"].get_object().get(extensionObject); error == SUCCESS) FASTGLTF_LIKELY {
             dom::object meshoptCompression;
-            if (hasBit(config.extensions, Extensions::EXT_meshopt_compression) && extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) == SUCCESS) FASTGLTF_LIKELY {
+            auto meshoptError = hasBit(config.extensions, Extensions::EXT_meshopt_compression)
+                ? extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) : NO_SUCH_FIELD;
+            if (meshoptError == SUCCESS) FASTGLTF_LIKELY {
                 auto compression = std::make_unique<CompressedBufferView>();
 
                 if (auto error = meshoptCompression["buffer"].get_uint64().get(number); error != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2221,7 +2257,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
                 }
 
                 view.meshoptCompression = std::move(compression);
+            } else if (meshoptError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -2251,8 +2291,10 @@ fg::Error fg::Parser::parseCameras(simdjson::dom::array& cameras, Asset& asset)
         }
 
         std::string_view name;
-        if (cameraObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = cameraObject["name"].get_string().get(name); error == SUCCESS) {
 	        camera.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(camera.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::string_view type;
@@ -2469,7 +2511,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
         }
 
         std::string_view uriString;
-        if (imageObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = imageObject["uri"].get_string().get(uriString); error == SUCCESS) FASTGLTF_LIKELY {
             if (imageObject["bufferView"].error() == SUCCESS) FASTGLTF_LIKELY {
                 // If uri is declared, bufferView cannot be declared.
                 return Error::InvalidGltf;
@@ -2502,7 +2544,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
             }
 
             std::string_view mimeType;
-            if (imageObject["mimeType"].get_string().get(mimeType) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto error = imageObject["mimeType"].get_string().get(mimeType); error == SUCCESS) FASTGLTF_LIKELY {
                 std::visit([&](auto& arg) {
                     using T = std::decay_t<decltype(arg)>;
 
@@ -2511,11 +2553,15 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                         arg.mimeType = getMimeTypeFromString(mimeType);
                     }
                 }, image.data);
+            } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::uint64_t bufferViewIndex;
-        if (imageObject["bufferView"].get_uint64().get(bufferViewIndex) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = imageObject["bufferView"].get_uint64().get(bufferViewIndex); error == SUCCESS) FASTGLTF_LIKELY {
             std::string_view mimeType;
             if (imageObject["mimeType"].get_string().get(mimeType) != SUCCESS) FASTGLTF_UNLIKELY {
                 // If bufferView is defined, mimeType needs to also be defined.
@@ -2526,6 +2572,8 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                 static_cast<std::size_t>(bufferViewIndex),
                 getMimeTypeFromString(mimeType),
             };
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         if (std::holds_alternative<std::monostate>(image.data)) {
@@ -2543,8 +2591,10 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
 
 		// name is optional.
         std::string_view name;
-        if (imageObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = imageObject["name"].get_string().get(name); error == SUCCESS) {
 	        image.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(image.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.images.emplace_back(std::move(image));
@@ -2632,20 +2682,26 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
         }
 
         double intensity;
-        if (lightObject["intensity"].get_double().get(intensity) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = lightObject["intensity"].get_double().get(intensity); error == SUCCESS) FASTGLTF_LIKELY {
             light.intensity = static_cast<num>(intensity);
-        } else {
+        } else if (error == NO_SUCH_FIELD) {
             light.intensity = 1.0f;
+        } else {
+            return Error::InvalidGltf;
         }
 
         double range;
-        if (lightObject["range"].get_double().get(range) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = lightObject["range"].get_double().get(range); error == SUCCESS) FASTGLTF_LIKELY {
             light.range = static_cast<num>(range);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		std::string_view name;
-        if (lightObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = lightObject["name"].get_string().get(name); error == SUCCESS) {
 	        light.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(light.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.lights.emplace_back(std::move(light));
@@ -3319,11 +3375,11 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	    }
 
         dom::object pbrMetallicRoughness;
-        if (materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness); error == SUCCESS) FASTGLTF_LIKELY {
             PBRData pbr = {};
 
             dom::array baseColorFactor;
-            if (pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto error = pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -3331,6 +3387,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
                     }
                     pbr.baseColorFactor[i] = static_cast<num>(val);
                 }
+            } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
 
             double factor;
@@ -3359,6 +3417,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
             }
 
             material.pbrData = std::move(pbr);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::string_view alphaMode;
@@ -3391,8 +3451,10 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
         }
 
         std::string_view name;
-        if (materialObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = materialObject["name"].get_string().get(name); error == SUCCESS) {
 	        material.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(material.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
@@ -3535,7 +3597,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			}
 
 			dom::array targets;
-			if (primitiveObject["targets"].get_array().get(targets) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto error = primitiveObject["targets"].get_array().get(targets); error == SUCCESS) FASTGLTF_LIKELY {
 				primitive.targets = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(primitive.targets), resourceAllocator.get(), 0);
 				primitive.targets.reserve(targets.size());
 				for (auto targetValue : targets) {
@@ -3547,6 +3609,8 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 						return attributesError;
 					}
 				}
+			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 
 			std::uint64_t value;
@@ -3605,8 +3669,10 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 		}
 
 		std::string_view name;
-        if (meshObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = meshObject["name"].get_string().get(name); error == SUCCESS) {
 	        mesh.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(mesh.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.meshes.emplace_back(std::move(mesh));
@@ -3761,17 +3827,17 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         }
 
         dom::object extensionsObject;
-        if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = nodeObject["extensions"].get_object().get(extensionsObject); error == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
@@ -3839,6 +3905,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         			return Error::InvalidGltf;
         		}
         	}
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -3851,8 +3919,10 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 		}
 
         std::string_view name;
-        if (nodeObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = nodeObject["name"].get_string().get(name); error == SUCCESS) {
 	        node.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.nodes.emplace_back(std::move(node));
@@ -3905,8 +3975,10 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
 		}
 
 		std::string_view name;
-		if (samplerObject["name"].get_string().get(name) == SUCCESS) {
+		if (auto error = samplerObject["name"].get_string().get(name); error == SUCCESS) {
 			sampler.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(sampler.name), resourceAllocator.get(), name);
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		asset.samplers.emplace_back(std::move(sampler));
@@ -3928,8 +4000,10 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
         }
 
         std::string_view name;
-        if (sceneObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = sceneObject["name"].get_string().get(name); error == SUCCESS) {
 	        scene.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(scene.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
@@ -4011,8 +4085,10 @@ fg::Error fg::Parser::parseSkins(const simdjson::dom::array& skins, Asset& asset
 		}
 
 		std::string_view name;
-        if (skinObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = skinObject["name"].get_string().get(name); error == SUCCESS) {
 	        skin.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(skin.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
         asset.skins.emplace_back(std::move(skin));
     }
@@ -4066,8 +4142,10 @@ fg::Error fg::Parser::parseTextures(const simdjson::dom::array& textures, Asset&
 		}
 
 		std::string_view name;
-        if (textureObject["name"].get_string().get(name) == SUCCESS) {
+        if (auto error = textureObject["name"].get_string().get(name); error == SUCCESS) {
 			texture.name = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(texture.name), resourceAllocator.get(), name);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         asset.textures.emplace_back(std::move(texture));
@@ -4369,7 +4447,7 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 		}
 
 		dom::array limitsArray;
-		if (physicsJointValue["limits"].get_array().get(limitsArray) == SUCCESS) {
+		if (auto error = physicsJointValue["limits"].get_array().get(limitsArray); error == SUCCESS) {
 			physicsJoint.limits.reserve(limitsArray.size());
             for (auto limitValue : limitsArray) {
 				auto& limit = physicsJoint.limits.emplace_back();
@@ -4446,6 +4524,8 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 					return Error::InvalidGltf;
 				}
             }
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		dom::array driveArray;
-- 
2.43.0


From e77b48ec3c802a0cca9db6a2702ca2a7ff122ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 23/89] fix: node weights are read when they are present

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d0bf76e..5d07320 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3727,7 +3727,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
-- 
2.43.0


From 67d67e0f007aa227504a809a86209acb134fe36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:51 +0000
Subject: [PATCH 24/89] fix: scenes without nodes are part of the asset

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5d07320..3ca6ec6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4029,11 +4029,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
-
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From 61bd3fdae429deb4df6b17f140105d45c71d3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 25/89] fix: reject accessors with an unknown type or component
 type

---
 include/fastgltf/types.hpp | 37 +++++++++++--------------------------
 src/fastgltf.cpp           | 13 +++++++++++++
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 0ceeed6..183e923 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -447,32 +447,6 @@ namespace fastgltf {
         AccessorType::Mat4,
     };
 
-    /**
-     * Gets the AccessorType by its string representation found in glTF files.
-     */
-    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
-        assert(!accessorTypeName.empty());
-        switch (accessorTypeName[0]) {
-            case 'S': return AccessorType::Scalar;
-            case 'V': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 1 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 1];
-            }
-            case 'M': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 4 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 4];
-            }
-        	default:
-        		return AccessorType::Invalid;
-        }
-    }
-
 	static constexpr std::array<std::string_view, 7> accessorTypeNames = {
 		"SCALAR",
 		"VEC2",
@@ -483,6 +457,17 @@ namespace fastgltf {
 		"MAT4"
 	};
 
+    /**
+     * Gets the AccessorType by its string representation found in glTF files.
+     */
+    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
+        for (std::size_t i = 0; i < accessorTypeNames.size(); ++i) {
+            if (accessorTypeNames[i] == accessorTypeName)
+                return accessorTypes[i];
+        }
+        return AccessorType::Invalid;
+    }
+
 	constexpr std::string_view getAccessorTypeName(AccessorType type) noexcept {
     	static_assert(std::is_same_v<std::underlying_type_t<AccessorType>, std::uint8_t>);
 		if (type == AccessorType::Invalid)
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3ca6ec6..66c1db2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1684,7 +1684,13 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
+		if (componentType > (std::numeric_limits<std::underlying_type_t<ComponentType>>::max)()) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
+		if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
         if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
         }
@@ -1694,6 +1700,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             return Error::InvalidGltf;
         }
 		accessor.type = getAccessorType(accessorType);
+		if (accessor.type == AccessorType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 
         std::uint64_t accessorCount;
         if (accessorObject["count"].get_uint64().get(accessorCount) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -1843,6 +1852,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             if (child["componentType"].get_uint64().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
                 return Error::InvalidGltf;
             }
+            if (value != getGLComponentType(ComponentType::UnsignedByte) && value != getGLComponentType(ComponentType::UnsignedShort)
+                && value != getGLComponentType(ComponentType::UnsignedInt)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sparse.indexComponentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(value));
 
             // Accessor Sparse Values
-- 
2.43.0


From 6f2e6a6bd8e96e0512ab202c62b962d008e268ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 26/89] fix: KHR_accessor_float64 allows double accessors
 without the AllowDouble option

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 66c1db2..9a9d5e1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1691,7 +1691,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-        if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
+        if (accessor.componentType == ComponentType::Double && !hasBit(options, Options::AllowDouble) && !hasBit(config.extensions, Extensions::KHR_accessor_float64)) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
 
-- 
2.43.0


From 966a8cd178b7196f2b7ecfb32915be76d6aedfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 27/89] fix: reject colour factors and texture transforms with
 the wrong number of components

---
 src/fastgltf.cpp | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9a9d5e1..477f02d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -370,6 +370,9 @@ namespace fastgltf {
 
 				dom::array array;
 				if (auto error = textureTransform["offset"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -382,6 +385,9 @@ namespace fastgltf {
 				}
 
 				if (auto error = textureTransform["scale"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2973,11 +2979,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseTransmissionColorFactor;
 				if (auto error = diffuseTransmissionObject["diffuseTransmissionColorFactor"].get_array().get(diffuseTransmissionColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseTransmissionColorFactor.size() != diffuseTransmission->diffuseTransmissionColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: diffuseTransmissionColorFactor) {
-						if (i >= diffuseTransmission->diffuseTransmissionColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3012,11 +3018,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array sheenColorFactor;
 				if (auto error = sheenObject["sheenColorFactor"].get_array().get(sheenColorFactor); error ==
 																									SUCCESS) {
+					if (sheenColorFactor.size() != sheen->sheenColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: sheenColorFactor) {
-						if (i >= sheen->sheenColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3085,11 +3091,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array specularColorFactor;
 				if (auto error = specularObject["specularColorFactor"].get_array().get(specularColorFactor);
 						error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularColorFactor.size() != specular->specularColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: specularColorFactor) {
-						if (i >= specular->specularColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3190,11 +3196,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array attenuationColor;
 				if (auto error = volumeObject["attenuationColor"].get_array().get(attenuationColor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (attenuationColor.size() != volume->attenuationColor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : attenuationColor) {
-						if (i >= volume->attenuationColor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3268,11 +3274,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseFactor;
 				if (auto error = specularGlossinessObject["diffuseFactor"].get_array().get(diffuseFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseFactor.size() != specularGlossiness->diffuseFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : diffuseFactor) {
-						if (i >= specularGlossiness->diffuseFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3292,11 +3298,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array specularFactor;
 				if (auto error = specularGlossinessObject["specularFactor"].get_array().get(specularFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularFactor.size() != specularGlossiness->specularFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : specularFactor) {
-						if (i >= specularGlossiness->specularFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3393,6 +3399,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
             dom::array baseColorFactor;
             if (auto error = pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
+                if (baseColorFactor.size() != 4) FASTGLTF_UNLIKELY {
+                    return Error::InvalidGltf;
+                }
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From c8621fab5e740958e111321fb316c4619fa0f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 28/89] fix: reject unknown buffer view targets, primitive
 modes, filters and wrap modes

---
 src/fastgltf.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 477f02d..efc246e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2178,6 +2178,9 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         if (auto error = bufferViewObject["target"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (number != to_underlying(BufferTarget::ArrayBuffer) && number != to_underlying(BufferTarget::ElementArrayBuffer)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             view.target = static_cast<BufferTarget>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
@@ -3637,6 +3640,9 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > to_underlying(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
@@ -3956,6 +3962,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset& asset) {
     using namespace simdjson;
 
+    const auto isFilter = [](std::uint64_t value) {
+        return value == to_underlying(Filter::Nearest) || value == to_underlying(Filter::Linear)
+            || (value >= to_underlying(Filter::NearestMipMapNearest) && value <= to_underlying(Filter::LinearMipMapLinear));
+    };
+    const auto isWrap = [](std::uint64_t value) {
+        return value == to_underlying(Wrap::ClampToEdge) || value == to_underlying(Wrap::MirroredRepeat) || value == to_underlying(Wrap::Repeat);
+    };
+
     std::uint64_t number;
     asset.samplers.reserve(samplers.size());
     for (auto samplerValue : samplers) {
@@ -3966,22 +3980,34 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
         }
 
         if (auto error = samplerObject["magFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (number != to_underlying(Filter::Nearest) && number != to_underlying(Filter::Linear)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.magFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
         if (auto error = samplerObject["minFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.minFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
         if (auto error = samplerObject["wrapS"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapS = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
         if (auto error = samplerObject["wrapT"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapT = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
-- 
2.43.0


From f2f466e88c899d80830a415d9a708717979ef075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 29/89] fix: a texture info inherited the texture coordinate
 set of the one parsed before it

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index efc246e..509fa80 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3249,12 +3249,14 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->roughnessMetallicOcclusionTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "normalTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->normalTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
@@ -3435,6 +3437,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
                 return error;
             }
 
+            textureInfo = {};
             if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
                 pbr.metallicRoughnessTexture = std::move(textureInfo);
             } else if (error != Error::MissingField) {
-- 
2.43.0


From 3fa6354f0d0025ec0890f7575c3688f7b45ba37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 30/89] fix: errors in material extensions were ignored

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 509fa80..379fda8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3487,7 +3487,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) FASTGLTF_UNLIKELY {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From 25faff0f02056a5b7044b893f4d53d113fb8ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 31/89] fix: ignore unknown root members of any type and only
 report parsed categories

---
 src/fastgltf.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 379fda8..b473a3f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1599,15 +1599,17 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			continue;
 		}
 
+		// Members that aren't known are allowed to have any type.
 		dom::array array;
-		if (object.value.get_array().get(array) != SUCCESS) FASTGLTF_UNLIKELY {
-			return Error::InvalidGltf;
-		}
+		const auto arrayError = object.value.get_array().get(array);
 
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
-                if (hasBit(categories, Category::name))   \
-                    error = parse##name(array, asset);                     \
-                readCategories |= Category::name;         \
+                if (arrayError != SUCCESS) FASTGLTF_UNLIKELY  \
+                    return Error::InvalidGltf;            \
+                if (hasBit(categories, Category::name)) { \
+                    error = parse##name(array, asset);    \
+                    readCategories |= Category::name;     \
+                }                                         \
                 break;
 
 		Error error = Error::None;
@@ -1626,6 +1628,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			KEY_SWITCH_CASE(Skins, skins)
 			KEY_SWITCH_CASE(Textures, textures)
 			case force_consteval<crc32c("extensionsUsed")>: {
+				if (arrayError != SUCCESS) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				for (auto usedValue : array) {
 					std::string_view usedString;
 					if (auto eError = usedValue.get_string().get(usedString); eError == SUCCESS) FASTGLTF_LIKELY {
@@ -1639,6 +1644,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			}
 			case force_consteval<crc32c("extensionsRequired")>: {
 				// These are already parsed before this section.
+				if (arrayError != SUCCESS) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				break;
 			}
 			default:
-- 
2.43.0


From 1386c446de5f5c0978948b692ed1f064ef3a957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 32/89] fix: a material variant index could make the mappings
 of a primitive arbitrarily large

---
 include/fastgltf/core.hpp | 3 +++
 src/fastgltf.cpp          | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index f8b29a4..3f66abc 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -837,6 +837,9 @@ namespace fastgltf {
 		std::filesystem::path directory;
 		Options options = Options::None;
 
+		// The number of variants which KHR_materials_variants defines in the document that is being parsed.
+		std::size_t variantCount = 0;
+
 		static auto getMimeTypeFromString(std::string_view mime) -> MimeType;
 		static void fillCategories(Category& inputCategories) noexcept;
 
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b473a3f..40e65fa 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1572,6 +1572,12 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 	}
 
+	// The primitives may only use variants which exist, but the meshes can come before the list of variants.
+	variantCount = 0;
+	if (dom::array variants; root["extensions"][extensions::KHR_materials_variants]["variants"].get_array().get(variants) == SUCCESS) {
+		variantCount = variants.size();
+	}
+
 	Category readCategories = Category::None;
 	for (const auto object : root) {
 		auto hashedKey = crcStringFunction(object.key);
@@ -3553,7 +3559,7 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 					}
 					for (auto variant : variantsArray) {
 						std::uint64_t variantIndex;
-						if (variant.get_uint64().get(variantIndex) != SUCCESS) FASTGLTF_UNLIKELY {
+						if (variant.get_uint64().get(variantIndex) != SUCCESS || variantIndex >= variantCount) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
 						}
 
-- 
2.43.0


From 62a03b1843dbefb39825c62c46c994383c206ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 33/89] fix: compare the type of a light with its length

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 40e65fa..5a669c1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2652,7 +2652,7 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
 
         std::string_view type;
         if (lightObject["type"].get_string().get(type) == SUCCESS) FASTGLTF_LIKELY {
-            switch (crcStringFunction(type.data())) {
+            switch (crcStringFunction(type)) {
                 case force_consteval<crc32c("directional")>: {
                     light.type = LightType::Directional;
                     break;
-- 
2.43.0


From c1bbaac1dc7b337f287d2259d1d423893328d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 34/89] fix: reading the major version of an empty version
 string

---
 src/fastgltf.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5a669c1..6935785 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1521,9 +1521,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
-		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
-		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
-		if (major != 2U) {
+		const auto major = version.substr(0, version.find('.'));
+		if (major != "2") {
 			return Error::UnsupportedVersion;
 		}
 		info.gltfVersion = std::string { version };
-- 
2.43.0


From 96930c6cb6cc0d9bc4d96eeea74a31042af62ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 35/89] fix: KHR_physics_rigid_bodies calls the property
 inertiaOrientation

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6935785..62cf95e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4773,7 +4773,7 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 		}
 
 		dom::array inertialOrientationArray;
-		if (error = motionObject["inertialOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
+		if (error = motionObject["inertiaOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
 			if (inertialOrientationArray.size() != 4) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
-- 
2.43.0


From 245ed8a6ab7880ed10cf9d44434c500852f7fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 36/89] fix: compare the whole name of combine modes, drive
 types and drive modes

---
 include/fastgltf/types.hpp | 28 +++++++++++-----------------
 src/fastgltf.cpp           |  6 ++++++
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 183e923..93e740c 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -507,23 +507,17 @@ namespace fastgltf {
 
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 	[[nodiscard]] constexpr auto getCombineMode(const std::string_view name) noexcept {
-		assert(!name.empty());
-	    if(name[0] == 'a') {
+		if (name == "average") {
 			return CombineMode::Average;
-	    }
-
-		switch(name[1]) {
-	    case 'i':
+		} else if (name == "minimum") {
 			return CombineMode::Minimum;
-
-	    case 'a':
+		} else if (name == "maximum") {
 			return CombineMode::Maximum;
-
-	    case 'u':
+		} else if (name == "multiply") {
 			return CombineMode::Multiply;
+		} else {
+			return CombineMode::Invalid;
 		}
-
-		return CombineMode::Invalid;
 	}
 
 	static constexpr std::array<std::string_view, 4> frictionCombineNames{
@@ -540,9 +534,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveType(const std::string_view name) noexcept {
-		if (name[0] == 'l') {
+		if (name == "linear") {
 			return DriveType::Linear;
-		} else if (name[0] == 'a') {
+		} else if (name == "angular") {
 			return DriveType::Angular;
 		} else {
 			return DriveType::Invalid;
@@ -550,9 +544,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveMode(const std::string_view name) noexcept {
-	    if (name[0] == 'f') {
-			return DriveMode::Force;
-	    } else if (name[0] == 'a') {
+	        if (name == "force") {
+	            return DriveMode::Force;
+	        } else if (name == "acceleration") {
 			return DriveMode::Acceleration;
 	    } else {
 			return DriveMode::Invalid;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 62cf95e..b4a6677 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4401,6 +4401,9 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view frictionCombine;
 		if (auto error = materialObject["frictionCombine"].get_string().get(frictionCombine); error == SUCCESS) {
 			material.frictionCombine = getCombineMode(frictionCombine);
+			if (material.frictionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
@@ -4408,6 +4411,9 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view restitutionCombine;
 		if (auto error = materialObject["restitutionCombine"].get_string().get(restitutionCombine); error == SUCCESS) {
 		   material.restitutionCombine = getCombineMode(restitutionCombine);
+		   if (material.restitutionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+		       return Error::InvalidGltf;
+		   }
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-- 
2.43.0


From 7833ebd5a950d85fbf531b4a16773939f1069387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 37/89] fix: uninitialised defaults of texture transforms,
 physics materials, geometries and joint drives

---
 include/fastgltf/types.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 93e740c..e15f8cf 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2054,7 +2054,7 @@ namespace fastgltf {
         /**
          * Flag to indicate that the geometry should be a convex hull.
          */
-        bool convexHull;
+        bool convexHull = false;
 	};
 
 	FASTGLTF_EXPORT struct PhysicsMaterial {
@@ -2064,9 +2064,9 @@ namespace fastgltf {
 
 		num restitution = 0.0f;
 
-		CombineMode frictionCombine;
+		CombineMode frictionCombine = CombineMode::Average;
 
-		CombineMode restitutionCombine;
+		CombineMode restitutionCombine = CombineMode::Average;
 	};
 
 	FASTGLTF_EXPORT struct CollisionFilter {
@@ -2174,17 +2174,17 @@ namespace fastgltf {
         /**
          * The maximum force that the drive can apply
          */
-        num maxForce;
+        num maxForce = (std::numeric_limits<num>::max)();
 
         /**
          * The desired relative target between the pivot axes
          */
-        num positionTarget;
+        num positionTarget = 0;
 
         /**
          * The desired relative velocity of the pivot axes
          */
-        num velocityTarget;
+        num velocityTarget = 0;
 
         /**
          * The drive's stiffness, used to achieve the position target
@@ -2367,7 +2367,7 @@ namespace fastgltf {
         /**
          * Rotate the UVs by this many radians counter-clockwise around the origin. This is equivalent to a similar rotation of the image clockwise.
          */
-        num rotation;
+        num rotation = 0;
 
 		/**
 		 * The offset of the UV coordinate origin as a factor of the texture dimensions.
-- 
2.43.0


From c0fa083e6c0befa14669a1f9f5cc67ae1b7cbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 38/89] fix: the type of an implicit shape decides about its
 geometry

---
 src/fastgltf.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b4a6677..64867fc 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4238,6 +4238,19 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 			return Error::InvalidGltf;
 		}
 
+		// The type decides about the shape, also when all of its properties have their default value.
+		if (shapeTypeName == "sphere") {
+			shape = SphereShape {};
+		} else if (shapeTypeName == "box") {
+			shape = BoxShape {};
+		} else if (shapeTypeName == "capsule") {
+			shape = CapsuleShape {};
+		} else if (shapeTypeName == "cylinder") {
+			shape = CylinderShape {};
+		} else {
+			return Error::InvalidGltf;
+		}
+
 		dom::object sphereObject;
 		if (auto error = shapeObject["sphere"].get_object().get(sphereObject); error == SUCCESS) {
 			if (shapeTypeName != "sphere") FASTGLTF_UNLIKELY {
-- 
2.43.0


From 068e259a65260143308849e368b2982bb7de792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 39/89] fix: implicit shapes and physics objects ignored the
 category selection

---
 include/fastgltf/core.hpp |  2 +-
 src/fastgltf.cpp          | 40 +++++++++++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index 3f66abc..52ebbf4 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -859,7 +859,7 @@ namespace fastgltf {
 		Error parseBuffers(simdjson::dom::array& array, Asset& asset);
 		Error parseBufferViews(const simdjson::dom::array& array, Asset& asset);
 		Error parseCameras(simdjson::dom::array& array, Asset& asset);
-		Error parseExtensions(const simdjson::dom::object& extensionsObject, Asset& asset);
+		Error parseExtensions(const simdjson::dom::object& extensionsObject, Asset& asset, Category categories, Category& readCategories);
 		Error parseImages(simdjson::dom::array& array, Asset& asset);
 		Error parseLights(const simdjson::dom::array& array, Asset& asset);
 		Error parseMaterialExtensions(simdjson::dom::object& object, Material& material);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 64867fc..c52f655 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -775,6 +775,14 @@ void fg::Parser::fillCategories(Category& inputCategories) noexcept {
     // parsed could still be set. So, this has to exist...
     if (hasBit(inputCategories, Category::Scenes))
         inputCategories |= Category::Nodes;
+#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
+    if (hasBit(inputCategories, Category::Nodes) || hasBit(inputCategories, Category::Skins))
+        inputCategories |= Category::Shapes;
+#endif
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+    if (hasBit(inputCategories, Category::Nodes) || hasBit(inputCategories, Category::Skins))
+        inputCategories |= Category::PhysicsMaterials | Category::CollisionFilters | Category::PhysicsJoints;
+#endif
     if (hasBit(inputCategories, Category::Nodes))
         inputCategories |= Category::Cameras | Category::Meshes | Category::Skins;
     if (hasBit(inputCategories, Category::Skins))
@@ -1595,7 +1603,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 				return Error::InvalidGltf;
 			}
 
-			if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
+			if (auto error = parseExtensions(extensionsObject, asset, categories, readCategories); error != Error::None)
 				return error;
 			continue;
 		}
@@ -2422,7 +2430,7 @@ fg::Error fg::Parser::parseCameras(simdjson::dom::array& cameras, Asset& asset)
 	return Error::None;
 }
 
-fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObject, Asset& asset) {
+fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObject, Asset& asset, Category categories, Category& readCategories) {
     using namespace simdjson;
 
     for (auto extensionValue : extensionsObject) {
@@ -2481,8 +2489,11 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 
 				dom::array shapesArray;
 				if (auto arrayError = extensionObject["shapes"].get_array().get(shapesArray); arrayError == SUCCESS) FASTGLTF_LIKELY {
-					if (auto shapesError = parseShapes(shapesArray, asset); shapesError != Error::None) FASTGLTF_UNLIKELY {
-						return shapesError;
+					if (hasBit(categories, Category::Shapes)) {
+						if (auto shapesError = parseShapes(shapesArray, asset); shapesError != Error::None) FASTGLTF_UNLIKELY {
+							return shapesError;
+						}
+						readCategories |= Category::Shapes;
 					}
 				} else {
 					return Error::InvalidGltf;
@@ -2498,8 +2509,11 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 
 				dom::array materialsArray;
 				if (auto arrayError = extensionObject["physicsMaterials"].get_array().get(materialsArray); arrayError == SUCCESS) {
-					if (auto materialsError = parsePhysicsMaterials(materialsArray, asset); materialsError != Error::None) FASTGLTF_UNLIKELY {
-						return materialsError;
+					if (hasBit(categories, Category::PhysicsMaterials)) {
+						if (auto materialsError = parsePhysicsMaterials(materialsArray, asset); materialsError != Error::None) FASTGLTF_UNLIKELY {
+							return materialsError;
+						}
+						readCategories |= Category::PhysicsMaterials;
 					}
 				} else if (arrayError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
@@ -2507,8 +2521,11 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 
 				dom::array filtersArray;
 				if (auto arrayError = extensionObject["collisionFilters"].get_array().get(filtersArray); arrayError == SUCCESS) {
-					if (auto filtersError = parseCollisionFilters(filtersArray, asset); filtersError != Error::None) FASTGLTF_UNLIKELY {
-						return filtersError;
+					if (hasBit(categories, Category::CollisionFilters)) {
+						if (auto filtersError = parseCollisionFilters(filtersArray, asset); filtersError != Error::None) FASTGLTF_UNLIKELY {
+							return filtersError;
+						}
+						readCategories |= Category::CollisionFilters;
 					}
 				} else if (arrayError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
@@ -2516,8 +2533,11 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
 
 				dom::array jointsArray;
 				if (auto arrayError = extensionObject["physicsJoints"].get_array().get(jointsArray); arrayError == SUCCESS) {
-					if (auto jointsError = parsePhysicsJoints(jointsArray, asset); jointsError != Error::None) FASTGLTF_UNLIKELY {
-						return jointsError;
+					if (hasBit(categories, Category::PhysicsJoints)) {
+						if (auto jointsError = parsePhysicsJoints(jointsArray, asset); jointsError != Error::None) FASTGLTF_UNLIKELY {
+							return jointsError;
+						}
+						readCategories |= Category::PhysicsJoints;
 					}
 				} else if (arrayError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
-- 
2.43.0


From dd782c09925283b8aecc36ba4bc38024748f8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 40/89] fix: reject node matrices and diffuse transmission
 colours of the wrong type

---
 src/fastgltf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c52f655..7bca0c4 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3026,6 +3026,8 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						diffuseTransmission->diffuseTransmissionColorFactor[i++] = static_cast<num>(value);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				TextureInfo diffuseTransmissionColorTexture;
@@ -3890,6 +3892,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
             }
 
             node.transform = trs;
+        } else {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
-- 
2.43.0


From 5089e38ea608f376b37f872eab318a42cf54ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 41/89] fix: escape every character of a string that JSON
 requires to be escaped

---
 src/fastgltf.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7bca0c4..d1ef14c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5254,26 +5254,32 @@ void fg::prettyPrintJson(std::string& json) {
 
 namespace fastgltf {
 	static void escapeString(std::string& string) {
-		std::size_t i = 0;
-		do {
-			switch (string[i]) {
+		for (std::size_t i = 0; i < string.size(); ++i) {
+			switch (const auto c = string[i]; c) {
 				case '\"': {
 					constexpr std::string_view s = "\\\"";
 					string.replace(i, 1, s);
-					i += s.size();
+					i += s.size() - 1;
 					break;
 				}
 				case '\\': {
 					constexpr std::string_view s = "\\\\";
 					string.replace(i, 1, s);
-					i += s.size();
+					i += s.size() - 1;
 					break;
 				}
-				default:
+				default: {
+					// Control characters may not appear in JSON strings.
+					if (static_cast<unsigned char>(c) < 0x20U) {
+						constexpr std::string_view hex = "0123456789abcdef";
+						const char s[] = { '\\', 'u', '0', '0', hex[static_cast<unsigned char>(c) >> 4U], hex[static_cast<unsigned char>(c) & 0xFU] };
+						string.replace(i, 1, s, sizeof s);
+						i += sizeof s - 1;
+					}
 					break;
+				}
 			}
-			++i;
-		} while (i < string.size());
+		}
 	}
 
 	/**
-- 
2.43.0


From 0fea77ef0e2df82c114754d8a75f0dbc70cdf6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 42/89] fix: prettyPrintJson misjudged where strings end

---
 src/fastgltf.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d1ef14c..e8a16e5 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5221,13 +5221,13 @@ void fg::prettyPrintJson(std::string& json) {
     while (i < json.size()) {
         if (json[i] == '"') {
             // Skip to the end of the string
-            do {
-                ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
-                    break;
+            for (++i; i < json.size() && json[i] != '"'; ++i) {
+                if (json[i] == '\\') {
+                    ++i; // Skip over the escaped character
                 }
-            } while (true);
+            }
             ++i; // Skip over the last "
+            continue;
         }
 
         switch (json[i]) {
-- 
2.43.0


From d5556e900b043f9acaaa68b16c290582b3edf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 43/89] fix: escape attribute, variant, extension and collision
 system names and the version when exporting

---
 src/fastgltf.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e8a16e5..0373a52 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6266,7 +6266,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6287,7 +6287,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6326,7 +6326,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6484,7 +6484,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
@@ -6946,7 +6946,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -6963,7 +6963,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -6980,7 +6980,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7170,7 +7170,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7229,7 +7229,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7241,7 +7241,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7251,7 +7251,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From fb72008d6563c3bb3fea964862b798570ba0ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 44/89] fix: the cone angles of spot lights were written
 outside of the spot object and without separators

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0373a52..b0fb253 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5847,11 +5847,15 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From d71865e230c739e8ea2f28305f06da805732a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 45/89] fix: missing separators between the textures of
 MSFT_packing_occlusionRoughnessMetallic

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b0fb253..ad23ee5 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6219,10 +6219,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From 18c68b122bdbf7ccfcbcfa79e0887475cb57f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 46/89] fix: exporting a texture that only has a name wrote a
 stray comma

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ad23ee5..9ed1663 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6802,8 +6802,10 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{') json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From 4b202d9d670438226a41341a58168e448493a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 47/89] fix: exported rigid bodies used wrong names and were
 not valid JSON

---
 src/fastgltf.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9ed1663..6bd5caf 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6505,23 +6505,23 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)" + std::string(motion.isKinematic ? "true" : "false");
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
-						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
+						json += R"(,"inertiaOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6533,10 +6533,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							json += R"("geometry":{)";
 							if (geometry.geometry.shape.has_value()) {
 								json += R"("shape":)" + std::to_string(*geometry.geometry.shape) + ',';
-							} else if(geometry.geometry.node.has_value()) {
+							}
+							if (geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)" + std::string(geometry.geometry.convexHull ? "true" : "false") + '}';
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6560,7 +6561,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + std::string(joint.enableCollision ? "true" : "false") + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6571,10 +6572,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					json += R"("geometry":{)";
 					if (collider.geometry.shape.has_value()) {
 						json += R"("shape":)" + std::to_string(*collider.geometry.shape) + ',';
-					} else if (collider.geometry.node.has_value()) {
+					}
+					if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)" + std::string(collider.geometry.convexHull ? "true" : "false") + '}';
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6584,6 +6586,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From b1f7693005e310883eb145ef64c35e4691e9a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 48/89] fix: exported collision filters had stray commas and
 asked for the extras of shapes

---
 src/fastgltf.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6bd5caf..5d9667c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6966,11 +6966,9 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
 
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() != '{') json += ',';
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6983,11 +6981,9 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
 
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() != '{') json += ',';
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -7002,7 +6998,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From f9163e33d6a8fd379492b7449b23ef518d1e3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 49/89] fix: an export reported the error of an earlier one

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5d9667c..88335bb 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7292,6 +7292,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const Asset& asset, ExportOptions _options) {
     bufferPaths.clear();
     imagePaths.clear();
+    errorCode = Error::None;
     options = _options;
 	exportingBinary = false;
 
@@ -7317,6 +7318,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
 fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
     bufferPaths.clear();
     imagePaths.clear();
+    errorCode = Error::None;
     options = _options;
 	exportingBinary = true;
 
-- 
2.43.0


From c44485fc6a556c55f9334bc593478f1af8eed69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 50/89] fix: binary exports ignored
 ExportOptions::ValidateAsset

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 88335bb..83f1641 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7324,6 +7324,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
-- 
2.43.0


From b1a1ea0e1cbaf11d11bbf13191a95229f5d7f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 51/89] fix: exporting variant mappings read as many elements
 as the asset has variants

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 83f1641..85f1199 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6315,7 +6315,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From c55d107b466d25e318ecfbf279f17767498df6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 52/89] fix: an exported image lost its media type when it
 refers to a URI

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 85f1199..dba6b85 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5784,6 +5784,9 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From 48f85cb1066a3fac40030c9baaecb39f8a7ac116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 53/89] fix: export images that are held as a view of bytes

---
 src/fastgltf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index dba6b85..7a76fb7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5782,6 +5782,14 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				}
 				imagePaths.emplace_back(path);
 			},
+			[&](const sources::ByteView& view) {
+				auto path = getImageFilePath(asset, imageIdx, view.mimeType);
+				json += std::string(R"("uri":")") + fg::normalizeAndFormatPath(path) + '"';
+				if (view.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(view.mimeType)) + '"';
+				}
+				imagePaths.emplace_back(path);
+			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
 				if (uri.mimeType != MimeType::None) {
-- 
2.43.0


From d1667111ef77c7113b7d1f3844ce01ffc702cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 54/89] fix: the alpha cutoff of a material was lost when its
 alpha mode is not MASK

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7a76fb7..417d04c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5945,17 +5945,19 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 			json += "],";
 		}
 
-		if (it->alphaMode != AlphaMode::Opaque) {
+		if (it->alphaMode != AlphaMode::Opaque || it->alphaCutoff != 0.5f) {
 			if (json.back() != ',') json += ',';
 			json += R"("alphaMode":)";
 			if (it->alphaMode == AlphaMode::Blend) {
 				json += "\"BLEND\"";
 			} else if (it->alphaMode == AlphaMode::Mask) {
 				json += "\"MASK\"";
+			} else {
+				json += "\"OPAQUE\"";
 			}
 		}
 
-		if (it->alphaMode == AlphaMode::Mask && it->alphaCutoff != 0.5f) {
+		if (it->alphaCutoff != 0.5f) {
 			if (json.back() != ',') json += ',';
 			json += R"("alphaCutoff":)" + to_string_fp(it->alphaCutoff);
 		}
-- 
2.43.0


From b177846121438992cef3259ab7fa1613185d5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 55/89] fix: an exported mesh without primitives could not be
 read back

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 417d04c..fc81a41 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6276,7 +6276,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 	for (auto it = asset.meshes.begin(); it != asset.meshes.end(); ++it) {
 		json += '{';
 
-        if (!it->primitives.empty()) {
+        {
             json += R"("primitives":[)";
             auto itp = it->primitives.begin();
             while (itp != it->primitives.end()) {
-- 
2.43.0


From d63fa54a5d74b91a30da99acb97a941d04eb7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 56/89] fix: exported URIs of files were not percent-encoded

---
 include/fastgltf/core.hpp |  1 +
 src/fastgltf.cpp          | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index 52ebbf4..4d4e998 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -1014,6 +1014,7 @@ namespace fastgltf {
 #endif
         void writeExtensions(const Asset& asset, std::string& json);
 
+        std::filesystem::path getUniquePath(const Asset& asset, const std::filesystem::path& folder, std::string name, std::string_view extension) const;
         std::filesystem::path getBufferFilePath(const Asset& asset, std::size_t index);
         std::filesystem::path getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType);
 
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index fc81a41..d9e33ec 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5284,12 +5284,24 @@ namespace fastgltf {
 
 	/**
 	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
-	 * and escapes any necessary characters.
+	 * and percent-encodes every ASCII character that may not appear in the path of a URI.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		auto string = path.lexically_normal().generic_string();
-		escapeString(string);
-		return string;
+		constexpr std::string_view allowed = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=@/";
+		constexpr std::string_view hex = "0123456789ABCDEF";
+
+		std::string uri;
+		for (const auto c : path.lexically_normal().generic_string()) {
+			const auto byte = static_cast<unsigned char>(c);
+			if (byte >= 0x80U || allowed.find(c) != std::string_view::npos) {
+				uri += c;
+			} else {
+				uri += '%';
+				uri += hex[byte >> 4U];
+				uri += hex[byte & 0xFU];
+			}
+		}
+		return uri;
 	}
 
 	// replacement for std::to_string that uses simdjson's grisu2 implementation, which is
-- 
2.43.0


From 28424dbceea5900510f18772fd13bedfa7973d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 57/89] fix: the names of buffers and images could make
 exported files overwrite each other or leave the export folder

---
 src/fastgltf.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d9e33ec..69fe7aa 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7210,12 +7210,39 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
     json += '}';
 }
 
+fs::path fg::Exporter::getUniquePath(const Asset& asset, const fs::path& folder, std::string name, std::string_view extension) const {
+	// The name has to be a single path component.
+	for (auto& c : name) {
+		if (c == '/' || c == '\\' || static_cast<unsigned char>(c) < 0x20U)
+			c = '_';
+	}
+
+	const auto isUsed = [&](const fs::path& path) {
+		const auto normal = path.lexically_normal();
+		const auto isSame = [&](const std::optional<fs::path>& other) {
+			return other.has_value() && other->lexically_normal() == normal;
+		};
+		const auto isSource = [&](const auto& object) {
+			const auto* source = std::get_if<sources::URI>(&object.data);
+			return source != nullptr && fs::path(std::string(source->uri.path())).lexically_normal() == normal;
+		};
+		return std::any_of(bufferPaths.begin(), bufferPaths.end(), isSame) || std::any_of(imagePaths.begin(), imagePaths.end(), isSame)
+			|| std::any_of(asset.buffers.begin(), asset.buffers.end(), isSource) || std::any_of(asset.images.begin(), asset.images.end(), isSource);
+	};
+
+	auto path = folder / (name + std::string(extension));
+	for (std::size_t i = 1; isUsed(path); ++i) {
+		path = folder / (name + '_' + std::to_string(i) + std::string(extension));
+	}
+	return path;
+}
+
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
     const auto& bufferName = asset.buffers[index].name;
     if (bufferName.empty()) {
-        return bufferFolder / ("buffer" + std::to_string(index) + ".bin");
+        return getUniquePath(asset, bufferFolder, "buffer" + std::to_string(index), ".bin");
     }
-	return bufferFolder / (bufferName + ".bin");
+	return getUniquePath(asset, bufferFolder, std::string(bufferName), ".bin");
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7243,9 +7270,9 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 
     const auto& imageName = asset.images[index].name;
 	if (imageName.empty()) {
-		return imageFolder / ("image" + std::to_string(index) + std::string(extension));
+		return getUniquePath(asset, imageFolder, "image" + std::to_string(index), extension);
 	}
-	return imageFolder / (std::string(imageName) + std::string(extension));
+	return getUniquePath(asset, imageFolder, std::string(imageName), extension);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
-- 
2.43.0


From fe2ac4493e503bb0e3970a65667b6bc1701a4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 58/89] fix: the file exporter refused targets in the current
 directory and in more than one missing directory

---
 src/fastgltf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 69fe7aa..8404359 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7475,9 +7475,9 @@ namespace fastgltf {
 	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
 		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
 		auto finalPath = (baseFolder / filePath).lexically_normal();
-		if (std::error_code ec; !fs::exists(finalPath.parent_path(), ec) || ec) {
+		if (std::error_code ec; finalPath.has_parent_path() && (!fs::exists(finalPath.parent_path(), ec) || ec)) {
 			// If the parent folder of the destination file does not exist, we'll create it.
-			fs::create_directory(finalPath.parent_path(), ec);
+			fs::create_directories(finalPath.parent_path(), ec);
 			if (ec) {
 				return false;
 			}
@@ -7539,8 +7539,8 @@ namespace fastgltf {
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
+	if (std::error_code ec; target.has_parent_path() && (!fs::exists(target.parent_path(), ec) || ec)) {
+		fs::create_directories(target.parent_path(), ec);
 		if (ec) {
 			return Error::InvalidPath;
 		}
@@ -7568,8 +7568,8 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
+	if (std::error_code ec; target.has_parent_path() && (!fs::exists(target.parent_path(), ec) || ec)) {
+		fs::create_directories(target.parent_path(), ec);
 		if (ec) {
 			return Error::InvalidPath;
 		}
-- 
2.43.0


From 6596a21965874a52b8c020a0638add032a733c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 59/89] fix: failures to write the exported document were not
 reported

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8404359..628506f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7560,6 +7560,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 
     file << result.output;
     file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
@@ -7589,6 +7592,10 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 
     file.write(reinterpret_cast<const char*>(result.output.data()),
                static_cast<std::streamsize>(result.output.size()));
+    file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
-- 
2.43.0


From 9cdd27cf9abcb17209821d6fdd304827eb628208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:24 +0000
Subject: [PATCH 60/89] fix: writing a GLB read past the end of a first buffer
 that is shorter than its byteLength

---
 src/fastgltf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 628506f..b830229 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7397,6 +7397,18 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
 			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
 
+    if (withEmbeddedBuffer) {
+        const auto embeddedSize = std::visit(visitor {
+            [](const auto&) -> std::size_t { return 0; },
+            [](const sources::Array& vector) -> std::size_t { return vector.bytes.size(); },
+            [](const sources::Vector& vector) -> std::size_t { return vector.bytes.size(); },
+            [](const sources::ByteView& byteView) -> std::size_t { return byteView.bytes.size(); },
+        }, asset.buffers.front().data);
+        if (embeddedSize < asset.buffers.front().byteLength) {
+            return Error::InvalidGltf;
+        }
+    }
+
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
     binarySize += sizeof(BinaryGltfChunk) + alignUp(json.size(), 4); // JSON chunk
-- 
2.43.0


From e4c70f99b80ed8b33fc09a4a96bb6fc701774579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 61/89] fix: validate() used the indices of sparse views and
 animation samplers without checking them

---
 src/fastgltf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b830229..db7e8bf 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1048,6 +1048,10 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 
 		if (accessor.sparse) {
+			if (accessor.sparse->indicesBufferView >= asset.bufferViews.size() ||
+			    accessor.sparse->valuesBufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			const auto& indicesView = asset.bufferViews[accessor.sparse->indicesBufferView];
 			if (indicesView.byteStride || indicesView.target)
 				return Error::InvalidGltf;
@@ -1074,7 +1078,13 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
+		for (const auto& sampler : animation.samplers) {
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 		for (const auto& channel : animation.channels) {
+			if (channel.samplerIndex >= animation.samplers.size())
+				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
 
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
-- 
2.43.0


From 218fb1727132525e308c31551d9a917b486d167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 62/89] fix: validate() only checked the alignment of accessors
 that have a byte offset

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index db7e8bf..42e1355 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1010,7 +1010,7 @@ fg::Error fg::validate(const Asset& asset) {
 		if (accessor.bufferViewIndex.has_value() &&
 		    accessor.bufferViewIndex.value() >= asset.bufferViews.size())
 			return Error::InvalidGltf;
-		if (accessor.byteOffset != 0) {
+		{
 			// The offset of an accessor into a bufferView (i.e., accessor.byteOffset)
 			// and the offset of an accessor into a buffer (i.e., accessor.byteOffset + bufferView.byteOffset)
 			// MUST be a multiple of the size of the accessor’s component type.
-- 
2.43.0


From ce0046ab2d09e7ab8e487fe2ac363125285a232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 63/89] fix: validate() rejected spot lights with an outer cone
 angle of exactly half pi

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 42e1355..97ef4ea 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1198,7 +1198,7 @@ fg::Error fg::validate(const Asset& asset) {
 				return Error::InvalidGltf;
 			if (light.innerConeAngle.value() > light.outerConeAngle.value())
 				return Error::InvalidGltf;
-			if (light.outerConeAngle.value() > math::pi / 2)
+			if (light.outerConeAngle.value() > static_cast<num>(math::pi / 2))
 				return Error::InvalidGltf;
 		}
 	}
-- 
2.43.0


From 6b843225d10b4a198e9005dd823557d04fbde25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 64/89] fix: validate() missed invalid texture indices of
 material extensions

---
 src/fastgltf.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 97ef4ea..20ab6bb 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1220,6 +1220,41 @@ fg::Error fg::validate(const Asset& asset) {
 		    isInvalidTexture(material.pbrData.metallicRoughnessTexture->textureIndex))
 			return Error::InvalidGltf;
 
+		const auto isInvalidTextureInfo = [&](const auto& info) {
+			return info.has_value() && isInvalidTexture(info->textureIndex);
+		};
+		if (material.anisotropy && isInvalidTextureInfo(material.anisotropy->anisotropyTexture))
+			return Error::InvalidGltf;
+		if (material.clearcoat && (isInvalidTextureInfo(material.clearcoat->clearcoatTexture) ||
+		    isInvalidTextureInfo(material.clearcoat->clearcoatRoughnessTexture) ||
+		    isInvalidTextureInfo(material.clearcoat->clearcoatNormalTexture)))
+			return Error::InvalidGltf;
+		if (material.diffuseTransmission && (isInvalidTextureInfo(material.diffuseTransmission->diffuseTransmissionTexture) ||
+		    isInvalidTextureInfo(material.diffuseTransmission->diffuseTransmissionColorTexture)))
+			return Error::InvalidGltf;
+		if (material.iridescence && (isInvalidTextureInfo(material.iridescence->iridescenceTexture) ||
+		    isInvalidTextureInfo(material.iridescence->iridescenceThicknessTexture)))
+			return Error::InvalidGltf;
+		if (material.sheen && (isInvalidTextureInfo(material.sheen->sheenColorTexture) ||
+		    isInvalidTextureInfo(material.sheen->sheenRoughnessTexture)))
+			return Error::InvalidGltf;
+		if (material.specular && (isInvalidTextureInfo(material.specular->specularTexture) ||
+		    isInvalidTextureInfo(material.specular->specularColorTexture)))
+			return Error::InvalidGltf;
+		if (material.specularGlossiness && (isInvalidTextureInfo(material.specularGlossiness->diffuseTexture) ||
+		    isInvalidTextureInfo(material.specularGlossiness->specularGlossinessTexture)))
+			return Error::InvalidGltf;
+		if (material.transmission && isInvalidTextureInfo(material.transmission->transmissionTexture))
+			return Error::InvalidGltf;
+		if (material.volume && isInvalidTextureInfo(material.volume->thicknessTexture))
+			return Error::InvalidGltf;
+		if (material.packedOcclusionRoughnessMetallicTextures && (isInvalidTextureInfo(material.packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture) ||
+		    isInvalidTextureInfo(material.packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture) ||
+		    isInvalidTextureInfo(material.packedOcclusionRoughnessMetallicTextures->normalTexture)))
+			return Error::InvalidGltf;
+		if (isInvalidTextureInfo(material.packedNormalMetallicRoughnessTexture))
+			return Error::InvalidGltf;
+
 		// Validate that for every additional material field from an extension the correct extension is marked as used by the asset.
 		if (material.anisotropy && !isExtensionUsed(extensions::KHR_materials_anisotropy))
 			return Error::InvalidGltf;
-- 
2.43.0


From df1803be84a5c75b4423e40963c1fa45f06887e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 65/89] fix: validate() missed invalid indices of morph
 targets, Draco and meshopt data, joints, children, lights and instances

---
 src/fastgltf.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 20ab6bb..cdab7cd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1140,6 +1140,8 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (bufferView.meshoptCompression) {
 			const auto& compression = bufferView.meshoptCompression;
+			if (compression->bufferIndex >= asset.buffers.size())
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
@@ -1314,6 +1316,16 @@ fg::Error fg::validate(const Asset& asset) {
 				}
 			}
 
+			if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
+			for (const auto& target : primitive.targets) {
+				for (const auto& attribute : target) {
+					if (asset.accessors.size() <= attribute.accessorIndex)
+						return Error::InvalidGltf;
+				}
+			}
+
 			for (const auto& [name, index] : primitive.attributes) {
 				if (asset.accessors.size() <= index)
 					return Error::InvalidGltf;
@@ -1423,6 +1435,16 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (node.meshIndex.has_value() && asset.meshes.size() <= node.meshIndex.value())
 			return Error::InvalidGltf;
+		if (node.lightIndex.has_value() && asset.lights.size() <= node.lightIndex.value())
+			return Error::InvalidGltf;
+		for (const auto& child : node.children) {
+			if (child >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
+		for (const auto& attribute : node.instancingAttributes) {
+			if (attribute.accessorIndex >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 
 		if (const auto* pTRS = std::get_if<TRS>(&node.transform)) {
 			if (pTRS->rotation.x() > 1.0 || pTRS->rotation.x() < -1.0)
@@ -1477,6 +1499,10 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& skin : asset.skins) {
 		if (skin.joints.empty())
 			return Error::InvalidGltf;
+		for (const auto& joint : skin.joints) {
+			if (joint >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
 		if (skin.skeleton.has_value() && skin.skeleton.value() >= asset.nodes.size())
 			return Error::InvalidGltf;
 		if (skin.inverseBindMatrices.has_value() && skin.inverseBindMatrices.value() >= asset.accessors.size())
-- 
2.43.0


From 9f7f2072cca30700a1917485a4cf0b28b72f0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 66/89] fix: malformed data URIs and base64 payloads were
 decoded, reading and writing out of bounds

---
 src/fastgltf.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index cdab7cd..990e7d8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -714,18 +714,37 @@ bool fg::URI::isDataUri() const noexcept {
 #pragma endregion
 
 #pragma region glTF parsing
+namespace fastgltf {
+	/** Checks that the text consists of complete groups of base64 characters and is only padded at its end. */
+	static bool isValidBase64(std::string_view encoded) {
+		if (encoded.size() % 4 != 0)
+			return false;
+		for (std::size_t i = 0; i < 2 && !encoded.empty() && encoded.back() == '='; ++i)
+			encoded.remove_suffix(1);
+		return std::all_of(encoded.begin(), encoded.end(), [](char c) {
+			return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
+		});
+	}
+} // namespace fastgltf
+
 fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
     auto path = uri.path();
-    auto mimeEnd = path.find(';');
-    auto mime = path.substr(0, mimeEnd);
-
     auto encodingEnd = path.find(',');
+    auto mimeEnd = path.substr(0, encodingEnd).rfind(';');
+    if (encodingEnd == std::string_view::npos || mimeEnd == std::string_view::npos) {
+		return Error::InvalidURI;
+    }
+    auto mime = path.substr(0, path.find(';'));
+
     auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
     if (encoding != "base64") {
 		return Error::InvalidURI;
     }
 
     auto encodedData = path.substr(encodingEnd + 1);
+    if (!isValidBase64(encodedData)) {
+		return Error::InvalidURI;
+    }
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
-- 
2.43.0


From a02f6cf5513edc013a4d89a79f5ed70fd93d7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 67/89] fix: buffers whose embedded data is shorter than their
 byteLength were accepted

---
 include/fastgltf/core.hpp |  3 ++-
 src/fastgltf.cpp          | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index 4d4e998..d6a1554 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -831,6 +831,7 @@ namespace fastgltf {
 
 		ParserInternalConfig config = {};
 		DataSource glbBuffer;
+		std::size_t glbBufferSize = 0;
 #if !FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL
 		std::shared_ptr<std::pmr::monotonic_buffer_resource> resourceAllocator;
 #endif
@@ -846,7 +847,7 @@ namespace fastgltf {
 		template <typename T>
 		Error parseAttributes(simdjson::dom::object& object, T& attributes);
 
-		[[nodiscard]] auto decodeDataUri(const URIView& uri) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto decodeDataUri(const URIView& uri, std::size_t minimumSize = 0) const noexcept -> Expected<DataSource>;
 		[[nodiscard]] auto loadFileFromUri(URIView& uri) const noexcept -> Expected<DataSource>;
 #if defined(__ANDROID__)
 		[[nodiscard]] auto loadFileFromApk(const std::filesystem::path& filepath) const noexcept -> Expected<DataSource>;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 990e7d8..7403c7b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -727,7 +727,7 @@ namespace fastgltf {
 	}
 } // namespace fastgltf
 
-fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri, const std::size_t minimumSize) const noexcept {
     auto path = uri.path();
     auto encodingEnd = path.find(',');
     auto mimeEnd = path.substr(0, encodingEnd).rfind(';');
@@ -745,6 +745,9 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     if (!isValidBase64(encodedData)) {
 		return Error::InvalidURI;
     }
+    if (base64::getOutputSize(encodedData.size(), base64::getPadding(encodedData)) < minimumSize) {
+		return Error::InvalidGltf;
+    }
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
@@ -2198,7 +2201,7 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
             }
 
             if (uriView.isDataUri()) {
-                auto [error, source] = decodeDataUri(uriView);
+                auto [error, source] = decodeDataUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
@@ -2218,6 +2221,9 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
                 buffer.data = std::move(filePath);
             }
         } else if (bufferIndex == 0 && !std::holds_alternative<std::monostate>(glbBuffer)) {
+            if (glbBufferSize < buffer.byteLength) {
+                return Error::InvalidGltf;
+            }
             buffer.data = std::move(glbBuffer);
         } else if (meshoptCompressionRequired) {
 			// This buffer is not a GLB buffer and has no URI source and is therefore a fallback.
@@ -5272,6 +5278,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 				};
 				glbBuffer = std::move(vectorData);
 			}
+			glbBufferSize = binaryChunk.chunkLength;
 		}
     }
 
-- 
2.43.0


From 261b926dc60876462c6f6aca1856a5cba49c1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 68/89] fix: the BIN chunk of an earlier GLB could become the
 buffer of a later document

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7403c7b..5aa11a9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5180,6 +5180,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {};
 
 #if !defined(__ANDROID__)
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
@@ -5206,6 +5207,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {};
 
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
     if (std::error_code ec; hasBit(options, Options::LoadExternalBuffers) && (!fs::is_directory(directory, ec) || ec)) {
-- 
2.43.0


From 0fbf4552d1ace821a93ed3972a2cceb43f18e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 69/89] fix: a GLB's BIN chunk was dropped when the map
 callback returned no memory

---
 src/fastgltf.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5aa11a9..7f3f605 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5261,15 +5261,16 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 				return Error::InvalidGLB;
 			}
 
+			BufferInfo info = {};
 			if (config.mapCallback != nullptr) {
-				auto info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
-				if (info.mappedMemory != nullptr) {
-					data.read(info.mappedMemory, binaryChunk.chunkLength);
-					if (config.unmapCallback != nullptr) {
-						config.unmapCallback(&info, config.userPointer);
-					}
-					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
+				info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
+			}
+			if (info.mappedMemory != nullptr) {
+				data.read(info.mappedMemory, binaryChunk.chunkLength);
+				if (config.unmapCallback != nullptr) {
+					config.unmapCallback(&info, config.userPointer);
 				}
+				glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 			} else {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
-- 
2.43.0


From 026cd7a33da8ad2218730e12b2a48934dbac15d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 70/89] fix: GLB headers and chunks could be read past the end
 of the data or of the container

---
 src/fastgltf.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7f3f605..5173985 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5124,16 +5124,20 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
-	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
 	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
-		return GltfType::GLB;
+
+	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
+	if (data.totalSize() >= sizeof(BinaryGltfHeader)) {
+		auto header = readBinaryHeader(data);
+		data.reset();
+		if (header.magic == binaryGltfHeaderMagic) {
+			return GltfType::GLB;
+		}
 	}
 
 	// First, check if any of the first four characters is a '{'.
 	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
+	data.read(begin.data(), min(begin.size(), data.totalSize()));
 	data.reset();
 	for (const auto& i : begin) {
 		if (static_cast<char>(i) == ' ')
@@ -5216,6 +5220,9 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	data.reset();
 
+    if (data.totalSize() < sizeof(BinaryGltfHeader)) {
+	    return Error::InvalidGLB;
+    }
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
 	    return Error::InvalidGLB;
@@ -5223,7 +5230,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	if (header.version != 2) {
 		return Error::UnsupportedVersion;
 	}
-    if (header.length > data.totalSize()) {
+    if (header.length > data.totalSize() || header.length < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -5231,7 +5238,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > header.length - sizeof(BinaryGltfHeader) - sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -5247,8 +5254,12 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	    return Error::InvalidJson;
     }
 
-    // Is there enough room for another chunk header?
-    if (header.length > (data.bytesRead() + sizeof(BinaryGltfChunk))) {
+    // Is there another chunk?
+    const auto jsonEnd = sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk) + jsonChunk.chunkLength;
+    if (header.length != jsonEnd) {
+        if (header.length - jsonEnd < sizeof(BinaryGltfChunk)) {
+            return Error::InvalidGLB;
+        }
         auto binaryChunk = readBinaryChunk(data);
 
         if (binaryChunk.chunkType != binaryGltfDataChunkMagic) {
@@ -5257,7 +5268,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
-			if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {
+			if (binaryChunk.chunkLength > header.length - jsonEnd - sizeof(BinaryGltfChunk)) {
 				return Error::InvalidGLB;
 			}
 
-- 
2.43.0


From 56cd7111d237d10ce6961766ee9e141c21d60260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 71/89] fix: a file stream could not be read again after
 reading past its end

---
 src/io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..9d5a278 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -144,6 +144,7 @@ fg::span<std::byte> fg::GltfFileStream::read(std::size_t count, std::size_t padd
 }
 
 void fg::GltfFileStream::reset() {
+	fileStream.clear();
 	fileStream.seekg(0, std::ifstream::beg);
 }
 
-- 
2.43.0


From e9a0fb7dfb4aa7b9cefe1de9aa4ae45984b49238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 72/89] fix: parsing a memory mapped file could read past the
 end of its mapping

---
 src/io.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 9d5a278..18ee45d 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -209,13 +209,23 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 		return;
 	}
 
-	// Map the file
+	// simdjson reads past the end of the data, so we reserve the padding it requires and then map the file at its beginning.
+	const auto mappingSize = static_cast<std::size_t>(statInfo.st_size) + simdjson::SIMDJSON_PADDING;
 	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
+					  mappingSize,
 					  PROT_READ,
-					  MAP_PRIVATE,
-					  fd,
+					  MAP_PRIVATE | MAP_ANONYMOUS,
+					  -1,
 					  0);
+	if (mappedFile != MAP_FAILED && mmap(mappedFile,
+										 statInfo.st_size,
+										 PROT_READ,
+										 MAP_PRIVATE | MAP_FIXED,
+										 fd,
+										 0) == MAP_FAILED) {
+		munmap(mappedFile, mappingSize);
+		mappedFile = MAP_FAILED;
+	}
 	if (mappedFile != MAP_FAILED) {
 		fileSize = static_cast<std::uint64_t>(statInfo.st_size);
 
@@ -261,8 +271,8 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	}
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != MAP_FAILED && mappedFile != nullptr) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
 #endif
@@ -284,8 +294,8 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 		CloseHandle(fileHandle);
 	}
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != MAP_FAILED && mappedFile != nullptr) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 #endif
 }
-- 
2.43.0


From 102ac62a55ff84fe14c5049cad21d27394992923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 73/89] fix: a failure to read a file was not reported

---
 src/io.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 18ee45d..592cc65 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -62,7 +62,10 @@ fg::GltfDataBuffer::GltfDataBuffer(const fs::path& path) noexcept {
 
 	if (buffer != nullptr) {
 		// Copy the data and fill the padding region with zeros.
-		file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize));
+		if (!file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize))) {
+			error = Error::InvalidPath;
+			return;
+		}
 		std::memset(buffer.get() + dataSize, 0, allocatedSize - dataSize);
 	} else {
 		error = Error::FileBufferAllocationFailed;
@@ -456,6 +459,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
@@ -465,13 +471,18 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 			if (config.unmapCallback != nullptr) {
 				config.unmapCallback(&info, config.userPointer);
 			}
+			if (!file) {
+				return Error::MissingExternalBuffer;
+			}
 
 			return { customBufferSource };
 		}
 	}
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
-	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (!file.read(reinterpret_cast<char*>(data.data()), length)) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From 024a97e4bfad324469655b67c0d9ea3c0a6120a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:31 +0000
Subject: [PATCH 74/89] fix: generated indices did not match the topology or
 the count of their accessor and read out of bounds

---
 src/fastgltf.cpp | 80 +++++++++++-------------------------------------
 1 file changed, 18 insertions(+), 62 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5173985..7e4a8db 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -883,52 +883,27 @@ template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, decltype(
 
 namespace fastgltf {
 	template<typename T>
-	void writeIndices(PrimitiveType type, span<T> indices, std::size_t primitiveCount) {
-		// Generate the correct indices for every primitive topology
-		switch (type) {
-			case PrimitiveType::Points: {
-				for (std::size_t i = 0; i < primitiveCount; ++i)
-					indices[i] = static_cast<T>(i);
-				break;
-			}
-			case PrimitiveType::Lines:
-			case PrimitiveType::LineLoop:
-			case PrimitiveType::LineStrip: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 2 + 0] = static_cast<T>(i * 2 + 0);
-					indices[i * 2 + 1] = static_cast<T>(i * 2 + 1);
-				}
-				break;
-			}
-			case PrimitiveType::Triangles:
-			case PrimitiveType::TriangleStrip:
-			case PrimitiveType::TriangleFan: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 3 + 0] = static_cast<T>(i * 3 + 0);
-					indices[i * 3 + 1] = static_cast<T>(i * 3 + 1);
-					indices[i * 3 + 2] = static_cast<T>(i * 3 + 2);
-				}
-				break;
-			}
-			default: FASTGLTF_UNREACHABLE
-		}
+	void writeIndices(span<T> indices) {
+		// Without indices, every topology uses the vertices in order.
+		for (std::size_t i = 0; i < indices.size(); ++i)
+			indices[i] = static_cast<T>(i);
 	}
 
-	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(PrimitiveType type, std::size_t indexCount, std::size_t primitiveCount) {
+	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(std::size_t indexCount) {
 		if (indexCount < 255) {
 			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint8_t));
 			span<std::uint8_t> indices(reinterpret_cast<std::uint8_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint8_t));
-			writeIndices(type, indices, primitiveCount);
+			writeIndices(indices);
 			return std::make_pair(generatedIndices, ComponentType::UnsignedByte);
 		} else if (indexCount < 65535) {
 			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint16_t));
 			span<std::uint16_t> indices(reinterpret_cast<std::uint16_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint16_t));
-			writeIndices(type, indices, primitiveCount);
+			writeIndices(indices);
 			return std::make_pair(generatedIndices, ComponentType::UnsignedShort);
 		} else {
 			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint32_t));
 			span<std::uint32_t> indices(reinterpret_cast<std::uint32_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint32_t));
-			writeIndices(type, indices, primitiveCount);
+			writeIndices(indices);
 			return std::make_pair(generatedIndices, ComponentType::UnsignedInt);
 		}
 	}
@@ -944,34 +919,15 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			if (positionAttribute == primitive.attributes.end()) {
 				return Error::InvalidGltf;
 			}
-			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
-
-			auto primitiveCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return positionCount;
-					case PrimitiveType::Lines: return positionCount / 2;
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
-					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-			auto indexCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return primitiveCount;
-					case PrimitiveType::Lines:
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return primitiveCount * 2;
-					case PrimitiveType::Triangles:
-					case PrimitiveType::TriangleStrip:
-					case PrimitiveType::TriangleFan: return primitiveCount * 3;
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-
-			auto [generatedIndices, componentType] = writeIndices(primitive.type, indexCount, primitiveCount);
+			if (positionAttribute->accessorIndex >= asset.accessors.size()) {
+				return Error::InvalidGltf;
+			}
+			const auto indexCount = asset.accessors[positionAttribute->accessorIndex].count;
+			if (indexCount > std::numeric_limits<std::uint32_t>::max()) {
+				return Error::InvalidGltf;
+			}
+
+			auto [generatedIndices, componentType] = writeIndices(indexCount);
 
 			auto bufferIdx = asset.buffers.size();
 			auto& buffer = asset.buffers.emplace_back();
@@ -991,7 +947,7 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			primitive.indicesAccessor = asset.accessors.size();
 			auto& accessor = asset.accessors.emplace_back();
 			accessor.byteOffset = 0;
-			accessor.count = positionCount;
+			accessor.count = indexCount;
 			accessor.type = AccessorType::Scalar;
 			accessor.componentType = componentType;
 			accessor.normalized = false;
-- 
2.43.0


From 83649e804b2a578eae1a9aeabbfbe3312192c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 75/89] fix: URIs whose components contain encoded delimiters
 were exported as other URIs

---
 src/fastgltf.cpp | 66 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7e4a8db..fb3a5c6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5349,26 +5349,68 @@ namespace fastgltf {
 		}
 	}
 
+	/**
+	 * Appends the character, and percent-encodes it if it is ASCII and neither allowed everywhere in a URI nor given as a delimiter.
+	 */
+	static void appendPercentEncoded(std::string& uri, char c, std::string_view delimiters) {
+		constexpr std::string_view allowed = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=";
+		constexpr std::string_view hex = "0123456789ABCDEF";
+
+		const auto byte = static_cast<unsigned char>(c);
+		if (byte >= 0x80U || allowed.find(c) != std::string_view::npos || delimiters.find(c) != std::string_view::npos) {
+			uri += c;
+		} else {
+			uri += '%';
+			uri += hex[byte >> 4U];
+			uri += hex[byte & 0xFU];
+		}
+	}
+
 	/**
 	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
 	 * and percent-encodes every ASCII character that may not appear in the path of a URI.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		constexpr std::string_view allowed = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=@/";
-		constexpr std::string_view hex = "0123456789ABCDEF";
-
 		std::string uri;
 		for (const auto c : path.lexically_normal().generic_string()) {
-			const auto byte = static_cast<unsigned char>(c);
-			if (byte >= 0x80U || allowed.find(c) != std::string_view::npos) {
-				uri += c;
+			appendPercentEncoded(uri, c, "@/");
+		}
+		return uri;
+	}
+
+	/**
+	 * Writes the URI, whose components have been decoded, so that parsing it yields the same components again.
+	 */
+	static std::string formatUri(const URI& uri) {
+		const auto text = uri.string();
+		const auto contains = [](std::string_view component, const char* c) {
+			return !component.empty() && c >= component.data() && c < component.data() + component.size();
+		};
+
+		std::string formatted;
+		for (const auto& c : text) {
+			if (contains(uri.path(), &c)) {
+				if (c == '/' && &c == uri.path().data() + 1 && uri.path().front() == '/') {
+					// Two slashes at the beginning would start an authority.
+					formatted += "%2F";
+				} else {
+					appendPercentEncoded(formatted, c, uri.scheme().empty() ? "@/" : "@/:");
+				}
+			} else if (contains(uri.query(), &c) || contains(uri.fragment(), &c)) {
+				appendPercentEncoded(formatted, c, "@/:?");
+			} else if (contains(uri.userinfo(), &c)) {
+				appendPercentEncoded(formatted, c, ":");
+			} else if (contains(uri.host(), &c)) {
+				// Only an IPv6 address, which is enclosed in brackets, contains colons.
+				appendPercentEncoded(formatted, c, *(uri.host().data() - 1) == '[' ? ":" : "");
+			} else if (contains(uri.port(), &c)) {
+				appendPercentEncoded(formatted, c, "");
 			} else {
-				uri += '%';
-				uri += hex[byte >> 4U];
-				uri += hex[byte & 0xFU];
+				formatted += c;
 			}
 		}
-		return uri;
+		escapeString(formatted);
+		return formatted;
 	}
 
 	// replacement for std::to_string that uses simdjson's grisu2 implementation, which is
@@ -5668,7 +5710,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"' + ',';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"' + ',';
                 bufferPaths.emplace_back(std::nullopt);
 			},
 			[&]([[maybe_unused]] const sources::Fallback& fallback) {
@@ -5870,7 +5912,7 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				imagePaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
 				if (uri.mimeType != MimeType::None) {
 					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
 				}
-- 
2.43.0


From 20940f140f93d8020106ad238d4c985f7c15b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 76/89] fix: the quotient of a quaternion and a scalar was
 their product

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..f874fee 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -514,7 +514,7 @@ namespace fastgltf::math {
 		}
 
 		constexpr auto operator/(T scalar) const noexcept {
-			return quat<T>(*this) *= scalar;
+			return quat<T>(*this) /= scalar;
 		}
 		constexpr auto operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
-- 
2.43.0


From beb64dd01cbecdc954c681e90d13d0edbc017101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 77/89] fix: rectangular matrices were constructed, compared
 and multiplied with vectors as if they were square

---
 include/fastgltf/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index f874fee..a339ba4 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -629,7 +629,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
@@ -717,7 +717,7 @@ namespace fastgltf::math {
 		}
 
 		[[nodiscard]] constexpr bool operator==(const mat<T, N, M>& other) const noexcept {
-			for (std::size_t i = 0; i < N; ++i)
+			for (std::size_t i = 0; i < M; ++i)
 				if (col(i) != other.col(i))
 					return false;
 			return true;
@@ -740,7 +740,7 @@ namespace fastgltf::math {
 			return ret;
 		}
 		constexpr auto operator*(vec<T, M> other) const noexcept {
-			vec<T, M> ret = col(0) * other[0];
+			vec<T, N> ret = col(0) * other[0];
 			for (std::size_t i = 1; i < columns(); ++i)
 				ret += col(i) * other[i];
 			return ret;
-- 
2.43.0


From 9d43976a8b8ab5a85088f1872e2499efcd9d9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 78/89] fix: the prefix increment and decrement of a vector
 returned nothing

---
 include/fastgltf/math.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index a339ba4..892b71e 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -259,9 +259,10 @@ namespace fastgltf::math {
 				(*this)[i] += other[i];
 			return *this;
 		}
-		constexpr auto operator++() noexcept {
+		constexpr auto& operator++() noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i]++;
+			return *this;
 		}
 		constexpr auto operator++(int) noexcept {
 			vec<T, N> ret(*this);
@@ -291,9 +292,10 @@ namespace fastgltf::math {
 				(*this)[i] -= other[i];
 			return *this;
 		}
-		constexpr auto operator--() noexcept {
+		constexpr auto& operator--() noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i]--;
+			return *this;
 		}
 		constexpr auto operator--(int) noexcept {
 			vec<T, N> ret(*this);
-- 
2.43.0


From 5d17fe7b167cf6cfb55313227d6048e49105b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 79/89] fix: compound assignments of vectors and quaternions
 returned a copy of the operand

---
 include/fastgltf/math.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 892b71e..b71ed8c 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -206,7 +206,7 @@ namespace fastgltf::math {
 		constexpr auto operator*(T scalar) const noexcept {
 			return vec<T, N>(*this) *= scalar;
 		}
-		constexpr auto operator*=(T scalar) noexcept {
+		constexpr auto& operator*=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] *= scalar;
 			return *this;
@@ -214,7 +214,7 @@ namespace fastgltf::math {
 		constexpr auto operator*(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) *= other;
 		}
-		constexpr auto operator*=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator*=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] *= other[i];
 			return *this;
@@ -223,7 +223,7 @@ namespace fastgltf::math {
 		constexpr auto operator/(T scalar) const noexcept {
 			return vec<T, N>(*this) /= scalar;
 		}
-		constexpr auto operator/=(T scalar) noexcept {
+		constexpr auto& operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] /= scalar;
 			return *this;
@@ -231,7 +231,7 @@ namespace fastgltf::math {
 		constexpr auto operator/(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) /= other;
 		}
-		constexpr auto operator/=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator/=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] /= other[i];
 			return *this;
@@ -246,7 +246,7 @@ namespace fastgltf::math {
 		constexpr auto operator+(T scalar) const noexcept {
 			return vec<T, N>(*this) += scalar;
 		}
-		constexpr auto operator+=(T scalar) noexcept {
+		constexpr auto& operator+=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] += scalar;
 			return *this;
@@ -254,7 +254,7 @@ namespace fastgltf::math {
 		constexpr auto operator+(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) += other;
 		}
-		constexpr auto operator+=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator+=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] += other[i];
 			return *this;
@@ -279,7 +279,7 @@ namespace fastgltf::math {
 		constexpr auto operator-(T scalar) const noexcept {
 			return vec<T, N>(*this) -= scalar;
 		}
-		constexpr auto operator-=(T scalar) noexcept {
+		constexpr auto& operator-=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] -= scalar;
 			return *this;
@@ -287,7 +287,7 @@ namespace fastgltf::math {
 		constexpr auto operator-(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) -= other;
 		}
-		constexpr auto operator-=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator-=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] -= other[i];
 			return *this;
@@ -509,7 +509,7 @@ namespace fastgltf::math {
 		constexpr auto operator*(T scalar) const noexcept {
 			return quat<T>(*this) *= scalar;
 		}
-		constexpr auto operator*=(T scalar) noexcept {
+		constexpr auto& operator*=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] *= scalar;
 			return *this;
@@ -518,7 +518,7 @@ namespace fastgltf::math {
 		constexpr auto operator/(T scalar) const noexcept {
 			return quat<T>(*this) /= scalar;
 		}
-		constexpr auto operator/=(T scalar) noexcept {
+		constexpr auto& operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] /= scalar;
 			return *this;
@@ -533,7 +533,7 @@ namespace fastgltf::math {
 		constexpr auto operator+(const quat<T>& other) const noexcept {
 			return quat<T>(*this) += other;
 		}
-		constexpr auto operator+=(const quat<T>& other) noexcept {
+		constexpr auto& operator+=(const quat<T>& other) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] += other[i];
 			return *this;
@@ -548,7 +548,7 @@ namespace fastgltf::math {
 		constexpr auto operator-(const quat<T>& other) const noexcept {
 			return quat<T>(*this) -= other;
 		}
-		constexpr auto operator-=(const quat<T>& other) noexcept {
+		constexpr auto& operator-=(const quat<T>& other) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] -= other[i];
 			return *this;
-- 
2.43.0


From 108fa4d6d18a22dcf31906dd4122e715900963e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 80/89] fix: enlarging a rectangular matrix did not initialise
 all new components to identity

---
 include/fastgltf/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index b71ed8c..30dec10 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -665,7 +665,8 @@ namespace fastgltf::math {
 		template <std::size_t Q, std::size_t P, std::enable_if_t<Q < N && P < M, bool> = true>
 		constexpr explicit mat(const mat<T, Q, P>& other) noexcept : mat(T(1)) {
 			for (std::size_t i = 0; i < other.columns(); ++i)
-				(*this).col(i) = vec<T, N>(other.col(i));
+				for (std::size_t j = 0; j < other.rows(); ++j)
+					(*this).col(i)[j] = other.col(i)[j];
 		}
 
 		constexpr mat& operator=(const mat& other) = default;
-- 
2.43.0


From a25ee2d917479cc480e405b2d0b0af4965ffc231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 81/89] fix: decomposed transforms of mirrored matrices and of
 half-turns did not multiply back to the matrix

---
 include/fastgltf/math.hpp | 57 ++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 30dec10..1c53a0e 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -913,9 +913,7 @@ namespace fastgltf::math {
 
 	/**
 	 * Decomposes a transform matrix into the translation, rotation, and scale components. This
-	 * function does not support skew, shear, or perspective. This currently uses a quick algorithm
-	 * to calculate the quaternion from the rotation matrix, which might occasionally loose some
-	 * precision, though we try to use doubles here.
+	 * function does not support skew, shear, or perspective. If the matrix mirrors, the X scale is negative.
 	 */
 	FASTGLTF_EXPORT inline void decomposeTransformMatrix(fmat4x4 matrix, fvec3& scale, fquat& rotation, fvec3& translation) {
 		// Extract the translation. We zero the translation out, as we reuse the matrix as
@@ -937,23 +935,44 @@ namespace fastgltf::math {
 		matrix.col(1) /= scale.y();
 		matrix.col(2) /= scale.z();
 
-		// Construct the quaternion. This algo is copied from here:
-		// https://www.euclideanspace.com/maths/geometry/rotations/conversions/matrixToQuaternion/christian.htm.
+		// A left-handed basis is not a rotation, so one of the axes has to be mirrored.
+		if (dot(cross(fvec3(matrix.col(0)), fvec3(matrix.col(1))), fvec3(matrix.col(2))) < 0.f) {
+			scale.x() = -scale.x();
+			matrix.col(0) = -matrix.col(0);
+		}
+
+		// Construct the quaternion. The component with the largest magnitude is computed first, and the
+		// others are derived from it, so that their signs and their precision are always well-defined.
+		const double m00 = matrix[0][0], m11 = matrix[1][1], m22 = matrix[2][2];
+		const std::array<double, 4> squares {{
+			1. + m00 - m11 - m22,
+			1. - m00 + m11 - m22,
+			1. - m00 - m11 + m22,
+			1. + m00 + m11 + m22,
+		}};
+		std::size_t largest = 3;
+		for (std::size_t i = 0; i < 3; ++i)
+			if (squares[i] > squares[largest])
+				largest = i;
+
+		const double s = 2. * std::sqrt(squares[largest]);
+		const double xy = matrix[0][1] + matrix[1][0], xz = matrix[0][2] + matrix[2][0], yz = matrix[1][2] + matrix[2][1];
+		const double xw = matrix[1][2] - matrix[2][1], yw = matrix[2][0] - matrix[0][2], zw = matrix[0][1] - matrix[1][0];
 		// glTF orders the components as x,y,z,w
-		rotation = math::fquat(
-			max(.0f, 1.f + matrix[0][0] - matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] + matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] - matrix[1][1] + matrix[2][2]),
-			max(.0f, 1.f + matrix[0][0] + matrix[1][1] + matrix[2][2])
-		);
-		rotation.x() = static_cast<float>(sqrt(static_cast<double>(rotation.x()))) / 2;
-		rotation.y() = static_cast<float>(sqrt(static_cast<double>(rotation.y()))) / 2;
-		rotation.z() = static_cast<float>(sqrt(static_cast<double>(rotation.z()))) / 2;
-		rotation.w() = static_cast<float>(sqrt(static_cast<double>(rotation.w()))) / 2;
-
-		rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
-		rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
-		rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+		switch (largest) {
+			case 0:
+				rotation = fquat(float(s / 4), float(xy / s), float(xz / s), float(xw / s));
+				break;
+			case 1:
+				rotation = fquat(float(xy / s), float(s / 4), float(yz / s), float(yw / s));
+				break;
+			case 2:
+				rotation = fquat(float(xz / s), float(yz / s), float(s / 4), float(zw / s));
+				break;
+			default:
+				rotation = fquat(float(xw / s), float(yw / s), float(zw / s), float(s / 4));
+				break;
+		}
 	}
 } // namespace fastgltf::math
 
-- 
2.43.0


From a3543f2050dbb2d4af6a55717546fe5e086d38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 82/89] fix: 32-bit integer vectors were declared to have
 16-bit components

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..406edba 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From d2116beeca0e1e62158cfa8ed3bbf800ba60f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 83/89] fix: sparse indices matched elements whose index does
 not fit the index type

---
 include/fastgltf/tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 406edba..6346059 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -400,7 +400,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		auto step = count / 2;
 		auto index = resultIndex + step;
 
-		if (deserializeComponent<ElementType>(indices, index) < static_cast<ElementType>(desiredIndex)) {
+		if (static_cast<std::size_t>(deserializeComponent<ElementType>(indices, index)) < desiredIndex) {
 			resultIndex = index + 1;
 			count -= step + 1;
 		} else {
@@ -408,7 +408,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		}
 	}
 
-	return resultIndex < indexCount && deserializeComponent<ElementType>(indices, resultIndex) == static_cast<ElementType>(desiredIndex);
+	return resultIndex < indexCount && static_cast<std::size_t>(deserializeComponent<ElementType>(indices, resultIndex)) == desiredIndex;
 }
 
 // Finds the index of the nearest sparse index to the desired index
-- 
2.43.0


From 2442c57363f99a3d2bcdad9e72ff6212bd7f14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 84/89] fix: elements of accessors without a buffer view were
 identity matrices and rotations instead of zeros

---
 include/fastgltf/tools.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 6346059..759e9de 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -388,6 +388,18 @@ ElementType getAccessorElementAt(ComponentType componentType, const std::byte* b
 	}
 }
 
+// The element of an accessor without data, of which every component is zero. Note that default constructing
+// the element does not yield zeros for types such as matrices and quaternions.
+template <typename ElementType>
+ElementType getZeroElement() {
+	using Traits = ElementTraits<ElementType>;
+	constexpr auto componentCount = getNumComponents(Traits::type);
+	// Enough for the components and the padding of matrix columns.
+	const std::array<std::byte, 4 * componentCount * sizeof(typename Traits::component_type)> zeros {};
+	return convertAccessorElement<ElementType, typename Traits::component_type>(
+			zeros.data(), false, std::make_index_sequence<componentCount> {});
+}
+
 // Performs a binary search for the index into the sparse index list whose value matches the desired index
 template <typename ElementType>
 bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size_t desiredIndex,
@@ -649,11 +661,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::getZeroElement<ElementType>();
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -734,7 +742,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::getZeroElement<ElementType>());
 			}
 		}
 
@@ -746,7 +754,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::getZeroElement<ElementType>());
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -817,11 +825,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::getZeroElement<ElementType>();
 			}
 		}
 
-- 
2.43.0


From bdf1ff2066e58ce2f59e4c13018c88d1c352eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 85/89] fix: copyFromAccessor ignored that an accessor is
 normalized and zeroed elements by the size of the source

---
 include/fastgltf/tools.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 759e9de..21cd490 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -814,11 +814,11 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
@@ -850,7 +850,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 830da1fd9f6110dce43ce4d5dbd0c7ed4e07cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 86/89] fix: copyComponentsFromAccessor placed converted
 elements by the size of the source and needed a buffer view

---
 include/fastgltf/tools.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 21cd490..ee34c25 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -872,6 +872,13 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, sizeof(ComponentType) * componentCount * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
@@ -888,7 +895,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dest) + componentCount * i + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0


From 068881d7df6d2cc02d6f909f2b54b63426c8c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 87/89] fix: reading an element through an accessor iterator
 again or skipping one changed the elements after it

---
 include/fastgltf/tools.hpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index ee34c25..63ed42b 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -503,7 +503,7 @@ public:
 
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
-		if (accessor->accessor.sparse.has_value()) {
+		if (accessor->sparseCount > 0) {
 			// Get the first sparse index.
 			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
 			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
@@ -539,23 +539,22 @@ public:
 	}
 
 	[[nodiscard]] ElementType operator*() const noexcept {
-		if (accessor->accessor.sparse.has_value()) {
-			if (idx == nextSparseIndex) {
-				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
+		// Find the first sparse index that is not before this element, as any number of elements may have been skipped.
+		while (sparseIdx < accessor->sparseCount && nextSparseIndex < idx) {
+			++sparseIdx;
+			if (sparseIdx < accessor->sparseCount) {
+				nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+				                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
 			}
 		}
 
+		if (sparseIdx < accessor->sparseCount && idx == nextSparseIndex) {
+			// Get the sparse value for this index
+			return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+			                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+			                                                   accessor->accessor.normalized);
+		}
+
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
 														   &accessor->bufferBytes[idx * accessor->stride],
 														   accessor->accessor.normalized);
@@ -583,7 +582,7 @@ class IterableAccessor {
 	span<const std::byte> valuesBytes;
 	std::size_t indexStride;
 	std::size_t valueStride;
-	std::size_t sparseCount;
+	std::size_t sparseCount = 0;
 
 public:
 	using iterator = AccessorIterator<ElementType, BufferDataAdapter>;
-- 
2.43.0


From ff22951dfcb7ab060d23b484f3dc073cd94ea48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 88/89] fix: accessors without a buffer view could not be
 iterated by a range

---
 include/fastgltf/tools.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 63ed42b..39030ac 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -555,6 +555,10 @@ public:
 			                                                   accessor->accessor.normalized);
 		}
 
+		if (!accessor->accessor.bufferViewIndex) {
+			return internal::getZeroElement<ElementType>();
+		}
+
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
 														   &accessor->bufferBytes[idx * accessor->stride],
 														   accessor->accessor.normalized);
@@ -573,7 +577,7 @@ class IterableAccessor {
 	const Accessor& accessor;
 
 	span<const std::byte> bufferBytes;
-	std::size_t stride;
+	std::size_t stride = 0;
 	fastgltf::ComponentType componentType;
 
 	// Data needed for sparse accessors
@@ -591,10 +595,15 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
 		if (accessor.sparse.has_value()) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
-- 
2.43.0


From c6db3a329ef8f1256390d6cb07b77fad5becc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:07 +0000
Subject: [PATCH 89/89] fix: Detect JSON glTF files after any amount of leading
 whitespace

---
 src/fastgltf.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index fb3a5c6..a979ab1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5091,16 +5091,24 @@ fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
 		}
 	}
 
-	// First, check if any of the first four characters is a '{'.
+	// Otherwise, check if any of the first four characters after leading whitespace is a '{'.
 	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), min(begin.size(), data.totalSize()));
-	data.reset();
-	for (const auto& i : begin) {
-		if (static_cast<char>(i) == ' ')
-			continue;
-		if (static_cast<char>(i) == '{')
-			return GltfType::glTF;
+	bool whitespaceOnly = true;
+	while (whitespaceOnly && data.bytesRead() < data.totalSize()) {
+		const auto count = min(begin.size(), data.totalSize() - data.bytesRead());
+		data.read(begin.data(), count);
+		for (std::size_t i = 0; i < count; ++i) {
+			const auto character = static_cast<char>(begin[i]);
+			if (character == ' ' || character == '\t' || character == '\n' || character == '\r')
+				continue;
+			if (character == '{') {
+				data.reset();
+				return GltfType::glTF;
+			}
+			whitespaceOnly = false;
+		}
 	}
+	data.reset();
 
 	return GltfType::Invalid;
 }
-- 
2.43.0

