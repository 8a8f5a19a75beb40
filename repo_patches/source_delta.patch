From fd1984795ad05699a07c9e2beb948fe977741f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:41 +0000
Subject: [PATCH 01/17] fix: make stacked_exception::what() free of data races
 and its text stable

what() rebuilt a mutable member on every call: two threads inspecting the same exception raced,
and the pointer returned by an earlier call was invalidated by a later one. Describe the stack once, in the constructor.
---
 src/utki/exception.hpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 13c82d7..ff4d848 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -84,11 +84,25 @@ class stacked_exception : public exception
 	std::nested_exception nested;
 	exception_type nesting;
 
-	mutable std::string description;
+	// made once by the constructor, so that what() does not modify the object
+	std::string description;
 
 	stacked_exception(exception_type nesting) :
 		nesting(std::move(nesting))
-	{}
+	{
+		if (!this->nested.nested_ptr()) {
+			return;
+		}
+
+		try {
+			this->description =
+				utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
+			// failure to describe must not replace the exception being thrown
+			// NOLINTNEXTLINE(bugprone-empty-catch)
+		} catch (...) {
+			// leave the description empty
+		}
+	}
 
 	template <typename same_exception_type>
 	friend void utki::throw_with_nested(same_exception_type exception);
@@ -96,15 +110,10 @@ class stacked_exception : public exception
 public:
 	const char* what() const noexcept override
 	{
-		try {
-			this->description =
-				utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
-			return this->description.c_str();
-		} catch (std::bad_alloc&) {
-			return "std::bad_alloc";
-		} catch (...) {
-			return "error";
+		if (this->description.empty()) {
+			return "error: could not describe the exception stack";
 		}
+		return this->description.c_str();
 	}
 
 	std::string to_string(std::string_view indentation = std::string_view()) const override
-- 
2.43.0


From d563b5df86a13b70fd8afeb14f753208e52c0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:14 +0000
Subject: [PATCH 02/17] fix: signal: give each callback the emitted values

signal::emit() forwarded by-value arguments to each of the callbacks, so all the
callbacks after the first one got moved-from values.
---
 src/utki/signal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..9023258 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
 
 #include "debug.hpp"
 
@@ -93,7 +94,12 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			// pass copyable arguments as lvalues, so that each callback gets its own copy of the emitted value,
+			// forwarding would leave moved-from values to all the callbacks but the first one
+			c(static_cast<std::conditional_t<
+				  std::is_copy_constructible_v<args_type>,
+				  std::add_lvalue_reference_t<args_type>,
+				  args_type&&>>(a)...);
 		}
 	}
 
-- 
2.43.0


From 77eae3ec52aaefee274c71a1af0225b09678dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:46 +0000
Subject: [PATCH 03/17] fix: do not return silently cut strings when memory
 allocation fails

By default string streams swallow exceptions thrown while writing to them and only
set the bad bit, so functions which build strings by means of a string stream
returned a cut string in case of memory allocation failure.
---
 src/utki/exception.cpp | 2 ++
 src/utki/exception.hpp | 1 +
 src/utki/string.hpp    | 2 ++
 src/utki/unicode.cpp   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..65db11f 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -54,6 +54,7 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	}
 
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 	ss << indentation <<
 #if CFG_COMPILER == CFG_COMPILER_GCC || CFG_COMPILER == CFG_COMPILER_CLANG
 		demangle(*abi::__cxa_current_exception_type());
@@ -84,6 +85,7 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 std::string utki::to_string(const std::exception& e, std::string_view indentation)
 {
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
 	try {
diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index ff4d848..6e33de0 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -119,6 +119,7 @@ public:
 	std::string to_string(std::string_view indentation = std::string_view()) const override
 	{
 		std::stringstream ss;
+		ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 		ss << indentation << utki::to_string(static_cast<const std::exception&>(this->nesting));
 
 		try {
diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..0c9de35 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -242,6 +242,7 @@ std::basic_string<typename strings_collection_type::value_type::value_type> join
 	}
 
 	std::basic_stringstream<typename strings_collection_type::value_type::value_type> ss;
+	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 	ss << strings.front();
 
 	for (const auto& s : utki::skip_front<1>(strings)) {
@@ -262,6 +263,7 @@ template <typename... streamable_type>
 std::string cat(const streamable_type&... s)
 {
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-array-to-pointer-decay, "false positive")
 	[[maybe_unused]] auto& stream = (ss << ... << s);
diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..7860748 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -182,6 +182,7 @@ utki::to_utf8(char32_t c)
 std::string utki::to_utf8(utki::span<const char32_t> str)
 {
 	std::stringstream ss;
+	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 
 	for (auto c : str) {
 		auto buf = to_utf8(c);
-- 
2.43.0


From 64de7b41a6b7055e7ccb6b80e311264885abb1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:43 +0000
Subject: [PATCH 04/17] fix: current_exception_to_string(): do not terminate on
 nested_exception which nests nothing

---
 src/utki/exception.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 65db11f..3cf84ab 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -67,6 +67,10 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	try {
 		throw;
 	} catch (std::nested_exception& nested) {
+		// rethrow_nested() terminates the program if there is no nested exception
+		if (!nested.nested_ptr()) {
+			return ss.str();
+		}
 		try {
 			nested.rethrow_nested();
 		} catch (std::exception& e) {
-- 
2.43.0


From 559460049652880e9cad5b46d4da612d8676c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:10 +0000
Subject: [PATCH 05/17] fix: traversal iterator: let at_level() throw
 std::out_of_range as documented

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..d028e6e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From c27c9138af6657c5f557cdb6b4a200ce4b5a3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 06/17] fix: traversal iterator: remain unchanged when a step
 fails to allocate memory

---
 src/utki/tree.hpp | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index d028e6e..f1b6bab 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -241,6 +241,18 @@ private:
 			this->iter_stack.push_back(i);
 		}
 
+		// In case of an exception the iterator remains unchanged.
+		void push(list_type& list, iterator_type i)
+		{
+			this->list_stack.push_back(&list);
+			try {
+				this->iter_stack.push_back(i);
+			} catch (...) {
+				this->list_stack.pop_back();
+				throw;
+			}
+		}
+
 	public:
 		iterator_internal() = default;
 
@@ -276,8 +288,8 @@ private:
 
 				ASSERT(iter != this->list_stack.back()->end())
 				if (!iter->children.empty()) {
-					this->list_stack.push_back(&iter->children);
-					this->iter_stack.push_back(this->list_stack.back()->begin());
+					list_type& children = iter->children;
+					this->push(children, children.begin());
 					return *this;
 				}
 				++iter;
@@ -314,17 +326,28 @@ private:
 				return *this;
 			}
 
-			for (;;) {
-				auto& iter = this->iter_stack.back();
-				ASSERT(iter != this->list_stack.back()->begin())
-				--iter;
-
-				if (!iter->children.empty()) {
-					this->list_stack.push_back(&iter->children);
-					this->iter_stack.push_back(this->list_stack.back()->end());
-				} else {
-					break;
+			const auto initial_depth = this->iter_stack.size();
+			try {
+				for (;;) {
+					auto& iter = this->iter_stack.back();
+					ASSERT(iter != this->list_stack.back()->begin())
+					--iter;
+
+					if (!iter->children.empty()) {
+						list_type& children = iter->children;
+						this->push(children, children.end());
+					} else {
+						break;
+					}
+				}
+			} catch (...) {
+				// return to where the iterator was before the call
+				while (this->iter_stack.size() > initial_depth) {
+					this->list_stack.pop_back();
+					this->iter_stack.pop_back();
 				}
+				++this->iter_stack.back();
+				throw;
 			}
 
 			return *this;
-- 
2.43.0


From 1f1a2e1e8d91b28fa1bbeb38bd41f96f54e6ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:27 +0000
Subject: [PATCH 07/17] fix: base64_decode(): refuse malformed text instead of
 reading outside of the buffers

---
 src/utki/base64.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..bbede62 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -54,14 +54,23 @@ constexpr const std::array<uint8_t, size_t(std::numeric_limits<uint8_t>::max())
 	0,    0,    0,    0,    0,    0,    0,    0,    0
 };
 
+uint32_t base64_decode_char(char c)
+{
+	auto value = decode_table[uint8_t(c)];
+	if (value == 0 && c != 'A') {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: invalid character");
+	}
+	return value;
+}
+
 std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(base64_decode_char(a) << bits_per_char * 3) | //
+		(base64_decode_char(b) << bits_per_char * 2) | //
+		(base64_decode_char(c) << bits_per_char) | //
+		base64_decode_char(d);
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
@@ -77,14 +86,11 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 		return {};
 	}
 
-	size_t num_quads = str.size() / 4;
-
 	// strip out padding
 	if (str.back() == '=') {
-		if (num_quads == 0) {
+		if (str.size() % 4 != 0) {
 			throw std::invalid_argument("base64_decode(): malformed base64 string: padding is not complete");
 		}
-		--num_quads;
 
 		str = str.substr(0, str.size() - 1);
 
@@ -93,6 +99,12 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 		}
 	}
 
+	if (str.size() % 4 == 1) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: last group is not complete");
+	}
+
+	size_t num_quads = str.size() / 4;
+
 	std::vector<uint8_t> ret;
 
 	auto i = str.begin();
-- 
2.43.0


From f6b7069c3e2e4afa36e96a3a52574e70279dc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:46 +0000
Subject: [PATCH 08/17] fix: utf8_iterator: do not step over the end of a
 null-terminated string which ends in the middle of a character

---
 src/utki/unicode.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 7860748..2bfc9a3 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -43,11 +43,9 @@ utf8_iterator::utf8_iterator(utki::span<const uint8_t> str) :
 static_assert(sizeof(char) == sizeof(uint8_t), "unexpected char size");
 
 utf8_iterator::utf8_iterator(const char* str) :
-	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-	p(reinterpret_cast<const uint8_t*>(str))
-{
-	this->operator++();
-}
+	// the end is needed to not step over the null-terminator in case the last character is incomplete
+	utf8_iterator(str ? std::string_view(str) : std::string_view())
+{}
 
 // NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers)
 
-- 
2.43.0


From 9d5a9eeb97e445f3516b998c85e604a092f4bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:15 +0000
Subject: [PATCH 09/17] fix: utf8_iterator: avoid undefined shift on malformed
 leading bytes

---
 src/utki/unicode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 2bfc9a3..6417b03 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -89,8 +89,11 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c <<= 6; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
-	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	// malformed leading bytes 0xfe and 0xff carry no bits of the character
+	if (i <= max_size_of_utf8_encoded_character) {
+		// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+		this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	}
 
 	return *this;
 }
-- 
2.43.0


From ffab8f4088585823a3919bb6317dbb4ce6786c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 10/17] fix: to_string(std::exception): do not terminate on
 exception which nests nothing

---
 src/utki/exception.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3cf84ab..39147ad 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -92,6 +92,11 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
+	// rethrow_if_nested() terminates the program if there is no nested exception
+	if (auto n = dynamic_cast<const std::nested_exception*>(&e); n && !n->nested_ptr()) {
+		return ss.str();
+	}
+
 	try {
 		std::rethrow_if_nested(e);
 	} catch (std::exception& nested) {
-- 
2.43.0


From 90895e0ff7aa3a542dfe2fafa2065c49bfffa454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 11/17] fix: tree assignment from a part of the tree itself or
 of an ancestor used the source after destroying it

---
 src/utki/tree.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index f1b6bab..7f91136 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -29,6 +29,7 @@ SOFTWARE.
 #pragma once
 
 #include <cstddef>
+#include <type_traits>
 #include <vector>
 
 #include "debug.hpp"
@@ -73,10 +74,30 @@ public:
 	container_type children;
 
 	tree(const tree&) = default;
-	tree& operator=(const tree&) = default;
-
 	tree(tree&&) = default;
-	tree& operator=(tree&&) = default;
+
+	tree& operator=(const tree& t)
+	{
+		// the assigned tree can be a part of this tree, or this tree can be a part of it,
+		// so it must be copied completely before anything is overwritten
+		container_type new_children(t.children);
+		this->value = t.value;
+		this->children = std::move(new_children);
+		return *this;
+	}
+
+	tree& operator=(tree&& t) noexcept(
+		std::is_nothrow_move_assignable_v<element_type> && //
+		std::is_nothrow_move_constructible_v<container_type> && //
+		std::is_nothrow_move_assignable_v<container_type>
+	)
+	{
+		// the assigned tree can be a part of this tree, so take everything out of it before it is overwritten
+		container_type new_children(std::move(t.children));
+		this->value = std::move(t.value);
+		this->children = std::move(new_children);
+		return *this;
+	}
 
 	~tree() = default;
 
-- 
2.43.0


From 768e9a4f55847c1ed931e4dea59005f6b7978b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 12/17] fix: make_indentation() result was cut when its length
 does not fit in 32 bits

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..0614773 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size_t(size), ' ');
 }
-- 
2.43.0


From fd5a1edd0367197d2227afbc2744f7229e0f3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 13/17] fix: limit recursion depth of sort() for C++17

Unbalanced partitions (for example, a sequence which rises up to its middle and falls
then) caused recursion as deep as half of the number of elements, overflowing the stack.
---
 src/utki/sort.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index 0aeec12..967eb8e 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -35,6 +35,7 @@ SOFTWARE.
 
 #include <algorithm>
 #include <iterator>
+#include <utility>
 
 #include "config.hpp"
 
@@ -94,13 +95,10 @@ constexpr forward_iter_type partition(forward_iter_type first, forward_iter_type
 	return first;
 }
 
-template <class random_iter_type, class comparator_type = std::less<>>
-constexpr void quick_sort(random_iter_type first, random_iter_type last, comparator_type cmp = comparator_type{})
+template <class random_iter_type, class comparator_type>
+constexpr auto partition_by_pivot(random_iter_type first, random_iter_type last, comparator_type cmp)
 {
 	auto const n = utki::sort_internal::distance(first, last);
-	if (n <= 1) {
-		return;
-	}
 	auto const pivot = *utki::sort_internal::next(first, n / 2);
 	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
 		return cmp(elem, pivot);
@@ -108,8 +106,27 @@ constexpr void quick_sort(random_iter_type first, random_iter_type last, compara
 	auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
 		return !cmp(pivot, elem);
 	});
-	quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
-	quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
+	return std::make_pair(middle1, middle2);
+}
+
+template <class random_iter_type, class comparator_type = std::less<>>
+constexpr void quick_sort(random_iter_type first, random_iter_type last, comparator_type cmp = comparator_type{})
+{
+	while (utki::sort_internal::distance(first, last) > 1) {
+		auto const middle = utki::sort_internal::partition_by_pivot(first, last, cmp);
+
+		// only the smaller part is sorted recursively, so that the recursion depth is logarithmic
+		// regardless of how unbalanced the parts are
+		if (utki::sort_internal::distance(first, middle.first) <
+			utki::sort_internal::distance(middle.second, last))
+		{
+			quick_sort(first, middle.first, cmp); // assert(std::is_sorted(first, middle.first, cmp));
+			first = middle.second;
+		} else {
+			quick_sort(middle.second, last, cmp); // assert(std::is_sorted(middle.second, last, cmp));
+			last = middle.first;
+		}
+	}
 }
 
 } // namespace sort_internal
-- 
2.43.0


From 24a0edcbf2dbbba4543285236328e0158562be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:28 +0000
Subject: [PATCH 14/17] fix: singleton object of static storage duration was
 deleted at process exit by the instance pointer

---
 src/utki/singleton.hpp | 62 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/utki/singleton.hpp b/src/utki/singleton.hpp
index f898823..d820861 100644
--- a/src/utki/singleton.hpp
+++ b/src/utki/singleton.hpp
@@ -28,7 +28,9 @@ SOFTWARE.
 
 #pragma once
 
+#include <cstddef>
 #include <memory>
+#include <utility>
 
 #include "config.hpp"
 #include "debug.hpp"
@@ -80,8 +82,64 @@ protected:
 
 	using singleton_type = intrusive_singleton<object_type>;
 
-	// use unique_ptr because it is automatically initialized to nullptr. Automatic object destruction is not used.
-	using instance_type = std::unique_ptr<object_type>;
+	// Pointer to the singleton object, automatically initialized to nullptr.
+	// It does not own the object and it is trivially destructible, so the singleton object, which can also be of static
+	// storage duration, is never destroyed by it and can outlive any static objects.
+	class instance_type
+	{
+		object_type* ptr = nullptr;
+
+	public:
+		constexpr instance_type() noexcept = default;
+
+		instance_type(const instance_type&) = delete;
+		instance_type& operator=(const instance_type&) = delete;
+
+		instance_type(instance_type&&) = delete;
+		instance_type& operator=(instance_type&&) = delete;
+
+		~instance_type() = default;
+
+		object_type* get() const noexcept
+		{
+			return this->ptr;
+		}
+
+		void reset(object_type* p) noexcept
+		{
+			this->ptr = p;
+		}
+
+		object_type* release() noexcept
+		{
+			return std::exchange(this->ptr, nullptr);
+		}
+
+		object_type& operator*() const noexcept
+		{
+			return *this->ptr;
+		}
+
+		object_type* operator->() const noexcept
+		{
+			return this->ptr;
+		}
+
+		explicit operator bool() const noexcept
+		{
+			return this->ptr != nullptr;
+		}
+
+		bool operator==(std::nullptr_t) const noexcept
+		{
+			return this->ptr == nullptr;
+		}
+
+		bool operator!=(std::nullptr_t) const noexcept
+		{
+			return this->ptr != nullptr;
+		}
+	};
 
 public:
 	// NOLINTNEXTLINE(bugprone-crtp-constructor-accessibility, "false positive")
-- 
2.43.0


From a7c49d9f07963f55dedc6edaeac82d775caad267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 15/17] fix: sort() for C++17 lost elements of sequences whose
 iterators give proxies, e.g. std::vector<bool>

---
 src/utki/sort.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index 967eb8e..e44d8ea 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -62,7 +62,8 @@ constexpr auto distance(random_iter_type first, random_iter_type last)
 template <class forward_iter_1_type, class forward_iter_2_type>
 constexpr void iter_swap(forward_iter_1_type a, forward_iter_2_type b)
 {
-	auto temp = std::move(*a);
+	// not 'auto', because dereferencing the iterator can give a proxy object, e.g. for std::vector<bool>
+	typename std::iterator_traits<forward_iter_1_type>::value_type temp = std::move(*a);
 	*a = std::move(*b);
 	*b = std::move(temp);
 }
@@ -99,7 +100,7 @@ template <class random_iter_type, class comparator_type>
 constexpr auto partition_by_pivot(random_iter_type first, random_iter_type last, comparator_type cmp)
 {
 	auto const n = utki::sort_internal::distance(first, last);
-	auto const pivot = *utki::sort_internal::next(first, n / 2);
+	typename std::iterator_traits<random_iter_type>::value_type const pivot = *utki::sort_internal::next(first, n / 2);
 	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
 		return cmp(elem, pivot);
 	});
-- 
2.43.0


From 9430ebf984433fa6d7261acf591f2a01a5b70256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 16/17] fix: linq where() gave moved-from elements when the
 predicate takes its argument by value

---
 src/utki/linq.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 735ce50..9daa611 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -173,7 +173,10 @@ public:
 			std::make_move_iterator(this->collection.begin()),
 			std::make_move_iterator(this->collection.end()),
 			std::inserter(ret, ret.end()),
-			func
+			// the iterators give rvalues, do not let the functor which takes its argument by value move the element out
+			[&func](const value_type& v) {
+				return func(v);
+			}
 		);
 
 		return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
-- 
2.43.0


From f4510c0b5103fdedba734835e9f74e392d36df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 17/17] fix: report of a failed assertion was lost when its
 source location has no file name

---
 src/utki/debug.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/debug.cpp b/src/utki/debug.cpp
index 6c2bd78..10425a9 100644
--- a/src/utki/debug.cpp
+++ b/src/utki/debug.cpp
@@ -65,7 +65,9 @@ void utki::assert_always(
 	}
 
 	std::stringstream ss;
-	ss << source_location.file_name() << ":" << source_location.line() << ": ";
+	// default-constructed source_location has no file name, and outputting a nullptr would break the stream
+	const auto* file_name = source_location.file_name();
+	ss << (file_name ? file_name : "unknown") << ":" << source_location.line() << ": ";
 
 	if (is_terminal_cerr()) {
 #if CFG_COMPILER == CFG_COMPILER_MSVC && CFG_COMPILER_MSVC_TOOLS_V <= 141
-- 
2.43.0

