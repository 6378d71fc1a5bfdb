From c77226721a5d4e6adaeee44dac97c4355e79540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 01/72] fix: reduce every negative multiple of N to the neutral
 element in C<N>'s constructor

---
 include/Conserved/quantity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..0815814 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,7 +93,7 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val(((_val % N) < 0) * N + (_val % N))
 	{
 		/*
 		 * A quick explanation of the init line for val:
-- 
2.43.0


From 61a6d99ec1132e2bc88e0ffc324e003469297e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 02/72] fix: C<N>::op no longer overflows its 16-bit storage
 when N > 2^15

---
 include/Conserved/quantity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 0815814..79b8087 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,8 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		const int sum = val + cond * other.val; // can exceed the range of uint16_t when N > 2^15
+		val = sum - (sum >= N) * N;
 		return *this;
 	}
 
-- 
2.43.0


From 37cb93901cff3bc9a30544a2d51b041153d7a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 03/72] fix: any_quantity's copy assignment can change the
 underlying type, as documented

---
 include/Conserved/Composite/cquantity.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..e12ac58 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,8 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	any_quantity copy(other); // not an assignment to *impl: the underlying types are allowed to differ
+	swap(copy);
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From e9db30b8cf8c809b91a2f3125d116fcc26ea3e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 04/72] fix: flat_map::erase(key) erases only the requested key

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..8f49dc1 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -585,7 +585,7 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-- 
2.43.0


From f1193583b5d76042c17e6523e05246050d3f0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 05/72] fix: flat_map's const hint window contains the
 insertion point

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 8f49dc1..c4da04c 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -757,7 +757,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From b274dc1b090c310782ddbd4b6b449b9f99bdb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 06/72] fix: flat_map::lower_bound and upper_bound do not read
 past the end

---
 include/blockTensor/flat_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index c4da04c..e0265c0 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -693,28 +693,28 @@ class flat_map
 	iterator lower_bound(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it != end() and comp(k, *it))
 			it = end();
 		return it;
 	}
 	const_iterator lower_bound(const key_type &k) const
 	{
 		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
+		if (it != end() and comp(k, *it))
 			it = end();
 		return it;
 	}
 	iterator upper_bound(const key_type &k)
 	{
 		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it != end() and comp(*it, k))
 			it = end();
 		return it;
 	}
 	const_iterator upper_bound(const key_type &k) const
 	{
 		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it != end() and comp(*it, k))
 			it = end();
 		return it;
 	}
-- 
2.43.0


From d0af75f5b36e2dbd8e21e9d8d2d3c447d757ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 07/72] fix: hinted flat_map::emplace returns the existing
 element when the key is present

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index e0265c0..388cb18 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -520,6 +520,8 @@ class flat_map
 			it.it = content.emplace(hint.it, std::move(val));
 			success = true;
 		}
+		else
+			it = erase(hint, hint); // convert the const_iterator in an iterator
 		return std::make_pair(it, success);
 	}
 	template <class... Args>
-- 
2.43.0


From 5335addd4e064d915abf17a6512a42803f1ce20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 08/72] fix: merging flat_maps applies the no-collision action
 to newly inserted elements only

---
 include/blockTensor/flat_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 388cb18..58cac2e 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -421,7 +421,8 @@ class flat_map
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
 		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		// elements of this that never had to move are not new: only [move_to_end - (last - first), move_to_end) is.
+		std::for_each(move_to_end - lastmfirst, move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From 547263945cb1be550e2f7f30684aaaf5c30f58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 09/72] fix: flat_map can be built from an empty range

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 58cac2e..b6f376a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -780,6 +780,8 @@ class flat_map
 	typename content_t::iterator filter_unique(typename content_t::iterator first, typename content_t::iterator last,
 	                                           Collision &&collision)
 	{ // no collision get applied to all elements, instead of just the new element inserted.
+		if (first == last)
+			return last;
 		using std::swap;
 		auto l = first;
 		auto second = std::upper_bound(first, last, *l, comp);
-- 
2.43.0


From 2f99f656e646fe6c4eb415c85e28fa6689e5282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 10/72] fix: merging a temporary flat_map applies the
 no-collision action to the right elements

---
 include/blockTensor/flat_map.h | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index b6f376a..1edc253 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -623,26 +623,9 @@ class flat_map
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
 	           NoCollision &&nocollision)
 	{
-		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
-		{
-			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
-			insert(
-			    source.begin(), source.end(),
-			    [collision](auto &a, auto &b) {
-				    // b is const in the context that call this lambda function.
-				    // But in this present context, we know it's actually a reference to a non-const value.
-				    // Casting away const in order to change a value should almost never be used.
-				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
-				    std::swap(a, c);
-				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
-		}
-		else
-		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
-		}
+		// source's resources can't be reused here: nocollision must be applied to the elements coming from source.
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
 	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
-- 
2.43.0


From 9ec67a28fbc9a41ba400869106bd9a9b179b1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 11/72] fix: a flat_map built from raw content has unique keys

---
 include/blockTensor/flat_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 1edc253..6584ba9 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -148,8 +148,13 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
+	flat_map(const content_t &in) : flat_map(content_t(in)) {}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From c76157d3353a57e2e8aa0b73ec9eff2f8b4adcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 12/72] fix: section accessors reject out of range dimensions
 and sections

---
 sources/btensor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..2f34652 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -56,19 +56,19 @@ auto promote_types(caffe2::TypeMeta a, caffe2::TypeMeta b)
 	return at::promote_types(at::typeMetaToScalarType(a), at::typeMetaToScalarType(b));
 }
 
-void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, size_t section_size)
+void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, const btensor::index_list &sections_by_dim)
 {
 	if (index >= rank)
 		throw std::invalid_argument(fmt::format("given index {} is too large for rank {}.", index, rank));
-	if (block >= section_size)
-		std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
-		                                  section_size, index, block));
+	if (block >= static_cast<size_t>(sections_by_dim[index]))
+		throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+		                                        sections_by_dim[index], index, block));
 }
 
 size_t btensor::section_size(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 	assert(index < sections_by_dim.size());
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
@@ -78,7 +78,7 @@ size_t btensor::section_size(size_t index, size_t block) const
 any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return c_vals[ori + block];
@@ -125,7 +125,7 @@ std::tuple<any_quantity_vector::iterator, any_quantity_vector::iterator> btensor
 std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return std::tuple<size_t, any_quantity_cref>(sections_sizes[ori + block], any_quantity_cref(c_vals[ori + block]));
-- 
2.43.0


From 45985855a038621aa8bf526fd86c4fac23271064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 13/72] fix: btensor::block rejects block indices of the wrong
 length or out of range

---
 sources/btensor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2f34652..5ec35b5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -386,7 +386,14 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < block_index.size(); ++i)
+	{
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(fmt::format("block index {} is out of range along dimension {}, which has {} sections",
+			                                        block_index, i, sections_by_dim[i]));
+	}
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From 92440688214ca6b0a14329a551dce2993599d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 14/72] fix: check_tensor diagnoses malformed structures
 instead of reading out of bounds

---
 sources/btensor.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 5ec35b5..dd2ec60 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -425,21 +425,34 @@ std::string btensor::check_tensor(const btensor &T)
 		M += fmt::format(
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
+	if (T.c_vals.size() != T.sections_sizes.size())
+		M += fmt::format("number of conserved quantities ({}) incoherent with number of specified section sizes ({})\n",
+		                 T.c_vals.size(), T.sections_sizes.size());
+	if (M != "")
+		return M; // the blocks can't be looked up in an incoherent structure.
 
 	for (const auto &a : T.blocks_list)
 	{
 		auto &ind = std::get<0>(a);
 		if (ind.size() != T.rank)
+		{
 			M += fmt::format("block index {} invalid: number of index differ from rank", std::get<0>(a));
+			continue;
+		}
+		bool index_in_range = true;
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
 			for (auto i = 0U; i < ind.size(); ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
+				if (!(ind[i] >= 0 and ind[i] < T.sections_by_dim[i]))
+				{
 					M += fmt::format(
 					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
 					    ind, i, T.sections_by_dim[i]);
+					index_in_range = false;
+					continue;
+				}
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
@@ -451,6 +464,8 @@ std::string btensor::check_tensor(const btensor &T)
 				                 ind, T.selection_rule.value, cq);
 			}
 		} // destroy cq
+		if (!index_in_range)
+			continue;
 		auto sizes = std::get<1>(a).sizes();
 		if (sizes.size() != T.rank)
 			M += fmt::format("block with index {} has rank ({}) incompatible with the btensor ({})\n", ind,
-- 
2.43.0


From 92c36edc02a3c6113c74ae55d18a11fd49f5a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 15/72] fix: cval_shift_ keeps the stored blocks allowed by the
 selection rule

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dd2ec60..787a7e2 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2202,7 +2202,7 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
 	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	selection_rule.value *= shift;
 	return *this;
 }
 
-- 
2.43.0


From d898346425d8b32bc05da95ac260c0bee81969ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 16/72] fix: options of btensor::mul and div by a scalar match
 the blocks they produce

---
 sources/btensor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 787a7e2..4b1f53f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -991,10 +991,14 @@ btensor btensor::div(btensor::Scalar other) const
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
 	auto out_dtype = promote_types(_options.dtype(), other.type());
-	return btensor(*this,
-	               new_block_list_apply_to_all_blocks(
-	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
-	               out_dtype);
+	auto out_list = new_block_list_apply_to_all_blocks(
+	    [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other);
+	auto opt = torch::TensorOptions(out_dtype);
+	if (out_list.size())
+	{
+		opt = out_list.begin()->second.options();
+	}
+	return btensor(*this, std::move(out_list), opt);
 }
 struct mul_helpers
 {
-- 
2.43.0


From 4c2096e396e1d90d6ec1f2c63feb02a1fd27e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 17/72] fix: options of btensor::mul by a scalar match the
 blocks it produces

---
 sources/btensor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4b1f53f..19aac2a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -925,10 +925,14 @@ btensor btensor::mul(Scalar other) const
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
 	auto out_dtype = promote_types(_options.dtype(), other.type());
-	return btensor(*this,
-	               new_block_list_apply_to_all_blocks(
-	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other),
-	               out_dtype);
+	auto out_list = new_block_list_apply_to_all_blocks(
+	    [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other);
+	auto opt = torch::TensorOptions(out_dtype);
+	if (out_list.size())
+	{
+		opt = out_list.begin()->second.options();
+	}
+	return btensor(*this, std::move(out_list), opt);
 }
 btensor btensor::le(btensor::Scalar other) const
 {
-- 
2.43.0


From bc625801170577502ef5078ab5068267b3b80c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 18/72] fix: in-place division by a scalar gives the result of
 the out-of-place one

---
 sources/btensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 19aac2a..10112de 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -985,8 +985,7 @@ btensor btensor::greater(btensor::Scalar other) const
 }
 btensor &btensor::div_(btensor::Scalar other)
 {
-	auto other_ = 1 / torch::full({}, other, options());
-	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.mul_(other_val); }, other_);
+	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.div_(other_val); }, other);
 	return *this;
 }
 btensor btensor::div(btensor::Scalar other) const
-- 
2.43.0


From 94cdf3f9a7366b485d55f73f24d642a31306ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 19/72] fix: dividing a scalar by a btensor fills the result

---
 sources/btensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 10112de..7e2d083 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3189,8 +3189,10 @@ btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
 	auto out = quantit::sparse_zeros_like(B);
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+	{
+		out.block(in.first) = A / in.second;
+	}
 	return out;
 }
 /**
-- 
2.43.0


From ee82fb3a05308bb2fb025b7f9b7c0f876b6b2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 20/72] fix: broadcasting keeps the sections of the dimension
 that is not a singleton

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7e2d083..136b922 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1066,14 +1066,14 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (not(*it & 2)) // this dimension of the larger tensor isn't a singleton
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // it is: the smaller tensor sets the size
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From 8973c878f66ba86b0cc05eeccc63d6982750e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 21/72] fix: broadcasting rejects sections of different sizes

---
 sources/btensor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 136b922..e3ef132 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1045,6 +1045,16 @@ struct mul_helpers
 						                *larger_sec, larger_tensor.section_size(larger_rank - n, 0), smaller_rank - n));
 					}
 				}
+				if (not(*it))
+				{
+					auto [small_begin, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [large_begin, large_end] = larger_tensor.section_sizes(larger_rank - n);
+					if (not std::equal(small_begin, small_end, large_begin, large_end))
+						throw std::invalid_argument(
+						    fmt::format("section sizes {} and {} differ at non-singleton dimension {}",
+						                fmt::join(small_begin, small_end, ","), fmt::join(large_begin, large_end, ","),
+						                larger_rank - n));
+				}
 				++n;
 			}
 		}
-- 
2.43.0


From 7a57e2dfb271ed95a06d51f4333728649f683c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 22/72] fix: in-place broadcasting power uses the out-of-place
 operation where the shape changes

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e3ef132..dde1f26 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1783,8 +1783,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From 0630fb7c69c6f284a5104fa3ecfab3c4c6d343a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 23/72] fix: in-place broadcasting rejects an operand of larger
 rank

---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dde1f26..b2875bb 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1251,6 +1251,10 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// The larger and smaller identification buisiness can be mostly illiminated: the output MUST be the larger one in
 	// rank for the inplace case. This is a bit of a silly decision on torch's part, since it allow reallocation if the
 	// tensor has a large enough rank.
+	if (rank < other.rank)
+		throw std::invalid_argument(
+		    fmt::format("the rank ({}) of the output of an in-place operation is smaller than the rank ({}) of its operand",
+		                rank, other.rank));
 
 	const auto &smaller_rank = std::min(rank, other.rank);
 	const auto &larger_rank = std::max(rank, other.rank);
-- 
2.43.0


From 457fbace127cd9247c98a7f3895c91023c8182f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 24/72] fix: shape comparisons distinguish how the sections are
 distributed over the dimensions

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b2875bb..355008e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2265,7 +2265,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes) or
+	    !(a.sections_by_dim == b.sections_by_dim))
 		return false;
 	return true;
 }
@@ -2276,7 +2277,7 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
-	if (!(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
 
-- 
2.43.0


From 1934229ade3d9a1253ce957fc9364d8fa88e8147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 25/72] fix: contractions reject dimensions whose sections have
 different sizes

---
 sources/btensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 355008e..938d761 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -840,6 +840,14 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 			const auto dims2i = dims2[i];
 			TORCH_CHECK(ok_CR, fmt::format(mismatch_cons_rule, dims1i, dims2i));
 		}
+		auto [size1, size1_end] = in1.section_sizes(dims1[i]);
+		auto [size2, size2_end] = in2.section_sizes(dims2[i]);
+		ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);
+		if constexpr (Throws)
+		{
+			TORCH_CHECK(ok_CR, "contracted sections need to have the same sizes, but dim ", dims1[i],
+			            " of the left tensor and dim ", dims2[i], " of the right tensor differ");
+		}
 		// no broadcast dimension like torch::tensordot. i can't think of a way for it to make sense
 		// with the quantum number.
 	}
-- 
2.43.0


From 1c71dba0dde2180e657cd1f84a4998646ca1f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 26/72] fix: the sum of a btensor has a neutral selection rule

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 938d761..1188791 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1549,7 +1549,7 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From 8878570f6f5ef21ddb2430b33a77c1d9ed8f0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 27/72] fix: out-of-place addition of a temporary leaves its
 left operand unchanged

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1188791..dfaf946 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2741,6 +2741,10 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	for (auto &a : out)
+	{
+		std::get<1>(a) = std::get<1>(a).clone();
+	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
@@ -2758,7 +2762,8 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	out._options = std::get<1>(*out.begin()).options();
+	if (out.begin() != out.end())
+		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From b093cbec3a6d949c4cc2679eb891b649259b510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 28/72] fix: shape_from rejects negative indices other than -1

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dfaf946..30de8d3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -529,7 +529,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;
 			++it_dims;
 			++it_size;
 		}
-- 
2.43.0


From 563e61f4dd41aac2ad0e6a95de8d5261eeac69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 29/72] fix: basic_create_view tests every fixed index of a
 block

---
 sources/btensor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 30de8d3..9551177 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -697,13 +697,15 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+			{
+				*out_it = *index_it;
+				++out_it;
+			}
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From c592af48a1801b088bfa86436fd9b0103bd17189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 30/72] fix: basic_index_put_ stays within the block index of
 the value

---
 sources/btensor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9551177..910b244 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -742,9 +742,11 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (*ito == -1)
+			{
+				*ito = *itv;
+				++itv;
+			}
 		}
 		return out;
 	};
-- 
2.43.0


From e037d129377d3a38a149dc478a7195b9fa6396ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 31/72] fix: bmm of rank 2 tensors has no batch dimension to
 compare

---
 sources/btensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 910b244..7e832b3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1191,6 +1191,7 @@ struct mul_helpers
 					                *a_sbd, *b_sbd, i));
 			}
 		}
+		if (a.rank > 2)
 		{ // check for compatible section sizes in batch dimensions
 			auto [a_start, a_end] = a.section_sizes(a.rank - 3);
 			auto [b_start, b_end] = b.section_sizes(b.rank - 3);
-- 
2.43.0


From edc5b3eaa9125512946ec9cf89c2ed436544247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 32/72] fix: shape_from for torch shapes stays within its
 output

---
 sources/btensor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7e832b3..109be5b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2354,8 +2354,11 @@ torch_shape shape_from(const torch_shape &shape, const std::vector<int64_t> inds
 	{
 		for (auto &ind : inds)
 		{
-			*it = *shape_it;
-			it += ind == -1;
+			if (ind == -1)
+			{
+				*it = *shape_it;
+				++it;
+			}
 			++shape_it;
 		}
 	}
-- 
2.43.0


From c1a80e1299dbcba0d67894881f696748dcc3c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 33/72] fix: any() of a btensor without blocks is false

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 109be5b..4ca6604 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3168,7 +3168,7 @@ torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
 	if (it == this->end())
-		return torch::Tensor();
+		return torch::zeros({}, torch::kBool);
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
-- 
2.43.0


From df2676d424eb7da0b789769d8541731b302727f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 34/72] fix: options of Scalar / btensor match the blocks

---
 sources/btensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4ca6604..af2249b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3223,7 +3223,10 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
 }
 btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
-	auto out = quantit::sparse_zeros_like(B);
+	torch::TensorOptions opt;
+	if (B.begin() != B.end())
+		opt = (A / B.begin()->second).options();
+	auto out = quantit::sparse_zeros_like(B, opt);
 	out.reserve_space_(std::distance(B.begin(), B.end()));
 	for (const auto &in : B)
 	{
-- 
2.43.0


From 434aebcdaeb7ea6c6998811316312b2328cd92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 35/72] fix: shifting conserved quantities by one of the
 tensor's own quantities shifts all by the same amount

---
 sources/btensor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index af2249b..1c25b94 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2235,8 +2235,9 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
-	shift_impl(shift, dim);
-	selection_rule.value *= shift;
+	const any_quantity amount(shift); // the argument can be one of the quantities modified here.
+	shift_impl(amount, dim);
+	selection_rule.value *= amount;
 	return *this;
 }
 
@@ -2244,7 +2245,8 @@ btensor &btensor::non_conserving_cval_shift_(any_quantity_cref shift, int64_t di
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
-	shift_impl(shift, dim);
+	const any_quantity amount(shift); // the argument can be one of the quantities modified here.
+	shift_impl(amount, dim);
 	return *this;
 }
 
-- 
2.43.0


From 99dcff033fc6cbbec5cb6c4530bedabcbb16621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 36/72] fix: squeeze of a dimension counted from the end or out
 of range reads out of bounds

---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1c25b94..57258b1 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2175,6 +2175,9 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 }
 btensor &btensor::squeeze_(int64_t dim)
 {
+	dim += rank * (dim < 0);
+	if (dim < 0 or static_cast<size_t>(dim) >= rank)
+		throw std::invalid_argument(fmt::format("cannot squeeze dimension {} of a rank {} tensor", dim, rank));
 	if (section_number(dim) == 1 and section_size(dim, 0) == 1)
 	{ // do the squeeze
 		std::vector<int64_t> res(this->dim(), -1);
-- 
2.43.0


From 0c3baf03c4b159b4e94f1ca9047d6fb70a6b5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 37/72] fix: contraction with a rank 0 tensor never terminates

---
 sources/btensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 57258b1..14e861f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2115,12 +2115,15 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		{
 			// assert(out_list_it != out_list.end());
 			auto other_curr_block = t2.begin();
-			auto this_col_end = std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
-			                                     less); // also the next column start if it's not the end.
+			auto this_col_end = rank == 0 ? t1.end() // the single block of a scalar is the whole column.
+			                              : std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
+			                                                 less); // also the next column start if it's not the end.
 			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop over all the columns of other
 			{
 				auto this_curr_block = this_col_start;
-				auto other_col_end = std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
+				auto other_col_end =
+				    other.rank == 0 ? t2.end()
+				                    : std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
 				cpt_output_block(this_curr_block, other_curr_block); // side effect: update out_block_index
 				// if (!out_btens.block_conservation_rule_test(out_block_index))// not worth it with 50 site heisenber
 				// model dmrg
-- 
2.43.0


From b91f38ce9a436c10d0849ae05dafed67741facc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 38/72] fix: contract() refuses an operator whose length
 differs from the states'

---
 sources/MPT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..28c2f83 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -211,6 +211,7 @@ bool bMPS::check_ranks() const
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edge, const btensor &right_edge)
 {
 	assert(a.size() == b.size());
+	assert(a.size() == obs.size());
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -235,6 +236,7 @@ torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs, torch::Tensor
                        const torch::Tensor &right_edge)
 {
 	assert(a.size() == b.size());
+	assert(a.size() == obs.size());
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
-- 
2.43.0


From 946126c53d04c80e96470586482aba1c8f901d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 39/72] fix: edge_shape_prep doesn't depend on the order of
 evaluation of arguments

---
 sources/dmrg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..1de6ea8 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -339,7 +339,9 @@ auto edge_shape_prep_impl(const shape_t &tens, int64_t dim)
 	tens_vec[dim] = -1;
 	auto Shape = shape_from(tens, tens_vec);
 	Shape.neutral_selection_rule_();
-	return shape_from(Shape.inverse_cvals_(), shape_from(Shape, {0}));
+	// taken before Shape is inversed: the order in which arguments are evaluated is unspecified.
+	const auto flux = shape_from(Shape, {0});
+	return shape_from(Shape.inverse_cvals_(), flux);
 }
 btensor details::edge_shape_prep(const btensor &tens, int64_t dim) { return edge_shape_prep_impl(tens, dim); }
 torch_shape details::edge_shape_prep(const torch_shape &tens, int64_t dim) { return edge_shape_prep_impl(tens, dim); }
-- 
2.43.0


From 8a5550159a1fb3fb7080398979ba9bf8d8a51560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 40/72] fix: conserved quantities of the bonds of the block
 Heisenberg operator

---
 sources/models.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..5dce371 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -93,7 +93,8 @@ bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
 	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	any_quantity raised = p(1)*p(0).inverse(); // the difference between the local states
+	auto left_bond = btensor({{{1,neutral},{1,raised},{1,raised.inverse()},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 45df9f7dd6b673ca33835159d962e99954ddbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 41/72] fix: the orthogonality center declared after dmrg is
 the actual one

---
 sources/dmrg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 1de6ea8..cdab489 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -262,6 +262,9 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
+	// During the sweeps, oc is the position of the leftmost site of the pair to update. The last update left the actual
+	// orthogonality center on either site of the previous pair, that is, at oc or oc + 1: moving from oc + 1 works for both.
+	++oc;
 	if (oc != init_pos)
 		in_out_state.move_oc(init_pos);
 
@@ -321,10 +324,9 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
-	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
-	// such the site 0 and 1 are updated together once by the next rightward sweep.
-	// this trickery is necessary to get this optimization without writing special code in the sweeper.
+	// During the sweeps, oc is the position of the leftmost site of the pair to update. The last update left the actual
+	// orthogonality center on either site of the previous pair, that is, at oc or oc + 1: moving from oc + 1 works for both.
+	++oc;
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
-- 
2.43.0


From 940dfaea3f5e6b7deb94e3b9aae71ee950913011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 42/72] fix: DMRG keeps a state that the Hamiltonian leaves in
 place

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index cdab489..be826e5 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -634,6 +634,10 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
 	// {}\n\n",psi_ip.item().toDouble(),a0.item().toDouble(),a1.item().toDouble(),b.item().toDouble());
 	// print("\ta0 {} a1 {} b {}\n", a0.item().toDouble(), a1.item().toDouble(), b.item().toDouble());
+	// the Hamiltonian leaves the state in place: there is no other vector to combine it with.
+	btensor::Scalar not_an_eigenstate = ge(b.abs(), 1e-15).item();
+	if (!not_an_eigenstate.to<bool>())
+		return std::make_tuple(a0, state);
 	auto [E, o_coeff, n_coeff] = eig2x2Mat(a0, a1, b);
 	// print("\tE: {} O: {} N: {}\n", E.item().toDouble(), o_coeff.item().toDouble(), n_coeff.item().toDouble());
 	auto psi_update = o_coeff * state + n_coeff * psi_ip;
-- 
2.43.0


From cd8dcada7fc9fbdb8c6de41cc7250a0d067254e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 43/72] fix: eigh of a block tensor for a split called itself
 forever

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..fdcf3f1 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -371,7 +371,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true)); // we want the eigenvectors.
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From 1497b822e2e8746d1e960415c6975abc6a46e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 44/72] fix: selection rule of the eigenvectors of a block
 tensor

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index fdcf3f1..eb89554 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -325,9 +325,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From e214fa3c84c2f97a8231028d49451ca59bc47f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 45/72] fix: columns of dense sectors are in the order of their
 index

---
 sources/btensor_linalg.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index eb89554..1e39e37 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -117,10 +117,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 		                            [](const auto &a, const auto &b) { return std::get<0>(a) < b; });
 		if (pos == encountered_block_col.end() or std::get<0>(*pos) != col)
 		{
-			auto slice_end = col_acc + it->second.sizes()[rank - 1];
-			encountered_block_col.emplace(pos, col, torch::indexing::Slice(col_acc, slice_end));
-			col_size += it->second.sizes()[rank - 1];
-			col_acc = slice_end;
+			encountered_block_col.emplace(pos, col, torch::indexing::Slice(0, it->second.sizes()[rank - 1]));
 		}
 		if (cur_row != it->first[rank - 2])
 		{
@@ -131,6 +128,14 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	// the columns are in the order of their index, like the rows, whatever the order in which they were encountered.
+	for (auto &col : encountered_block_col)
+	{
+		auto slice_end = col_acc + std::get<1>(col).stop();
+		std::get<1>(col) = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
+	col_size = col_acc;
 	auto out_tensor = torch::zeros(tensor_size);
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
-- 
2.43.0


From 3583cccb2cac479139dcca8de1e65ea19933d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 46/72] fix: dense sectors have the type and device of their
 blocks

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1e39e37..f77f43f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -136,7 +136,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 		col_acc = slice_end;
 	}
 	col_size = col_acc;
-	auto out_tensor = torch::zeros(tensor_size);
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From c5f47789ef97bd2c999a3c57c168fd32f901100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 47/72] fix: singular values and eigenvalues of complex block
 tensors are real

---
 sources/btensor_linalg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index f77f43f..324e915 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -326,7 +326,9 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	             .neutral_shape_()
+	             .to(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))); // they're real numbers.
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
@@ -438,7 +440,9 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	             .neutral_shape_()
+	             .to(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))); // they're real numbers.
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-- 
2.43.0


From 1955dd913988fa4545510bd4837549fbd3cc330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 48/72] fix: truncation removes all the unitary blocks of a
 removed section

---
 sources/btensor_linalg.cpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 324e915..4010468 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -695,23 +695,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
-		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
-		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
+		auto last = std::remove_if(unitary.begin(), unitary.end(), [&d_ind](const auto &block)
+		                           { return std::get<0>(block).back() == d_ind.back(); });
+		unitary.blocks_list.resize(std::distance(unitary.begin(), last));
 	};
 	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
 	{
-- 
2.43.0


From e8241039bbabc643a63584d6e6ba52e3590de02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 49/72] fix: truncation keeps the requested minimum of exact
 zeros

---
 sources/btensor_linalg.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 4010468..5521008 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -684,7 +684,10 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
 	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
+	const auto n_kept = compute_last_index(vd, tol, pow, min, max) + 1;
+	auto smallest_value = vd.index({torch::indexing::Ellipsis, n_kept - 1});
+	// exact zeros can't be told apart by their values, count how many are kept.
+	int64_t n_zero = (vd.index({torch::indexing::Slice(0, n_kept)}) == 0).sum().item().toLong();
 	smallest_value -=
 	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
 	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
@@ -722,6 +725,12 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		// fmt::print("last_index! {}\n\n", db > smallest_value);
 		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
 		auto last_index = lower_bound(db, smallest_value.item());
+		if (n_zero > 0)
+		{ // smallest_value is zero, the remainder of the block is zeros
+			auto n_more = std::min(n_zero, db.size(0) - last_index);
+			last_index += n_more;
+			n_zero -= n_more;
+		}
 		if (last_index == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
-- 
2.43.0


From a1c13356dcebeceb1b805c7a1db850e76169c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 50/72] fix: truncation of a decomposition without values

---
 sources/btensor_linalg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 5521008..cfae5b7 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -680,6 +680,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
 		n += l;
 	}
+	if (n == 0)
+		return std::make_tuple(std::move(d), std::move(unitaries)); // nothing to truncate
 	// quantit::print(vd);
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
-- 
2.43.0


From 70a8de136e7055c5e0bec1311efa80db0f955d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 51/72] fix: truncation of an eigenvalue decomposition
 truncates its unitary

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index cfae5b7..49d4360 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -791,7 +791,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From 4d5269b93d5f1b5fae633b42c665d6986432dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 52/72] fix: truncation of dense tensors with a minimum size of
 zero

---
 sources/LinearAlgebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..50f704e 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -64,7 +64,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t last_index = Last_dim_size-1;
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	while (last_index > 0 and last_index >= min_size)
 	{
 		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
 			break;
-- 
2.43.0


From 5efc231c04bfbada520d1e063a98ac40b3ffbdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 53/72] fix: order of the arguments of the dense eigenvalue
 truncation

---
 sources/LinearAlgebra.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 50f704e..ad0e863 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -87,7 +87,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
 	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto [tu,td] = truncate(u,d,tol,min_size,max_size,pow);
+	return std::make_tuple(td,tu);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -95,7 +96,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
-- 
2.43.0


From 9f69aa6021763d4d380625a686d8fdf3a3fc12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 54/72] fix: shape_from with preserved dimensions without
 sections

---
 sources/btensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 14e861f..d88db48 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -561,9 +561,8 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		out_sel_rule.op(
-		    section_conserved_qtt(i, block_ind).inverse(),
-		    not is_slice); // when el_index is negative, block_ind should be 0 and !is_slice false, which is always ok.
+		if (not is_slice) // a preserved dimension can be without sections.
+			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();
 		++i;
 	}
 	out_sections_by_dim.resize(out_rank);
-- 
2.43.0


From 85ae5de2027e65e91198f24f900f694bfe5d0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 55/72] fix: reshape_as with dimensions without sections

---
 sources/btensor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d88db48..81e33b3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3011,10 +3011,18 @@ bool compatible_sections_by_dim(const btensor::index_list &lhs_sections_by_dim,
 	auto rhs = std::reduce(rhs_sections_by_dim.begin(), rhs_sections_by_dim.end(), 1, std::multiplies());
 	return lhs == rhs;
 }
+// a dimension without sections leaves no block at all.
+bool no_possible_block(const btensor &tens)
+{
+	auto numbers = tens.section_numbers();
+	return std::find(numbers.begin(), numbers.end(), 0) != numbers.end();
+}
 // each of those possible block have the same associated flux. (product of all the conserved quantity associated
 // with the block)
 bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 {
+	if (no_possible_block(lhs) or no_possible_block(rhs))
+		return true;
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
@@ -3037,6 +3045,8 @@ bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 // each of the possible block have the same total number of elements.
 bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 {
+	if (no_possible_block(lhs) or no_possible_block(rhs))
+		return true;
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
-- 
2.43.0


From 4921694a2654e3577c5fd2e90a72400d01f1d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 56/72] fix: index put clears the elements the value has no
 block for

---
 sources/btensor.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 81e33b3..cf342db 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -749,6 +749,22 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		}
 		return out;
 	};
+	// a block that value doesn't have stands for zeros, they replace what this tensor has there.
+	for (auto &index_block : this->blocks_list)
+	{
+		const auto &index = std::get<0>(index_block);
+		index_list value_index;
+		bool selected = true;
+		for (size_t i = 0; i < blocks.size(); ++i)
+		{
+			if (blocks[i] == -1)
+				value_index.push_back(index[i]);
+			else
+				selected &= index[i] == blocks[i];
+		}
+		if (selected and not value.blocks_list.contains(value_index))
+			std::get<1>(index_block).index_put_(element, 0);
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
-- 
2.43.0


From a226fe9fd54d264b0c0147ffbd66e5fb3ad731d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:45 +0000
Subject: [PATCH 57/72] fix: squeeze_ of dimensions with a non-neutral quantity

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index cf342db..01da5d7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2216,7 +2216,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From d4602bd63c01eb08d29b56ff8497c9820e4e2154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 58/72] fix: Hubbard with integer couplings no longer wraps
 them to 8 bits

---
 sources/models.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 5dce371..6585bc4 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -127,7 +127,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
 	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn);
-	auto Local = U * torch::matmul(n_up, n_dn) - mu * (n_up + n_dn);
+	// the couplings can be integers: an integer product would be carried out in the 8 bits of the operators.
+	auto Local = U * torch::matmul(n_up, n_dn).to(local_tens.dtype()) - mu * (n_up + n_dn).to(local_tens.dtype());
 	using namespace torch::indexing;
 	local_tens.index_put_({0, Slice(), 0, Slice()}, id);
 	local_tens.index_put_({1, Slice(), 0, Slice()}, c_up);
-- 
2.43.0


From f37464be73e3c0edd0244b8395d12730cdd9befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 59/72] fix: block Hamiltonians accept couplings below 1e-4

---
 sources/models.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 6585bc4..718f854 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,7 +71,7 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),1e-4);
+	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front());
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
@@ -81,10 +81,10 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 	size_t i =1;
 	for(; i<length-1;++i)
 	{
-		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-4);
+		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i]);
 		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));
 	}
-	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),1e-4);
+	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back());
 	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));
 	return out;
 }
-- 
2.43.0


From f989f29adfb057ec2ac840fe77c5c225188aa21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 60/72] fix: block Hamiltonians of a single site

---
 sources/models.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 718f854..4ee37d5 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,13 +71,17 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front());
+	const auto last_state = local_shape.sizes()[0]-1;
+	// the only site of a chain of one site is both its ends.
+	out.front() = from_basic_tensor_like(local_shape.basic_create_view({last_state,-1,length == 1 ? 0 : -1,-1},true),tmp_hamil.front());
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
 		fmt::print("out: {}\n\n", out.front());
 		throw std::invalid_argument(fmt::format(message,0));
 	}
+	if (length == 1)
+		return out;
 	size_t i =1;
 	for(; i<length-1;++i)
 	{
-- 
2.43.0


From c6523001887eb4772a613cceaccdb8382c36aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 61/72] fix: the model Hamiltonians refuse a chain without
 sites

---
 sources/models.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/models.cpp b/sources/models.cpp
index 4ee37d5..76f45db 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -40,6 +40,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	constexpr char errorstr[] = "{0} must be a rank 0 tensor (a scalar), the supplied {0} is rank {1}";
 	if (J.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "J", J.sizes().size()));
+	if (lenght == 0)
+		throw std::invalid_argument("a chain has at least one site");
 	auto type = torch::get_default_dtype();
 	if (!J.is_floating_point())
 		type = torch::scalarTypeToTypeMeta(torch::kInt8);
@@ -127,6 +129,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
+	if (lenght == 0)
+		throw std::invalid_argument("a chain has at least one site");
 	auto local_tens = torch::zeros({6, 4, 6, 4});
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
-- 
2.43.0


From c28d5bfb06320b09bf5ef969e1e7946251cb2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 62/72] fix: block Hubbard Hamiltonian for charges that are not
 zero on the empty site

---
 sources/models.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 76f45db..cb2baf7 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -175,7 +175,10 @@ bMPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght,const btensor& Phy
 {
 	// element: 0 empty, 1 single down electron, 2 single up electron,3 one up and one down
 	auto p = [&Phys_shape](size_t i)->any_quantity{return Phys_shape.element_conserved_qtt(0,i);};
-	auto left_bond = btensor({{{1,p(0)},{1,p(1)},{1,p(2)},{1,p(1).inverse()},{1,p(2).inverse()},{1,p(0)}}},p(0),Phys_shape.options());
+	auto neutral = p(0).neutral();
+	any_quantity first = p(1)*p(0).inverse(); // what the creation of each kind of electron adds to the empty state
+	any_quantity second = p(2)*p(0).inverse();
+	auto left_bond = btensor({{{1,neutral},{1,first},{1,second},{1,first.inverse()},{1,second.inverse()},{1,neutral}}},p(0),Phys_shape.options());
 	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());
 	MPO tmp_hamil = Hubbard(U,mu,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 1552b621d44f9638a46b65027abd0b16633eabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 63/72] fix: the spin lowering operator lowers the spin

---
 sources/models.cpp    | 4 ++--
 sources/operators.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index cb2baf7..307055a 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -99,8 +99,8 @@ bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
 	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	any_quantity raised = p(1)*p(0).inverse(); // the difference between the local states
-	auto left_bond = btensor({{{1,neutral},{1,raised},{1,raised.inverse()},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	any_quantity lowered = p(0)*p(1).inverse(); // the difference between the local states
+	auto left_bond = btensor({{{1,neutral},{1,lowered},{1,lowered.inverse()},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
diff --git a/sources/operators.cpp b/sources/operators.cpp
index b4feaeb..26310d9 100644
--- a/sources/operators.cpp
+++ b/sources/operators.cpp
@@ -82,7 +82,7 @@ std::tuple<tens,tens,tens,tens,tens> pauli()
 	}
 	{
 		auto Acc = lo.accessor<int8_t,2>();
-		Acc[0][1] = 1;
+		Acc[1][0] = 1;
 	}
 	return std::make_tuple(Sx,iSy,Sz,lo,id);
 }
-- 
2.43.0


From f6806db2fcc6b1aea0e554fb895a20f646e5c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 64/72] fix: documented order of the block Pauli operators

---
 include/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operators.h b/include/operators.h
index 5119e9a..0cab732 100644
--- a/include/operators.h
+++ b/include/operators.h
@@ -57,7 +57,7 @@ std::tuple<tens, tens, tens, tens, tens> pauli();
  * Sx and Sy cannot be returned because they do not have a well defined quantum number. To make use of conservation rule
  * with Heisenberg, Ising and other spin models, it must be done in terms of the lower/raising operator and Sz.
  * @param shape A btensor specifying the conserved quantities of the bra an ket sides of the operators.
- * @return std::tuple<btensor,btensor,btensor> lowering operator, Sz, identity
+ * @return std::tuple<btensor,btensor,btensor> Sz, lowering operator, identity
  */
 std::tuple<btensor, btensor, btensor> pauli(const btensor &shape);
 
-- 
2.43.0


From e2bb9644c438cbf7e94b93cc253245d79d9884ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 65/72] fix: full_slice gave an empty list of indices, which
 torch refuses, for tensors of rank 0

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 01da5d7..7fe61c0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2569,6 +2569,8 @@ std::vector<torch::indexing::TensorIndex> btensor::full_slice(const btensor &ten
 		// fmt::print("slice: {} {}\n\n",ori,slice_end);
 		out[i] = torch::indexing::Slice(ori, slice_end);
 	}
+	if (out.empty()) // torch refuses empty lists of indices
+		out.push_back(torch::indexing::Ellipsis);
 	return out;
 }
 torch::Tensor btensor::to_dense() const
-- 
2.43.0


From e5c16ba6acddf742f75c89f474585aa1ac9a1d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 66/72] fix: full_slice read before its list of sections for
 negative block indices

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7fe61c0..71b3a9d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2561,7 +2561,7 @@ std::vector<torch::indexing::TensorIndex> btensor::full_slice(const btensor &ten
 	{
 		auto [ss_start, ss_end] = tensor.section_sizes(i);
 		// fmt::print("dim {}, sizes {}\n",i,fmt::join(ss_start,ss_end,std::string(",") ));
-		if (block[i] >= std::distance(ss_start, ss_end))
+		if (block[i] < 0 or block[i] >= std::distance(ss_start, ss_end))
 			throw std::invalid_argument(fmt::format("the {}th block index ({}) exceed maximum allowed value ({}).", i,
 			                                        block[i], std::distance(ss_start, ss_end)));
 		auto ori = std::reduce(ss_start, ss_start + block[i], 0);
-- 
2.43.0


From a9cc96935ca36ff96bc2bea3facdc4cfcc28b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 67/72] fix: from_basic_tensor and find_selection_rule accepted
 values of other sizes than the shape

---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 71b3a9d..c22e173 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2591,6 +2591,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (values.sizes() != torch::IntArrayRef(out.sizes()))
+		throw std::invalid_argument("input arguments have incompatible sizes!");
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
@@ -2680,6 +2682,8 @@ any_quantity find_selection_rule(const torch::Tensor &tens, const btensor &shape
 		throw std::invalid_argument("the input tensor must be rank 2");
 	if (shape.dim() != 2)
 		throw std::invalid_argument("the shape specifying btensor must be rank 2");
+	if (tens.sizes() != torch::IntArrayRef(shape.sizes()))
+		throw std::invalid_argument("the input tensor must have the sizes of the shape specifying btensor");
 	auto state = torch::zeros(tens.sizes()[tens.dim() - 1], tens.options());
 	auto quantitiesi = [&shape](size_t element_pos, size_t dim) -> const vquantity &
 	{ // return type must be specified, because return by value isn't an option here.
-- 
2.43.0


From 2c46037e2b3524502c950ee228a73080c9ca63a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 68/72] fix: from_basic_tensor dropped blocks that contain NaN

---
 sources/btensor.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c22e173..7b4d7eb 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2603,11 +2603,11 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
 			auto block = values.index(torch::ArrayRef(S));
-			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
-			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
-			                                2, {}, false, {}) > cutoff)
-			        .item()
-			        .toBool()) // only insert the block if it's a significative quantity.
+			if (!(torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
+			                                     torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
+			                                 2, {}, false, {}) <= cutoff)
+			         .item()
+			         .toBool()) // only insert the block if it's a significative quantity.
 				out.block(index) = block;
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
-- 
2.43.0


From 4c9b2f086278ca876ff368b8971d9bdf2a16b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 69/72] fix: from_basic_tensor and from_basic_tensor_like
 announced options that their blocks do not have

---
 sources/btensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7b4d7eb..a523209 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2608,7 +2608,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                 2, {}, false, {}) <= cutoff)
 			         .item()
 			         .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.to(out.options());
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
@@ -2617,14 +2617,14 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 btensor from_basic_tensor(const btensor::vec_list_t &shape_spec, any_quantity selection_rul,
                           const torch::Tensor &values, const torch::Scalar cutoff, c10::TensorOptions opt)
 {
-	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt);
+	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, values.options().merge_in(opt));
 	from_basic_impl(shape, values, cutoff);
 	return shape;
 }
 btensor from_basic_tensor_like(const btensor &shape, const torch::Tensor &values, const torch::Scalar cutoff,
                                c10::TensorOptions opt)
 {
-	auto out = quantit::sparse_zeros_like(shape, opt);
+	auto out = quantit::sparse_zeros_like(shape, values.options().merge_in(opt));
 	from_basic_impl(out, values, cutoff);
 	return out;
 }
-- 
2.43.0


From 084896f7f46883442e17217fcae2c0c905b33576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 70/72] fix: allclose took its tolerance from the wrong side
 for blocks that only the second tensor has

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a523209..bd6879d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2648,7 +2648,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 		}
 		else if (a_index > b_index)
 		{
-			is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+			is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 			++b_it;
 		}
 		else // equal index
@@ -2670,7 +2670,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 	{
 		const auto &b_index = std::get<0>(*b_it);
 		const auto &b_tens = std::get<1>(*b_it);
-		is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+		is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 		++b_it;
 	}
 	return is_allclose;
-- 
2.43.0


From 0cbbf79cddb472c76fa079bfb70158dde8644784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 71/72] fix: the factories and from_basic_tensor read past
 their sections when a dimension has none

---
 sources/btensor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bd6879d..7676804 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2409,6 +2409,11 @@ size_t get_refcount(const torch::Tensor &tens)
 	return refcount_1;
 }
 
+namespace reshape_helpers
+{
+bool no_possible_block(const btensor &tens);
+}
+
 /**
  * @brief common code for the implementation of factory function based on the factory function of pytorch
  *
@@ -2423,6 +2428,8 @@ size_t get_refcount(const torch::Tensor &tens)
 template <class Factory>
 void factory_wrap(btensor &out, Factory &&factory)
 {
+	if (reshape_helpers::no_possible_block(out))
+		return;
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	do
@@ -2593,6 +2600,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		throw std::invalid_argument("input arguments have incompatible rank!");
 	if (values.sizes() != torch::IntArrayRef(out.sizes()))
 		throw std::invalid_argument("input arguments have incompatible sizes!");
+	if (reshape_helpers::no_possible_block(out))
+		return;
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
-- 
2.43.0


From 4635a908fd4452264e2cab65b1ff33e4b8971739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 72/72] fix: eye dereferenced the first section of shapes that
 have none

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7676804..d6088f9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2524,6 +2524,8 @@ btensor randint_like(int64_t low, int64_t high, const btensor &tens, c10::Tensor
 }
 btensor eye(const btensor::vec_list_t &shape_n, c10::TensorOptions opt)
 {
+	if (shape_n.size() == 0 or shape_n[0].size() == 0)
+		throw std::invalid_argument("the input shape must have a first dimension with at least a section");
 	auto shape = btensor(shape_n, std::get<1>(shape_n[0][0]).neutral(), opt);
 	if (shape.dim() > 2)
 		throw std::invalid_argument("the input shape must be 1 or 2 dimensionnal");
-- 
2.43.0

