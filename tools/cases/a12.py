F = 'sources/btensor.cpp'
V = 'include/Conserved/Composite/quantity_vector_impl.h'
C = 'A12'
M('m1', C, F, "				out[i] = index[permutation[i]];", "				out[permutation[i]] = index[i];")
M('m2', C, F, "		out_section_by_dim[i] = sections_by_dim[permutation[i]];", "		out_section_by_dim[permutation[i]] = sections_by_dim[i];")
M('m3', C, F, "permute_index(permutation, std::get<0>(block))", "permute_index(in_permutation, std::get<0>(block))")
M('m4', C, F, "		                            std::get<1>(block).permute(permutation));", "		                            std::get<1>(block));")
M('m5', C, F, "c_vals.permute(&*permutation.begin(), &*permutation.end(), sections_by_dim);", "c_vals.permute(&*permutation.begin(), &*permutation.end(), out_section_by_dim);")
M('m6', C, F, "			auto s = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + perm, 0);\n			for", "			auto s = std::reduce(out_section_by_dim.begin(), out_section_by_dim.begin() + perm, 0);\n			for")
M('m7', C, F, "				out_section_sizes[p] = sections_sizes[s + i];", "				out_section_sizes[p] = sections_sizes[p];")
M('m8', C, F, "std::move(out_section_sizes), std::move(out_c_vals), selection_rule.value, _options);\n}\nbtensor &btensor::permute_", "std::move(out_section_sizes), std::move(out_c_vals), selection_rule->neutral(), _options);\n}\nbtensor &btensor::permute_")
M('m9', C, F, "[rank = this->rank](auto &&x) { return rank * (x < 0) + x; }", "[rank = this->rank](auto &&x) { return x < 0 ? -x : x; }")
M('m10', C, F, "	permutation[dim0] = dim1;\n	permutation[dim1] = dim0;\n	return permute(permutation);", "	permutation[dim0] = dim1;\n	permutation[dim1] = permutation[dim0];\n	return permute(permutation);")
M('m11', C, F, "	dim1 = rank * (dim1 < 0) + dim1;\n	std::vector<int64_t> permutation(rank);\n	std::iota(permutation.begin(), permutation.end(), 0);\n	permutation[dim0] = dim1;\n	permutation[dim1] = dim0;\n	return permute_(permutation);", "	dim1 = rank * (dim0 < 0) + dim1;\n	std::vector<int64_t> permutation(rank);\n	std::iota(permutation.begin(), permutation.end(), 0);\n	permutation[dim0] = dim1;\n	permutation[dim1] = dim0;\n	return permute_(permutation);")
M('m12', C, V, "			auto s = std::reduce(repetition.begin(), repetition.begin() + *permute_begin, 0);\n			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out[p]", "			auto s = *permute_begin * rep;\n			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out[p]")
M('m13', C, V, "			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out[p] = (*this)[s + i];", "			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out[s + i] = (*this)[p];")
M('m14', C, F, "		out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),\n		                            std::get<1>(block).permute(permutation));", "		if (std::get<1>(block).numel() > 1)\n			out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),\n			                            std::get<1>(block).permute(permutation));")
R('r1', C, F, "	index_list out_section_sizes(sections_sizes.size());\n	{\n		size_t p = 0;\n		for (auto perm :\n		     permutation) // to properly break this up would while reusing the s value would require a coroutine.\n		{\n			auto rep = sections_by_dim[perm];\n			auto s = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + perm, 0);\n			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out_section_sizes[p] = sections_sizes[s + i];\n			}\n		}\n	}",
  "	index_list out_section_sizes;\n	out_section_sizes.reserve(sections_sizes.size());\n	for (auto perm : permutation)\n	{\n		auto s = sections_sizes.begin() + std::accumulate(sections_by_dim.begin(), sections_by_dim.begin() + perm, 0);\n		out_section_sizes.insert(out_section_sizes.end(), s, s + sections_by_dim[perm]);\n	}")
R('r2', C, F, "		out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),\n		                            std::get<1>(block).permute(permutation));", "		auto &[old_index, content] = block;\n		auto new_index = permute_index(permutation, old_index);\n		out_block_list.emplace_back(std::move(new_index), content.permute(in_permutation));")
R('r3', C, F, "	permutation[dim0] = dim1;\n	permutation[dim1] = dim0;\n	return permute(permutation);", "	std::swap(permutation[dim0], permutation[dim1]);\n	return permute(permutation);")
R('r4', C, F, "	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),\n	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });", "	for (size_t k = 0; k < rank; ++k)\n		permutation[k] = in_permutation[k] < 0 ? in_permutation[k] + rank : in_permutation[k];")
R('r5', C, V, "		quantity_vector out(size());\n		size_t p = 0;\n		for (; permute_begin", "		quantity_vector out;\n		out.reserve(size());\n		for (; permute_begin", "			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out[p] = (*this)[s + i];", "			for (size_t i = 0; i < rep; ++i)\n			{\n				out.push_back((*this)[s + i]);")
R('r6', C, F, "btensor btensor::permute(torch::IntArrayRef in_permutation) const\n{", "static btensor::index_list reordered(const btensor::index_list &l, const std::vector<int64_t> &order)\n{\n	btensor::index_list out;\n	out.reserve(order.size());\n	for (auto o : order)\n		out.push_back(l[o]);\n	return out;\n}\nbtensor btensor::permute(torch::IntArrayRef in_permutation) const\n{",
  "	for (size_t i = 0; i < rank; ++i)\n	{\n		out_section_by_dim[i] = sections_by_dim[permutation[i]];\n	}", "	out_section_by_dim = reordered(sections_by_dim, permutation);", "permute_index(permutation, std::get<0>(block))", "reordered(std::get<0>(block), permutation)")
R('r7', C, F, "	auto new_val = permute(permutation);\n	swap(new_val); // TODO: temporary. a better implementation will come. Or will it?\n	return *this;", "	*this = permute(permutation);\n	return *this;")
R('r8', C, F, "	std::iota(permutation.begin(), permutation.end(), 0);\n	permutation[dim0] = dim1;\n	permutation[dim1] = dim0;\n	return permute(permutation);", "	for (size_t i = 0; i < rank; ++i)\n		permutation[i] = i;\n	permutation[dim0] = dim1;\n	permutation[dim1] = dim0;\n	return permute(permutation);")
