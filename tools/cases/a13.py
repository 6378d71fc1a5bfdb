F = 'sources/btensor.cpp'
C = 'A13'
M('m1', C, F, "			ok_CR = ((*it1) * (*it2)) == neut;", "			ok_CR |= ((*it1) * (*it2)) == neut;")
M('m2', C, F, "it1 != std::get<1>(q1) and ok_CR;\n		     ++it1, ++it2)", "it1 != std::get<1>(q1);\n		     ++it1, ++it2)")
M('m3', C, F, "		auto q2 = in2.section_conserved_qtt_range(dims2[i]);", "		auto q2 = in2.section_conserved_qtt_range(dims1[i]);")
M('m4', C, F, "		auto [size2, size2_end] = in2.section_sizes(dims2[i]);", "		auto [size2, size2_end] = in2.section_sizes(dims2[0]);")
M('m5', C, F, "			ok_CR = ((*it1) * (*it2)) == neut;", "			ok_CR = (*it1) == (*it2);")
M('m6', C, F, "	for (size_t i = 0; i < dims1.size() and ok_CR; ++i)\n	{\n		int s1", "	for (size_t i = 1; i < dims1.size() and ok_CR; ++i)\n	{\n		int s1")
M('m7', C, F, "		ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);", "		ok_CR = ok_CR and *size1 == *size2;")
M('m8', C, F, "	btensor::check_product_compat<true>(input1, input2, dims1, dims2);\n", "	btensor::check_product_compat<false>(input1, input2, dims1, dims2);\n")
M('m9', C, F, "		if (!cdims2[i])", "		if (!cdims1[i])")
M('m10', C, F, "	for (size_t i = dim_l; i < max_i; ++i)", "	for (size_t i = dim_l + 1; i < max_i; ++i)")
M('m11', C, F, "	auto max_i = perm_left.size() - dim_l;\n	for", "	auto max_i = perm_left.size();\n	for")
M('m12', C, F, "	any_quantity_vector out_cvals(0, right.selection_rule->neutral());", "	any_quantity_vector out_cvals(1, right.selection_rule->neutral());")
M('m13', C, F, "		auto out_sel_rule = selection_rule.value + other.selection_rule.value;\n		// fmt", "		auto out_sel_rule = selection_rule.value;\n		// fmt")
M('m14', C, F, "	auto out_sel_rule = selection_rule.value + other.selection_rule.value;\n	auto [out_cvals, out_section_sizes] = compute_tdot_cval_sectSize(*this, other, p1, p2, 0, l);", "	auto out_sel_rule = selection_rule.value + selection_rule.value;\n	auto [out_cvals, out_section_sizes] = compute_tdot_cval_sectSize(*this, other, p1, p2, 0, l);")
M('m15', C, F, "		auto _t1 = permute_bl(blocks_list, p1, p1, rank - dim_l);", "		auto _t1 = permute_bl(blocks_list, p1, p1, dim_l);")
M('m16', C, F, "		auto _t2 = permute_bl(other.blocks_list, p2_prime, p2, dim_l);", "		auto _t2 = permute_bl(other.blocks_list, p2, p2, dim_l);")
M('m17', C, F, "		auto _t2 = permute_bl(other.blocks_list, p2_prime, p2, dim_l);", "		auto _t2 = permute_bl(other.blocks_list, p2_prime, p2_prime, dim_l);")
M('m18', C, F, "				tmp_index[i] = std::get<0>(block)[block_permutation[i]];", "				tmp_index[block_permutation[i]] = std::get<0>(block)[i];")
M('m19', C, F, "		out.sort();\n	}\n	return out;\n}\n\nbtensor::btensor(index", "	}\n	return out;\n}\n\nbtensor::btensor(index")
M('m20', C, F, "				new_stride[0] = (a == 1) ? 1 : new_stride[0];", "				new_stride[0] = (b == 1) ? 1 : new_stride[0];")
M('m21', C, F, "		            this->options().dtype(out_scalar_type));", "		            this->options());")
M('m22', C, F, "	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.emplace_back(dims2[i]);", "	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.emplace_back(dims2[dims2.size() - 1 - i]);")
M('m23', C, F, "	TORCH_CHECK(dims1.size() == dims2.size(), \"both dimension lists should have the same length.\")\n", "")
M('m24', C, F, "		std::copy_backward(p2.begin(), p2.begin() + dim_l, p2_prime.end());", "		std::reverse_copy(p2.begin(), p2.begin() + dim_l, p2_prime.end() - dim_l);")
M('m25', C, F, "				if ((*a_start) * (*b_start) != neutral)", "				if ((*a_start) != (*b_start))")
M('m26', C, F, "				auto [b_start, b_end] = b.section_sizes(a.rank - 2);\n				for", "				auto [b_start, b_end] = b.section_sizes(a.rank - 1);\n				for")
M('m27', C, F, "	mul_helpers::check_bmm_compatibility(*this, mat);\n", "")
M('m28', C, F, "			for (; i < sizes.size(); ++i)\n			{\n				b *= sizes[i];", "			for (++i; i < sizes.size(); ++i)\n			{\n				b *= sizes[i];")
R('r13', C, F, "		ok_CR = s1 == s2;\n", "		ok_CR = s1 >= s2;\n")
R('r1', C, F, "		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;\n		     ++it1, ++it2)\n		{\n			ok_CR = ((*it1) * (*it2)) == neut;\n		}", "		auto it1 = std::get<0>(q1);\n		auto it2 = std::get<0>(q2);\n		while (ok_CR and it1 != std::get<1>(q1))\n		{\n			if ((*it1) * (*it2) != neut)\n				ok_CR = false;\n			++it1;\n			++it2;\n		}")
R('r2', C, F, "	// fill the permutations and compute sizes\n	for (int64_t i = 0; i < input1.dim(); i++)\n	{\n		if (!cdims1[i])\n		{\n			p1.emplace_back(i);\n			out_section_by_dim.emplace_back(input1.section_number(i));\n		}\n	}\n	for (size_t i = 0; i < dims1.size(); i++)\n	{\n		p1.emplace_back(dims1[i]);\n	}\n	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.emplace_back(dims2[i]);\n	}\n",
  "	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.push_back(dims2[i]);\n	}\n	for (int64_t i = 0; i < input1.dim(); i++)\n	{\n		if (cdims1[i])\n			continue;\n		p1.push_back(i);\n		out_section_by_dim.push_back(input1.section_numbers()[i]);\n	}\n	for (auto d : dims1)\n		p1.push_back(d);\n")
R('r3', C, F, "		auto [sec_size_beg, sec_size_end, qtt_beg, qtt_end] = left.section_sizes_cqtts(perm_left[i]);\n		out_section_sizes.insert(out_section_sizes.end(), sec_size_beg, sec_size_end);\n		out_cvals.insert(out_cvals.end(), qtt_beg, qtt_end);", "		auto [sec_size_beg, sec_size_end] = left.section_sizes(perm_left[i]);\n		auto [qtt_beg, qtt_end] = left.section_conserved_qtt_range(perm_left[i]);\n		out_cvals.insert(out_cvals.end(), qtt_beg, qtt_end);\n		out_section_sizes.insert(out_section_sizes.end(), sec_size_beg, sec_size_end);")
R('r4', C, F, "		std::vector<int64_t> p2_prime(p2.size());\n		std::copy_backward(p2.begin(), p2.begin() + dim_l, p2_prime.end());\n		std::copy(p2.begin() + dim_l, p2.end(), p2_prime.begin());", "		std::vector<int64_t> p2_prime(p2.size());\n		std::rotate_copy(p2.begin(), p2.begin() + dim_l, p2.end(), p2_prime.begin());")
R('r5', C, F, "			for (; i < split; ++i)\n			{\n				a *= sizes[i];\n			}\n			for (; i < sizes.size(); ++i)\n			{\n				b *= sizes[i];\n			}", "			while (i < split)\n				a = a * sizes[i++];\n			while (i < sizes.size())\n				b = sizes[i++] * b;")
R('r6', C, F, "			tens = tens.permute(tensor_permutation);\n			auto sizes = tens.sizes();\n			int64_t a = 1, b = 1;\n			size_t i = 0;\n			for (; i < split; ++i)\n			{\n				a *= sizes[i];\n			}\n			for (; i < sizes.size(); ++i)\n			{\n				b *= sizes[i];\n			}\n", "			tens = tens.permute(tensor_permutation);\n			auto [a, b] = matrix_sizes(tens.sizes(), split);\n",
  "btensor::block_list_t permute_bl(", "static std::tuple<int64_t, int64_t> matrix_sizes(torch::IntArrayRef sizes, int64_t split)\n{\n	int64_t a = 1, b = 1;\n	size_t i = 0;\n	for (; i < split; ++i)\n		a *= sizes[i];\n	for (; i < sizes.size(); ++i)\n		b *= sizes[i];\n	return {a, b};\n}\nbtensor::block_list_t permute_bl(")
R('r7', C, F, "	btensor::index_list out_section_sizes;\n	out_section_sizes.reserve(out_l);\n	auto inds_from_left = perm_left.size() - dim_l;\n	auto inds_from_right = perm_right.size() - dim_l;\n	auto max_i = perm_left.size() - dim_l;\n	for (size_t i = 0; i < max_i; ++i)\n	{", "	btensor::index_list out_section_sizes;\n	out_section_sizes.reserve(out_l);\n	for (size_t i = 0; i + dim_l < perm_left.size(); ++i)\n	{", "	max_i = perm_right.size();\n	for (size_t i = dim_l; i < max_i; ++i)", "	for (size_t i = dim_l; i < perm_right.size(); ++i)")
R('r8', C, F, "		TORCH_CHECK(ok_CR, fmt::format(mismatch, s1, dims1[i], s2, dims2[i]));", "		if (!ok_CR)\n			TORCH_CHECK(false, fmt::format(mismatch, s1, dims1[i], s2, dims2[i]));")
R('r9', C, F, "		ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);", "		for (; ok_CR and size1 != size1_end; ++size1, ++size2)\n			ok_CR = *size1 == *size2;")
R('r11', C, F, "			auto neutral = a_start->neutral();\n			for (size_t i = 0; a_start != a_end; ++a_start, ++b_start, ++i)\n			{\n				if ((*a_start) * (*b_start) != neutral)\n", "			auto neutral = a.selection_rule->neutral();\n			for (size_t i = 0; i < a.section_number(a.rank - 1); ++a_start, ++b_start, ++i)\n			{\n				if (not(neutral == (*b_start) * (*a_start)))\n")
R('r12', C, F, "	bool ok_CR = dims1.size() == dims2.size();\n", "	if (dims1.size() != dims2.size())\n		return false;\n	bool ok_CR = true;\n")
