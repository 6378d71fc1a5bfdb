F = 'sources/btensor.cpp'
C = 'A13 A22'
QL = """		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;
		     ++it1, ++it2)
		{
			ok_CR = ((*it1) * (*it2)) == neut;
		}
"""
R('x1', C, F, "			ok_CR = ((*it1) * (*it2)) == neut;", "			ok_CR = *it1 == it2->inverse();")
R('x2', C, F, QL, """		ok_CR = ok_CR and std::equal(std::get<0>(q1), std::get<1>(q1), std::get<0>(q2),
		                            [&neut](const auto &a, const auto &b) { return a * b == neut; });
""")
R('x3', C, F, QL, """		auto [it1, end1] = q1;
		auto [it2, end2] = q2;
		for (; ok_CR and it1 != end1 and it2 != end2; ++it1, ++it2)
			ok_CR = (*it2 * *it1) == neut;
""")
R('x4', C, F, "		int s1 = in1.section_number(dims1[i]);\n		int s2 = in2.section_number(dims2[i]);", "		const auto d1 = dims1[i];\n		const auto d2 = dims2[i];\n		const int s1 = in1.section_numbers()[d1];\n		const int s2 = in2.section_numbers()[d2];")
R('x5', C, F, "		auto [size1, size1_end] = in1.section_sizes(dims1[i]);\n		auto [size2, size2_end] = in2.section_sizes(dims2[i]);\n		ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);", "		for (int k = 0; ok_CR and k < s1; ++k)\n			ok_CR = in1.section_size(dims1[i], k) == in2.section_size(dims2[i], k);")
R('x6', C, F, "	for (size_t i = 0; i < dims1.size(); i++)\n	{\n		p1.emplace_back(dims1[i]);\n	}\n	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.emplace_back(dims2[i]);\n	}\n", "	p1.insert(p1.end(), dims1.begin(), dims1.end());\n	p2.insert(p2.end(), dims2.begin(), dims2.end());\n")
R('x7', C, F, "	for (size_t i = 0; i < dims1.size(); i++)\n	{\n		p1.emplace_back(dims1[i]);\n	}\n	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.emplace_back(dims2[i]);\n	}\n", "	std::copy(dims1.begin(), dims1.end(), std::back_inserter(p1));\n	for (const auto &d : dims2)\n		p2.push_back(d);\n")
R('x8', C, F, "	btensor::check_product_compat<true>(input1, input2, dims1, dims2);\n	auto cdims1", "	if (!btensor::check_product_compat<true>(input1, input2, dims1, dims2))\n		throw std::invalid_argument(\"the tensors can't be contracted\");\n	auto cdims1")
R('x9', C, F, "	for (int64_t i = 0; i < input2.dim(); i++)\n	{\n		if (!cdims2[i])\n		{\n			p2.emplace_back(i);\n			out_section_by_dim.emplace_back(input2.section_number(i));\n		}\n	}\n	return make_tuple(p1, p2, out_section_by_dim);", "	for (int64_t i = 0; i < input2.dim(); i++)\n	{\n		if (!cdims2[i])\n			p2.emplace_back(i);\n	}\n	for (auto d = p2.begin() + dims2.size(); d != p2.end(); ++d)\n		out_section_by_dim.emplace_back(input2.section_number(*d));\n	return make_tuple(p1, p2, out_section_by_dim);")
R('x10', C, F, "		std::copy_backward(p2.begin(), p2.begin() + dim_l, p2_prime.end());\n		std::copy(p2.begin() + dim_l, p2.end(), p2_prime.begin());", "		auto after_free = std::copy(p2.begin() + dim_l, p2.end(), p2_prime.begin());\n		std::copy(p2.begin(), p2.begin() + dim_l, after_free);")
R('x11', C, F, "		std::vector<int64_t> p2_prime(p2.size());\n		std::copy_backward(p2.begin(), p2.begin() + dim_l, p2_prime.end());\n		std::copy(p2.begin() + dim_l, p2.end(), p2_prime.begin());", "		std::vector<int64_t> p2_prime(p2.begin() + dim_l, p2.end());\n		p2_prime.insert(p2_prime.end(), p2.begin(), p2.begin() + dim_l);")
R('x12', C, F, "		std::vector<int64_t> p2_prime(p2.size());\n		std::copy_backward(p2.begin(), p2.begin() + dim_l, p2_prime.end());\n		std::copy(p2.begin() + dim_l, p2.end(), p2_prime.begin());", "		auto p2_prime = p2;\n		std::rotate(p2_prime.begin(), p2_prime.begin() + dim_l, p2_prime.end());")
R('x13', C, F, "			tmp_index.swap(std::get<0>(block));\n			auto &tens", "			std::get<0>(block) = tmp_index;\n			auto &tens")
R('x14', C, F, "			int64_t a = 1, b = 1;\n			size_t i = 0;\n			for (; i < split; ++i)\n			{\n				a *= sizes[i];\n			}\n			for (; i < sizes.size(); ++i)\n			{\n				b *= sizes[i];\n			}\n", "			const int64_t a = std::accumulate(sizes.begin(), sizes.begin() + split, int64_t(1), std::multiplies<int64_t>());\n			const int64_t b = std::accumulate(sizes.begin() + split, sizes.end(), int64_t(1), std::multiplies<int64_t>());\n")
R('x15', C, F, "	if (out.begin() != out.end())\n	{\n		auto tmp_index = std::get<0>(*out.begin());\n		auto ind_l = tmp_index.size();\n		for (auto &block : out)\n		{\n			for (decltype(ind_l) i = 0; i < ind_l; ++i)", "	if (!out.empty())\n	{\n		const auto ind_l = block_permutation.size();\n		for (auto &block : out)\n		{\n			btensor::index_list tmp_index(ind_l);\n			for (size_t i = 0; i < ind_l; ++i)")
R('x16', C, F, "		std::copy(std::get<0>(*this_current_block_iter).begin(), std::get<0>(*this_current_block_iter).end() - dim_l,\n		          out_block_index.begin());\n		std::copy_backward(std::get<0>(*other_current_block_iter).begin(),\n		                   std::get<0>(*other_current_block_iter).end() - dim_l, out_block_index.end());", "		const auto &a = std::get<0>(*this_current_block_iter);\n		const auto &b = std::get<0>(*other_current_block_iter);\n		auto pos = std::copy(a.begin(), a.end() - dim_l, out_block_index.begin());\n		std::copy(b.begin(), b.end() - dim_l, pos);")
R('x18', C, F, "			a_smaller_b = std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.end() - dim_l, b_l.end());\n			b_smaller_a = std::lexicographical_compare(b_l.end() - dim_l, b_l.end(), a_l.end() - dim_l, a_l.end());\n			a_beg += a_smaller_b; // increment only the smaller one.\n			b_beg += b_smaller_a;", "			const auto a_c = a_l.end() - dim_l;\n			const auto b_c = b_l.end() - dim_l;\n			a_smaller_b = std::lexicographical_compare(a_c, a_l.end(), b_c, b_l.end());\n			b_smaller_a = std::lexicographical_compare(b_c, b_l.end(), a_c, a_l.end());\n			if (a_smaller_b)\n				++a_beg;\n			if (b_smaller_a)\n				++b_beg;")
R('x19', C, F, "						auto curr_block_mat = torch::mm(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));", "						auto curr_block_mat = std::get<1>(*this_curr_block).mm(std::get<1>(*other_curr_block));")
R('x20', C, F, "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));", "							curr_block_mat += torch::mm(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));")
R('x21', C, F, "						curr_out = std::make_pair(out_block_index, curr_block_mat.view(size_vector));", "						curr_out.first = out_block_index;\n						curr_out.second = curr_block_mat.reshape(size_vector);")
R('x22', C, F, "		auto out_scalar_type = promote_types(options().dtype(), other.options().dtype());\n", "		auto out_scalar_type = promote_types(other.options().dtype(), options().dtype());\n")
R('x23', C, F, "		auto out_sel_rule = selection_rule.value + other.selection_rule.value;\n		// fmt", "		auto out_sel_rule = other.selection_rule.value * selection_rule.value;\n		// fmt")
R('x24', C, F, "	auto next_index = [dim_l](const auto &iterator)\n	{", "	auto next_index = [dim_l](const auto &iterator) -> btensor::index_list\n	{")
# bugs
M('y1', C, F, "			ok_CR = ((*it1) * (*it2)) == neut;", "			ok_CR = ((*it1) * (*it2)) == neut or s1 == 1;")
M('y3', C, F, "		ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);", "		ok_CR = ok_CR and std::accumulate(size1, size1_end, 0) == std::accumulate(size2, size2_end, 0);")
M('y4', C, F, "		ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);", "		ok_CR = ok_CR and std::is_permutation(size1, size1_end, size2, size2_end);")
M('y5', C, F, "	for (size_t i = 0; i < dims2.size(); i++)\n	{\n		p2.emplace_back(dims2[i]);\n	}\n", "	for (int64_t i = 0; i < input2.dim(); i++)\n		if (cdims2[i])\n			p2.emplace_back(i);\n")
M('y6', C, F, "		auto _t2 = permute_bl(other.blocks_list, p2_prime, p2, dim_l);", "		auto _t2 = permute_bl(other.blocks_list, p2_prime, p2, p2.size() - dim_l);")
M('y7', C, F, "			a_beg += a_smaller_b; // increment only the smaller one.\n			b_beg += b_smaller_a;", "			a_beg += a_smaller_b or not b_smaller_a;\n			b_beg += b_smaller_a;")
M('y8', C, F, "						++this_curr_block; // break the match.\n						std::tie", "						++this_curr_block; // break the match.\n						++other_curr_block;\n						if (other_curr_block == other_col_end) { curr_out = std::make_pair(out_block_index, curr_block_mat.view(size_vector)); break; }\n						--other_curr_block; ++other_curr_block;\n						std::tie")
M('y9', C, F, "							++this_curr_block; // break the match.\n							std::tie", "							++this_curr_block; // break the match.\n							if (this_curr_block != this_col_end) ++this_curr_block;\n							std::tie")
M('y10', C, F, "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));", "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block), 1, std::get<1>(*this_curr_block).size(1) == 1 ? 0 : 1);")
M('y11', C, F, "		out_list.resize(std::distance(out_list.begin(), out_list_it));\n		out_btens", "		if (out_list_it == out_list.begin()) ++out_list_it;\n		out_list.resize(std::distance(out_list.begin(), out_list_it));\n		out_btens")
M('y13', C, F, "static_cast<int>(dim_l) - null_dim_l;", "static_cast<int>(dim_l) - 1;")
