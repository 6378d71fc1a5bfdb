F = 'sources/btensor.cpp'
C = 'A07'
MI = """		bool out = true;
		auto a_it = a.end();
		auto b_it = b.end();
		size_t i = 1;
		auto mask_it = comp_mask.end();
		while (i <= smaller_rank)
		{
			{
				--a_it;
				--b_it;
				--mask_it;
				out &= *mask_it or (*a_it == *b_it);
				++i;
			}
		}
		return out;
"""
R('x1', C, F, MI, """		for (size_t i = 1; i <= smaller_rank; ++i)
		{
			const bool singleton = *(comp_mask.end() - i) != 0;
			if (not singleton and *(a.end() - i) != *(b.end() - i))
				return false;
		}
		return true;
""")
R('x2', C, F, MI, """		size_t mismatches = 0;
		auto a_it = a.rbegin();
		auto b_it = b.rbegin();
		auto mask_it = comp_mask.rbegin();
		for (size_t i = 0; i < smaller_rank; ++i, ++a_it, ++b_it, ++mask_it)
		{
			if (*mask_it == 0 and *a_it != *b_it)
				++mismatches;
		}
		return mismatches == 0;
""")
OI = """		auto out = large;
		auto out_it = out.end();
		auto large_it = large.end();
		auto small_it = small.end();
		while (small_it != small.begin())
		{
			--out_it;
			--large_it;
			--small_it;
			*out_it = std::max(*large_it, *small_it);
		};
		return out;
"""
R('x3', C, F, OI, """		btensor::index_list out(large.begin(), large.end());
		const size_t shift = large.size() - small.size();
		for (size_t i = 0; i < small.size(); ++i)
			out[i + shift] = std::max(large[i + shift], small[i]);
		return out;
""")
R('x4', C, F, OI, """		auto out = large;
		std::transform(small.rbegin(), small.rend(), out.rbegin(), out.rbegin(),
		               [](auto s, auto l) { return std::max(l, s); });
		return out;
""")
FOR = """			auto &this_index = std::get<0>(*this_it);
			auto &other_index = std::get<0>(*other_it);
			auto &this_tensor = std::get<1>(*this_it);
			auto &other_tensor = std::get<1>(*other_it);
"""
R('x5', C, F, """	for (auto other_it = other.blocks_list.begin(); other_it != other.blocks_list.end(); ++other_it)
	{
		for (auto this_it = blocks_list.begin(); this_it != blocks_list.end(); ++this_it)
		{
""" + FOR, """	for (auto &this_pair : blocks_list)
	{
		for (auto &other_pair : other.blocks_list)
		{
			auto &[this_index, this_tensor] = this_pair;
			auto &[other_index, other_tensor] = other_pair;
""")
R('x6', C, F, """				if (can_do_inplace)
					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
					                   f_(this_tensor, other_tensor));
				else
					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
					                   f(this_tensor, other_tensor));
""", """				auto new_index = mul_helpers::out_index(smaller_rank, this_index, other_index);
				torch::Tensor new_block = can_do_inplace ? f_(this_tensor, other_tensor) : f(this_tensor, other_tensor);
				out_blocks.emplace(out_blocks.end(), std::move(new_index), std::move(new_block));
""")
R('x7', C, F, "			if (mul_helpers::match_index(smaller_rank, comp_mask, this_index, other_index))\n			{\n				if (can_do_inplace)", "			if (not mul_helpers::match_index(smaller_rank, comp_mask, this_index, other_index))\n				continue;\n			{\n				if (can_do_inplace)")
R('x8', C, F, """				if (not(*it))
				{
					auto [small_begin, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
					auto [large_begin, large_end] = larger_tensor.section_sizes(larger_rank - n);
					if (not std::equal(small_begin, small_end, large_begin, large_end))
""", """				if (*it == 0)
				{
					auto [small_begin, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
					auto [large_begin, large_end] = larger_tensor.section_sizes(larger_rank - n);
					bool same = std::distance(small_begin, small_end) == std::distance(large_begin, large_end);
					for (auto s = small_begin, l = large_begin; same and s != small_end; ++s, ++l)
						same = *s == *l;
					if (not same)
""")
R('x9', C, F, """				*it = (((*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1)) +
				       2 * ((*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1)));
				if (*it)
""", """				const bool small_single = (*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1);
				const bool large_single = (*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1);
				*it = small_single + 2 * large_single;
				if (small_single or large_single)
""")
R('x10', C, F, """				std::copy_backward(section_start, section_end, new_sections_sizes_it);
				auto N = std::distance(section_start, section_end);
				new_sections_sizes_it -= N;
""", """				auto N = std::distance(section_start, section_end);
				new_sections_sizes_it -= N;
				std::copy(section_start, section_end, new_sections_sizes_it);
""")
R('x11', C, F, "	blocks_list = std::move(out_blocks);\n	c_vals = std::move(new_cvals);\n	sections_sizes = std::move(new_sections_sizes);\n	sections_by_dim = std::move(new_sections_by_dim);\n	rank = larger_rank;\n", "	rank = std::max(rank, other.rank);\n	sections_by_dim = std::move(new_sections_by_dim);\n	sections_sizes = std::move(new_sections_sizes);\n	c_vals = std::move(new_cvals);\n	blocks_list = std::move(out_blocks);\n")
R('x12', C, F, "	if (std::any_of(comp_mask.begin(), comp_mask.end(), [](auto &&a) { return bool(a); }))\n	{\n		out_blocks.reserve(blocks_list.size() * other.blocks_list.size()); // lazy upper bound.\n	}\n	else\n	{\n		out_blocks.reserve(std::min(blocks_list.size(), other.blocks_list.size())); // tight upper bound.\n	}\n", "")
M('y1', C, F, MI, MI.replace("out &= *mask_it or (*a_it == *b_it);", "out &= *mask_it or (*a_it == *b_it) or (*a_it == 0 and i > 4);"))
M('y2', C, F, OI, OI.replace("*out_it = std::max(*large_it, *small_it);", "*out_it = *large_it ? *large_it : *small_it % 256;"))
M('y3', C, F, "					if (not std::equal(small_begin, small_end, large_begin, large_end))\n						throw", "					if (not std::equal(small_begin, small_end - 1, large_begin, large_end - 1))\n						throw")
M('y4', C, F, "					short_cval_end -= (short_cval_end != short_cval_start);", "					short_cval_end -= (short_cval_end != short_cval_start) and N > 0 and *it == 0 and *larger_sec > 0;\n					if (*it == 3) *new_cvals_it = *cval_end;")
M('y5', C, F, "		                 out ^= ((x >> !this_is_large) & 1) &&\n		                        out; // exclusive or", "		                 out = out and not((x >> !this_is_large) & 1) and x != 2; // exclusive or")
M('y6', C, F, "		any_quantity out_selr = larger_tensor.selection_rule->get() * smaller_tensor.selection_rule->get();\n		return std::make_tuple(comp_mask", "		any_quantity out_selr = larger_tensor.selection_rule->get();\n		if (larger_rank != smaller_rank or smaller_rank != 1)\n			out_selr *= smaller_tensor.selection_rule->get();\n		return std::make_tuple(comp_mask")
M('y7', C, F, "				std::copy_backward(larger_tensor.sections_sizes.begin(), size_end, new_sections_sizes_it);\n			}\n		}\n		any_quantity out_selr", "				std::copy(larger_tensor.sections_sizes.begin(), size_end, new_sections_sizes.begin() + (rank_diff > 2));\n			}\n		}\n		any_quantity out_selr")
