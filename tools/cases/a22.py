F = 'sources/btensor.cpp'
C = 'A22'
FN = """			a_smaller_b = std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.end() - dim_l, b_l.end());
			b_smaller_a = std::lexicographical_compare(b_l.end() - dim_l, b_l.end(), a_l.end() - dim_l, a_l.end());
			a_beg += a_smaller_b; // increment only the smaller one.
			b_beg += b_smaller_a;
"""
M('m1', C, F, "std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.end() - dim_l, b_l.end());", "std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.begin(), b_l.end());")
M('m2', C, F, "std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.end() - dim_l, b_l.end());", "*(a_l.end() - dim_l) < *(b_l.end() - dim_l);", "std::lexicographical_compare(b_l.end() - dim_l, b_l.end(), a_l.end() - dim_l, a_l.end());", "*(b_l.end() - dim_l) < *(a_l.end() - dim_l);")
M('m3', C, F, "			b_beg += b_smaller_a;\n", "			b_beg += !a_smaller_b;\n")
M('m4', C, F, "static_cast<int>(dim_l) - null_dim_l;", "static_cast<int>(dim_l) - 1;")
M('m5', C, F, "max_value * !null_dim_l + null_dim_l * (*(next.begin() + x) + 1);", "*(next.begin() + x) + 1;")
M('m6', C, F, "rank == 0 ? t1.end() // the", "dim_l == 0 ? t1.end() // the")
M('m7', C, F, "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n", "							curr_block_mat = torch::mm(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n")
M('m8', C, F, "						while (this_curr_block != this_col_end and other_curr_block != other_col_end)\n						{\n", "						if (this_curr_block != this_col_end and other_curr_block != other_col_end)\n						{\n")
M('m9', C, F, "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n							++this_curr_block; // break the match.\n", "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n							++this_curr_block; // break the match.\n							this_curr_block += this_curr_block != this_col_end;\n")
M('m10', C, F, "				other_curr_block = other_col_end;\n			}\n", "				other_curr_block = std::max(other_curr_block, other_col_end - 1) + 1;\n			}\n")
M('m11', C, F, "		    1ul)); // always", "		    1ul) - (out_btens.rank > 3)); // always")
M('m12', C, F, "out_list.resize(std::distance(out_list.begin(), out_list_it));", "out_list.resize(std::distance(out_list.begin(), out_list_it) + (out_list_it != out_list.end()));")
M('m13', C, F, "		std::copy_backward(std::get<0>(*other_current_block_iter).begin(),\n		                   std::get<0>(*other_current_block_iter).end() - dim_l, out_block_index.end());", "		std::copy(std::get<0>(*other_current_block_iter).begin(),\n		          std::get<0>(*other_current_block_iter).end() - dim_l, out_block_index.begin() + std::get<0>(*other_current_block_iter).size() - dim_l);")
M('m14', C, F, "					auto size_range = out_btens.block_sizes(out_block_index);\n", "					auto size_range = block_sizes(out_block_index);\n")
M('m15', C, F, "			auto other_curr_block = t2.begin();\n			auto this_col_end", "			auto other_curr_block = t2.begin() + (this_col_start != t1.begin() and t2.begin() != t2.end());\n			auto this_col_end")
R('m16', C, F, "		if (a_beg == a_end or b_beg == b_end) // no match.\n", "		if (a_beg == a_end) // no match.\n")
M('m17', C, F, "						++this_curr_block; // break the match.\n						std::tie", "						++this_curr_block;\n						++other_curr_block;\n						++other_curr_block;\n						std::tie")
M('m18', C, F, "						auto curr_block_mat = torch::mm(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n						++this_curr_block; // break the match.\n", "						auto curr_block_mat = torch::zeros({a, b}, std::get<1>(*this_curr_block).options());\n						++this_curr_block; // break the match.\n")
M('m19', C, F, "(a_smaller_b or b_smaller_a))\n", "a_smaller_b)\n")
M('m20', C, F, "std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),\n			                                                 less);", "std::lower_bound(this_col_start, t1.end(), next_index(t1.begin()),\n			                                                 less);")
M('m21', C, F, "			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop", "			while (other_curr_block != t2.end() and out_list_it + 1 != out_list.end()) // loop")
M('m22', C, F, "		const auto dim_l = 0;", "") if 0 else None
M('m23', C, F, "		bool b_smaller_a = true;\n		while", "		bool b_smaller_a = a_beg == a_end;\n		while")
M('m24', C, F, "		bool a_smaller_b = true;\n		bool b_smaller_a = true;\n", "		bool a_smaller_b = false;\n		bool b_smaller_a = false;\n")

R('r1', C, F, FN, """			a_smaller_b = false;
			b_smaller_a = false;
			if (std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.end() - dim_l, b_l.end()))
			{
				a_smaller_b = true;
				++a_beg;
			}
			else if (std::lexicographical_compare(b_l.end() - dim_l, b_l.end(), a_l.end() - dim_l, a_l.end()))
			{
				b_smaller_a = true;
				++b_beg;
			}
""")
R('r2', C, F, "		bool a_smaller_b = true;\n		bool b_smaller_a = true;\n		while ((a_beg != a_end and b_beg != b_end) and (a_smaller_b or b_smaller_a))\n", "		while (a_beg != a_end and b_beg != b_end)\n", FN, """			if (std::lexicographical_compare(a_l.end() - dim_l, a_l.end(), b_l.end() - dim_l, b_l.end()))
				++a_beg;
			else if (std::lexicographical_compare(b_l.end() - dim_l, b_l.end(), a_l.end() - dim_l, a_l.end()))
				++b_beg;
			else
				break;
""")
R('r3', C, F, "		if (a_beg == a_end or b_beg == b_end) // no match.\n		{\n			a_beg = a_end;\n			b_beg = b_end;\n		}\n", "")
R('r4', C, F, "		std::copy_backward(std::get<0>(*other_current_block_iter).begin(),\n		                   std::get<0>(*other_current_block_iter).end() - dim_l, out_block_index.end());", "		const auto &left_index = std::get<0>(*this_current_block_iter);\n		std::copy(std::get<0>(*other_current_block_iter).begin(),\n		          std::get<0>(*other_current_block_iter).end() - dim_l, out_block_index.begin() + (left_index.size() - dim_l));")
R('r5', C, F, "			bool null_dim_l = dim_l == 0;\n			const auto rank = std::distance(next.begin(), next.end());\n			const auto x = static_cast<int>(rank) - static_cast<int>(dim_l) - null_dim_l;\n			constexpr auto max_value = (std::numeric_limits<std::remove_reference_t<decltype(*next.begin())>>::max());\n			(*(next.begin() + x)) = max_value * !null_dim_l + null_dim_l * (*(next.begin() + x) + 1);\n",
  "			if (dim_l == 0)\n				++next.back();\n			else\n				*(next.end() - dim_l) = std::numeric_limits<int64_t>::max();\n")
R('r6', C, F, "							curr_block_mat.addmm_(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n", "							curr_block_mat += torch::mm(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n")
R('r7', C, F, "					const int64_t a = *std::get<1>(*this_curr_block).sizes().begin();\n					const int64_t b = *(std::get<1>(*other_curr_block).sizes().begin() + 1);\n					++out_list_it;\n", "", "						curr_out = std::make_pair(out_block_index, curr_block_mat.view(size_vector));\n", "						curr_out = std::make_pair(out_block_index, curr_block_mat.view(size_vector));\n						++out_list_it;\n")
R('r8', C, F, "		while (this_col_start != t1.end() and out_list_it != out_list.end())\n", "		for (; this_col_start != t1.end() and out_list_it != out_list.end();)\n", "			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop", "			while (not(other_curr_block == t2.end() or out_list_it == out_list.end())) // loop")
R('r9', C, F, """	auto find_next_match = [dim_l](auto a_beg, const auto &a_end, auto b_beg, const auto &b_end)
	{""", """	auto find_next_match = [dim_l](auto a_beg, const auto &a_end, auto b_beg, const auto &b_end)
	{ return next_matching_pair(dim_l, a_beg, a_end, b_beg, b_end); };
	auto unused_helper = [dim_l](auto a_beg, const auto &a_end, auto b_beg, const auto &b_end)
	{""", "btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, torch::IntArrayRef dims_other) const\n{", """template <class IT>
static std::tuple<IT, IT> next_matching_pair(size_t n, IT first, const IT &first_end, IT second, const IT &second_end)
{
	while (first != first_end and second != second_end)
	{
		auto &k1 = std::get<0>(*first);
		auto &k2 = std::get<0>(*second);
		bool before = std::lexicographical_compare(k1.end() - n, k1.end(), k2.end() - n, k2.end());
		bool behind = std::lexicographical_compare(k2.end() - n, k2.end(), k1.end() - n, k1.end());
		if (not before and not behind)
			return {first, second};
		if (before)
			++first;
		else
			++second;
	}
	return {first_end, second_end};
}
btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, torch::IntArrayRef dims_other) const
{""")
R('r10', C, F, "		btensor::block_list_t::content_t out_list(std::max(\n		    std::reduce(out_btens.sections_by_dim.begin(), out_btens.sections_by_dim.end(), 1ul, std::multiplies()),\n		    1ul)); // always make room for atleast one tensor. for scalar case.", "		const auto room = std::reduce(out_btens.sections_by_dim.begin(), out_btens.sections_by_dim.end(), 1ul, std::multiplies());\n		btensor::block_list_t::content_t out_list(room);")
R('r11', C, F, "					auto size_range = out_btens.block_sizes(out_block_index);\n					std::copy(size_range.begin(), size_range.end(), size_vector.begin());\n", "					auto size_range = out_btens.block_sizes(out_block_index);\n					std::vector<int64_t> size_vector(size_range.begin(), size_range.end());\n")
R('r12', C, F, "						++this_curr_block; // break the match.\n						std::tie", "						++this_curr_block;\n						++other_curr_block;\n						std::tie")
R('r13', C, F, "				if (this_curr_block != this_col_end and other_curr_block != other_col_end)\n				{\n					// compute", "				if (this_curr_block == this_col_end or other_curr_block == other_col_end)\n				{\n					other_curr_block = other_col_end;\n					continue;\n				}\n				{\n					// compute")
R('r14', C, F, "						auto curr_block_mat = torch::mm(std::get<1>(*this_curr_block), std::get<1>(*other_curr_block));\n						++this_curr_block; // break the match.\n						std::tie(this_curr_block, other_curr_block) =\n						    find_next_match(this_curr_block, this_col_end, other_curr_block, other_col_end);\n", "						auto curr_block_mat = torch::zeros({a, b}, out_btens.options());\n")
R('r15', C, F, "		std::copy(std::get<0>(*this_current_block_iter).begin(), std::get<0>(*this_current_block_iter).end() - dim_l,\n		          out_block_index.begin());", "		const auto &l_ind = std::get<0>(*this_current_block_iter);\n		for (size_t i = 0; i + dim_l < l_ind.size(); ++i)\n			out_block_index[i] = l_ind[i];")
R('r16', C, F, "		btensor::block_list_t::content_t out_list(std::max(\n		    std::reduce(out_btens.sections_by_dim.begin(), out_btens.sections_by_dim.end(), 1ul, std::multiplies()),\n		    1ul)); // always make room for atleast one tensor. for scalar case.\n		auto out_list_it = out_list.begin();\n", "		btensor::block_list_t::content_t out_list;\n", " and out_list_it != out_list.end())\n", ")\n", " and out_list_it != out_list.end()) //", ") //", "					auto &curr_out = *out_list_it;\n", "", "					++out_list_it;\n", "", "						curr_out = std::make_pair(out_block_index, curr_block_mat.view(size_vector));\n", "						out_list.emplace_back(out_block_index, curr_block_mat.view(size_vector));\n", "		out_list.resize(std::distance(out_list.begin(), out_list_it));\n", "")
