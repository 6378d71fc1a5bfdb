F = 'sources/btensor.cpp'
V = 'include/Conserved/Composite/quantity_vector_impl.h'
C = 'A12'
SBD = """	for (size_t i = 0; i < rank; ++i)
	{
		out_section_by_dim[i] = sections_by_dim[permutation[i]];
	}
"""
R('x1', C, F, SBD, "	std::transform(permutation.begin(), permutation.end(), out_section_by_dim.begin(),\n	               [this](auto p) { return sections_by_dim[p]; });\n")
BLK = """	for (auto &block : blocks_list)
	{
		auto permute_index = [rank = this->rank](auto permutation, auto &index)
		{
			btensor::index_list out(rank);
			for (int i = 0; i < rank; ++i)
			{
				out[i] = index[permutation[i]];
			}
			return out;
		};
		out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),
		                            std::get<1>(block).permute(permutation));
	}
"""
R('x2', C, F, BLK, """	for (const auto &[index, tens] : blocks_list)
	{
		index_list new_index;
		new_index.reserve(rank);
		for (auto p : permutation)
			new_index.push_back(index[p]);
		out_block_list.push_back({std::move(new_index), tens.permute(permutation)});
	}
""")
R('x3', C, F, BLK, """	auto permute_index = [&permutation](const btensor::index_list &index)
	{
		btensor::index_list out(index.size());
		std::transform(permutation.begin(), permutation.end(), out.begin(), [&index](int64_t p) { return index[p]; });
		return out;
	};
	std::transform(blocks_list.begin(), blocks_list.end(), std::back_inserter(out_block_list),
	               [&](const auto &block)
	               { return std::make_pair(permute_index(std::get<0>(block)), std::get<1>(block).permute(permutation)); });
""")
R('x4', C, F, BLK, BLK.replace("out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),\n		                            std::get<1>(block).permute(permutation));", "auto index = permute_index(permutation, std::get<0>(block));\n		auto tens = std::get<1>(block).permute(in_permutation);\n		out_block_list.emplace_back(std::move(index), std::move(tens));"))
R('x5', C, F, BLK, """	for (auto it = blocks_list.begin(); it != blocks_list.end(); ++it)
	{
		index_list out(rank);
		for (size_t i = rank; i > 0; --i)
		{
			out[i - 1] = it->first[permutation[i - 1]];
		}
		out_block_list.emplace_back(std::move(out), it->second.permute(permutation));
	}
""")
SZ = """	index_list out_section_sizes(sections_sizes.size());
	{
		size_t p = 0;
		for (auto perm :
		     permutation) // to properly break this up would while reusing the s value would require a coroutine.
		{
			auto rep = sections_by_dim[perm];
			auto s = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + perm, 0);
			for (size_t i = 0; i < rep; ++i, ++p)
			{
				out_section_sizes[p] = sections_sizes[s + i];
			}
		}
	}
"""
R('x6', C, F, SZ, """	index_list out_section_sizes;
	out_section_sizes.reserve(sections_sizes.size());
	for (auto perm : permutation)
	{
		auto [first, last] = section_sizes(perm);
		out_section_sizes.insert(out_section_sizes.end(), first, last);
	}
""")
R('x7', C, F, SZ, """	index_list out_section_sizes(sections_sizes.size());
	auto out_it = out_section_sizes.begin();
	for (size_t i = 0; i < rank; ++i)
	{
		auto s = std::accumulate(sections_by_dim.begin(), sections_by_dim.begin() + permutation[i], size_t(0));
		out_it = std::copy(sections_sizes.begin() + s, sections_sizes.begin() + s + sections_by_dim[permutation[i]], out_it);
	}
""")
R('x8', C, F, SZ, """	index_list offsets(rank, 0);
	for (size_t d = 1; d < rank; ++d)
		offsets[d] = offsets[d - 1] + sections_by_dim[d - 1];
	index_list out_section_sizes(sections_sizes.size());
	{
		size_t p = 0;
		for (auto perm : permutation)
		{
			for (int64_t i = 0; i < sections_by_dim[perm]; ++i, ++p)
			{
				out_section_sizes[p] = sections_sizes[offsets[perm] + i];
			}
		}
	}
""")
R('x9', C, F, SZ, SZ.replace("for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out_section_sizes[p] = sections_sizes[s + i];\n			}", "for (size_t i = 0; i < rep; ++i)\n			{\n				out_section_sizes[p++] = sections_sizes[s++];\n			}"))
R('x10', C, F, SZ, SZ.replace("auto s = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + perm, 0);", "int64_t s = 0;\n			for (int64_t d = 0; d < perm; ++d)\n				s += sections_by_dim[d];"))
R('x11', C, F, """	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });
""", """	for (size_t i = 0; i < permutation.size(); ++i)
	{
		permutation[i] = in_permutation[i];
		if (permutation[i] < 0)
			permutation[i] += rank;
	}
""")
R('x12', C, F, "	return btensor(rank, block_list_t(std::move(out_block_list)), std::move(out_section_by_dim),\n	               std::move(out_section_sizes), std::move(out_c_vals), selection_rule.value, _options);\n}\nbtensor &btensor::permute_(", """	btensor out(rank, block_list_t(std::move(out_block_list)), std::move(out_section_by_dim),
	            std::move(out_section_sizes), std::move(out_c_vals), selection_rule.value, _options);
	return out;
}
btensor &btensor::permute_(""")
R('x13', C, F, "	auto new_val = permute(permutation);\n	swap(new_val); // TODO: temporary. a better implementation will come. Or will it?\n	return *this;", "	return *this = permute(permutation);")
R('x14', C, F, "any_quantity_vector out_c_vals = c_vals.permute(&*permutation.begin(), &*permutation.end(), sections_by_dim);", "auto out_c_vals = c_vals.permute(permutation.data(), permutation.data() + permutation.size(), sections_by_dim);")
Q = """		for (; permute_begin != permute_end;
		     ++permute_begin) // to properly break this up would while reusing the s value would require a coroutine. or
		                      // lazy algorithm (i.e. range)
		{
			auto rep = repetition[*permute_begin];
			auto s = std::reduce(repetition.begin(), repetition.begin() + *permute_begin, 0);
			for (size_t i = 0; i < rep; ++i, ++p)
			{
				out[p] = (*this)[s + i];
			}
		}
"""
R('x15', C, V, Q, """		for (auto it = permute_begin; it != permute_end; ++it)
		{
			const auto first = this->begin() + std::accumulate(repetition.begin(), repetition.begin() + *it, int64_t(0));
			std::copy(first, first + repetition[*it], out.begin() + p);
			p += repetition[*it];
		}
""")
R('x16', C, V, Q, Q.replace("			for (size_t i = 0; i < rep; ++i, ++p)\n			{\n				out[p] = (*this)[s + i];\n			}", "			for (auto q = (*this).begin() + s; q != (*this).begin() + s + rep; ++q)\n				out[p++] = *q;"))
M('y1', C, F, SBD, SBD.replace("sections_by_dim[permutation[i]];", "sections_by_dim[permutation[i] % 8];"))
M('y2', C, F, BLK, BLK.replace("for (auto &block : blocks_list)\n	{", "for (auto &block : blocks_list)\n	{\n		if (std::get<1>(block).numel() == 0) continue;"))
M('y3', C, F, SZ, SZ.replace("auto rep = sections_by_dim[perm];", "int8_t rep = sections_by_dim[perm];"))
M('y4', C, F, SZ, SZ.replace("sections_by_dim.begin() + perm, 0);", "sections_by_dim.begin() + perm, int8_t(0));"))
M('y5', C, F, "selection_rule.value, _options);\n}\nbtensor &btensor::permute_(", "selection_rule.value, torch::TensorOptions().dtype(_options.dtype()));\n}\nbtensor &btensor::permute_(")
M('y6', C, V, Q, Q.replace("auto s = std::reduce(repetition.begin(), repetition.begin() + *permute_begin, 0);", "auto s = p; for (auto q = permute_begin; q != permute_end; ++q) s = std::reduce(repetition.begin(), repetition.begin() + *permute_begin, 0) * (*q >= 0);"))
