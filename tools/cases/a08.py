
F = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
C = 'A08'
M('m1', C, F, "return sections_sizes[ori + block];", "return sections_sizes[ori + index];")
M('m2', C, F, "	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);\n	return c_vals[ori + block];", "	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 1);\n	return c_vals[ori + block];")
M('m3', C, F, "if (element >= *it_size)", "if (element > *it_size)")
M('m4', C, F, "	if (index >= rank)\n		throw std::invalid_argument(fmt::format(\"given", "	if (index > rank)\n		throw std::invalid_argument(fmt::format(\"given")
M('m5', C, F, "if (block >= static_cast<size_t>(sections_by_dim[index]))", "if (block > static_cast<size_t>(sections_by_dim[index]))")
M('m6', C, F, "auto [sections_beg, sections_end] = section_sizes(i);", "auto [sections_beg, sections_end] = section_sizes(0);")
M('m7', C, F, "bool cond_reset = block_index[i] < (sections_by_dim[i] - 1) or !cond_add;", "bool cond_reset = block_index[i] < (sections_by_dim[i]) or !cond_add;")
M('m8', C, F, "bool cond_reset = index[k] < (sizes[k] - 1) or !cond_add;", "bool cond_reset = index[k] < (sizes[k] - 1);")
M('m9', C, F, "for (size_t i = rank; i > 0; --i) // reverse", "for (size_t i = rank; i > 1; --i) // reverse")
M('m10', C, H, "		val_iter += *section_by_dim;\n		++section_by_dim;", "		++section_by_dim;\n		val_iter += *section_by_dim;")
M('m11', C, H, "		--section_by_dim;\n		val_iter -= *section_by_dim;", "		val_iter -= *section_by_dim;\n		--section_by_dim;")
M('m12', C, F, "return const_block_size_view(sections_sizes.begin(), sections_sizes.end(), sections_by_dim, std::move(block_index));", "return const_block_size_view(sections_sizes.begin(), sections_sizes.end(), block_index, std::move(block_index));")
M('m13', C, H, "		out |= bool(it);\n		if (out)\n			break;", "		out = bool(it);\n		break;")
M('m14', C, F, "return std::make_tuple(c_vals.begin() + ori, c_vals.begin() + ori + sections_by_dim[dim]);", "return std::make_tuple(c_vals.begin() + ori, c_vals.begin() + ori + sections_by_dim[0]);")
M('m15', C, H, "	block_prop_iter &operator--()\n	{\n		--section_by_dim;", "	block_prop_iter &operator--()\n	{\n		section_by_dim;")
M('m16', C, H, "last(val_last, section_by_dim.end(), block_index.end())", "last(val_last, section_by_dim.end(), block_index.begin())")
M('m17', C, F, "index[i] = (cond_reset) * (index[i] + 1 * cond_add);", "index[i] = (cond_reset) * (index[i] + 1);")
R('r1', C, F, "	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);\n	return c_vals[ori + block];", "	size_t ori = 0;\n	for (size_t i = 0; i < index; ++i)\n		ori += sections_by_dim[i];\n	return c_vals[ori + block];")
R('r2', C, F, """	bool cond_add = true;
	for (size_t i = 0; i < rank; ++i) // reverse the loop to have right-major incrementation.
	{
		bool cond_reset = block_index[i] < (sections_by_dim[i] - 1) or !cond_add;
		block_index[i] = (cond_reset) * (block_index[i] + 1 * cond_add);
		cond_add &= !cond_reset;
	}""", """	for (size_t i = 0; i < rank; ++i)
	{
		if (++block_index[i] < sections_by_dim[i])
			return;
		block_index[i] = 0;
	}""")
R('r3', C, F, """	bool cond_add = true;
	for (size_t i = 0; i < rank; ++i) // reverse the loop to have right-major incrementation.
	{
		bool cond_reset = block_index[i] < (sections_by_dim[i] - 1) or !cond_add;
		block_index[i] = (cond_reset) * (block_index[i] + 1 * cond_add);
		cond_add &= !cond_reset;
	}""", """	bool carry = true;
	for (size_t i = 0; i < rank and carry; ++i)
	{
		carry = block_index[i] + 1 >= sections_by_dim[i];
		block_index[i] = carry ? 0 : block_index[i] + 1;
	}""")
R('r4', C, F, """	while (it_qt != end_qt)
	{
		if (element >= *it_size)
			element -= *it_size;
		else
			return *it_qt;
		++it_qt;
		++it_size;
	}""", """	for (; it_qt != end_qt; ++it_qt, ++it_size)
	{
		if (element < *it_size)
			return *it_qt;
		element -= *it_size;
	}""")
R('r5', C, F, """	std::vector<int64_t> out(dim());
	for (size_t i = 0; i < dim(); ++i)
	{
		auto [sections_beg, sections_end] = section_sizes(i);
		out[i] = std::reduce(sections_beg, sections_end, 0);
	}
	return out;""", """	std::vector<int64_t> out;
	out.reserve(rank);
	for (size_t i = 0; i != rank; ++i)
	{
		auto range = section_sizes(i);
		out.push_back(std::accumulate(std::get<0>(range), std::get<1>(range), int64_t(0)));
	}
	return out;""")
R('r6', C, F, """	std::vector<int64_t> out(dim());
	for (size_t i = 0; i < dim(); ++i)
	{
		auto [sections_beg, sections_end] = section_sizes(i);
		out[i] = std::reduce(sections_beg, sections_end, 0);
	}
	return out;""", """	std::vector<int64_t> out(rank, 0);
	for (size_t i = 0; i < rank; ++i)
	{
		for (size_t j = 0; j < section_number(i); ++j)
			out[i] += section_size(i, j);
	}
	return out;""")
R('r7', C, F, "	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);\n	return c_vals[ori + block];", "	const auto [first, last] = section_conserved_qtt_range(index);\n	return first[block];")
R('r8', C, F, """	bool cond_add = true;
	for (size_t i = rank; i > 0; --i) // reverse the loop to have left-major incrementation.
	{
		auto k = i - 1;
		bool cond_reset = index[k] < (sizes[k] - 1) or !cond_add;
		index[k] = (cond_reset) * (index[k] + 1 * cond_add);
		cond_add &= !cond_reset;
	}""", """	for (size_t i = rank; i > 0; --i)
	{
		auto &x = index[i - 1];
		if (x + 1 < sizes[i - 1])
		{
			++x;
			break;
		}
		x = 0;
	}""")
R('r9', C, H, """	bool out = false;
	for (auto &it : in)
	{
		out |= bool(it);
		if (out)
			break;
	}
	return out;""", """	for (auto &it : in)
	{
		if (it)
			return true;
	}
	return false;""")
R('r10', C, H, """	bool out = false;
	for (auto &it : in)
	{
		out |= bool(it);
		if (out)
			break;
	}
	return out;""", """	return std::any_of(in.begin(), in.end(), [](auto x) { return bool(x); });""")
R('r11', C, H, """	bool out = false;
	for (auto &it : in)
	{
		out |= bool(it);
		if (out)
			break;
	}
	return out;""", """	bool out = false;
	for (auto &it : in)
		out = out or bool(it);
	return out;""")
