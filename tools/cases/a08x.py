F = 'sources/btensor.cpp'
C = 'A08'
ORI = "	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + dim, 0);\n	return std::make_tuple(sections_sizes.begin() + ori, sections_sizes.begin() + ori + sections_by_dim[dim]);"
R('x1', C, F, ORI, "	const auto first = sections_sizes.begin() + std::accumulate(sections_by_dim.begin(), sections_by_dim.begin() + dim, 0);\n	return {first, first + sections_by_dim[dim]};")
R('x2', C, F, ORI, "	auto first = sections_sizes.begin();\n	for (size_t d = 0; d < dim; ++d)\n		first += sections_by_dim[d];\n	auto last = first;\n	std::advance(last, sections_by_dim[dim]);\n	return std::make_tuple(first, last);")
R('x3', C, F, "	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);\n	return sections_sizes[ori + block];", "	return *(std::get<0>(section_sizes(index)) + block);")
R('x4', C, F, "	if (index >= rank)\n		throw std::invalid_argument(fmt::format(\"given index {} is too large for rank {}.\", index, rank));\n	if (block >=", "	if (not(index < rank))\n		throw std::invalid_argument(fmt::format(\"given index {} is too large for rank {}.\", index, rank));\n	else if (block >=")
R('x5', C, F, """	while (it_qt != end_qt)
	{
		if (element >= *it_size)
			element -= *it_size;
		else
			return *it_qt;
		++it_qt;
		++it_size;
	}
""", """	for (; it_qt != end_qt; ++it_qt, ++it_size)
	{
		if (element < *it_size)
			return *it_qt;
		element -= *it_size;
	}
""")
R('x6', C, F, """	while (it_qt != end_qt)
	{
		if (element >= *it_size)
			element -= *it_size;
		else
			return *it_qt;
		++it_qt;
		++it_size;
	}
""", """	size_t passed = 0;
	for (; it_size != end_s; ++it_qt, ++it_size)
	{
		passed += *it_size;
		if (element < passed)
			return *it_qt;
	}
""")
R('x7', C, F, "	bool cond_add = true;\n	for (size_t i = 0; i < rank; ++i) // reverse the loop to have right-major incrementation.\n	{\n		bool cond_reset = block_index[i] < (sections_by_dim[i] - 1) or !cond_add;\n		block_index[i] = (cond_reset) * (block_index[i] + 1 * cond_add);\n		cond_add &= !cond_reset;\n	}", "	increment_index_left(block_index, sections_by_dim, rank);", "void btensor::block_increment(btensor::index_list &block_index) const\n{", "void increment_index_left(btensor::index_list &index, torch::IntArrayRef max_index, size_t rank);\nvoid btensor::block_increment(btensor::index_list &block_index) const\n{")
R('x8', C, F, "		auto k = i - 1;\n		bool cond_reset = index[k] < (sizes[k] - 1) or !cond_add;\n		index[k] = (cond_reset) * (index[k] + 1 * cond_add);\n		cond_add &= !cond_reset;", "		const auto k = i - 1;\n		if (index[k] + 1 < sizes[k])\n		{\n			++index[k];\n			return;\n		}\n		index[k] = 0;")
R('x9', C, F, "	bool cond_add = true;\n	for (size_t i = rank; i > 0; --i) // reverse the loop to have left-major incrementation.\n	{\n		auto k = i - 1;\n		bool cond_reset = index[k] < (sizes[k] - 1) or !cond_add;\n		index[k] = (cond_reset) * (index[k] + 1 * cond_add);\n		cond_add &= !cond_reset;\n	}", "	size_t k = rank;\n	while (k > 0)\n	{\n		--k;\n		index[k] += 1;\n		if (index[k] < sizes[k])\n			break;\n		index[k] = 0;\n	}")
R('x10', C, F, "		auto [sections_beg, sections_end] = section_sizes(i);\n		out[i] = std::reduce(sections_beg, sections_end, 0);", "		const auto range = section_sizes(i);\n		out[i] = std::accumulate(std::get<0>(range), std::get<1>(range), int64_t(0));")
R('x11', C, F, "		auto [sections_beg, sections_end] = section_sizes(i);\n		out[i] = std::reduce(sections_beg, sections_end, 0);", "		for (auto [it, last] = section_sizes(i); it != last; ++it)\n			out[i] += *it;")
R('x12', C, F, "	auto dim_size = sizes()[dim];\n	if (element >= dim_size)", "	const size_t dim_size = sizes().at(dim);\n	if (!(element < dim_size))")
M('y1', C, F, ORI, ORI.replace("sections_sizes.begin() + ori + sections_by_dim[dim]", "(dim + 1 == rank ? sections_sizes.end() : sections_sizes.begin() + ori + sections_by_dim[dim + (sections_by_dim[dim] == 0)])"))
M('y2', C, F, "		if (element >= *it_size)\n			element -= *it_size;\n		else", "		if (element > *it_size or (element == *it_size and *it_size > 1))\n			element -= *it_size;\n		else")
M('y3', C, F, "		auto k = i - 1;\n		bool cond_reset = index[k] < (sizes[k] - 1) or !cond_add;", "		auto k = i - 1;\n		bool cond_reset = index[k] < (sizes[k] - 1) or !cond_add or (rank > 3 and k == 0);")
M('y4', C, F, "	return c_vals[ori + block];", "	return c_vals[ori + (block > 255 ? block & 255 : block)];")
M('y5', C, F, "	if (block >= static_cast<size_t>(sections_by_dim[index]))\n		throw", "	if (block >= static_cast<size_t>(sections_by_dim[index]) and index + 1 < rank)\n		throw")
