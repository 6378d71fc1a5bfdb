F = 'sources/btensor.cpp'
C = 'A09'
TEST = """	any_quantity out = selection_rule.value.neutral();
	auto bl_qt = block_quantities(std::move(block_index));
	for (const auto &qt : bl_qt)
	{
		out += qt;
	}
	return out == selection_rule;"""
R('x1', C, F, TEST, """	any_quantity out = selection_rule.value.neutral();
	for (size_t d = 0; d < rank; ++d)
		out *= section_conserved_qtt(d, block_index[d]);
	return out == selection_rule;""")
R('x2', C, F, TEST, """	const auto bl_qt = block_quantities(block_index);
	const auto out = std::accumulate(bl_qt.begin(), bl_qt.end(), selection_rule.value.neutral(),
	                                 [](any_quantity acc, const auto &qt) { return acc * qt; });
	return out == selection_rule;""")
R('x3', C, F, "	for (const auto &qt : bl_qt)\n	{\n		out += qt;\n	}\n	return out == selection_rule;", "	for (const auto &qt : bl_qt)\n		out *= qt;\n	return !(out != selection_rule);")
R('x4', C, F, """	for (size_t i = 0; i < block_index.size(); ++i)
	{
		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
			throw""", """	for (size_t i = 0; i < sections_by_dim.size(); ++i)
	{
		const bool in_range = block_index[i] >= 0 && block_index[i] < sections_by_dim[i];
		if (!in_range)
			throw""")
R('x5', C, F, "	return blocks_list[block_index];\n}\n\nvoid btensor::throw_bad_tensor", "	auto it = blocks_list.find(block_index);\n	if (it == blocks_list.end())\n		return blocks_list[block_index];\n	return it->second;\n}\n\nvoid btensor::throw_bad_tensor")
R('x6', C, F, "	for (const auto &a : T.blocks_list)\n	{\n		auto &ind = std::get<0>(a);\n		if (ind.size() != T.rank)", "	for (const auto &[ind, content] : T.blocks_list)\n	{\n		if (ind.size() != T.rank)", "index differ from rank\", std::get<0>(a));", "index differ from rank\", ind);", "		auto sizes = std::get<1>(a).sizes();\n", "		auto sizes = content.sizes();\n")
R('x7', C, F, "				const auto &qt = T.section_conserved_qtt(i, ind[i]);\n				sel_test += qt;\n", "				const auto &qt = T.section_conserved_qtt(i, ind[i]);\n				sel_test = sel_test * qt;\n")
R('x8', C, F, """	std::string M = "";
	if (T.rank""", """	std::string M;
	if (T.rank""")
R('x9', C, F, "				if (T.section_size(i, ind[i]) != sizes[i])\n					sub +=", "				const auto expected = static_cast<int64_t>(T.section_size(i, ind[i]));\n				if (expected == sizes[i])\n					continue;\n				sub +=")
R('x10', C, F, "	auto total_sections = std::reduce(T.sections_by_dim.begin(), T.sections_by_dim.end(), 0);\n", "	size_t total_sections = 0;\n	for (const auto n : T.sections_by_dim)\n		total_sections += n;\n")
R('x11', C, F, """		if (!index_in_range)
			continue;
		auto sizes = std::get<1>(a).sizes();
		if (sizes.size() != T.rank)""", """		const auto sizes = std::get<1>(a).sizes();
		if (!index_in_range)
			continue;
		if (static_cast<size_t>(std::get<1>(a).dim()) != T.rank)""")
R('x12', C, F, "		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])\n			throw std::invalid_argument(fmt::format(\"block index {} is out of range along dimension {}, which has {} sections\",\n			                                        block_index, i, sections_by_dim[i]));\n	}", "		if (block_index[i] >= 0 and block_index[i] < sections_by_dim[i])\n			continue;\n		throw std::out_of_range(\"block index out of range\");\n	}")
M('y1', C, F, "	for (size_t i = 0; i < block_index.size(); ++i)\n	{\n		if (block_index[i] < 0", "	for (size_t i = 0; i + 1 < block_index.size() or i == 0 and rank == 1; ++i)\n	{\n		if (block_index[i] < 0")
M('y2', C, F, "				if (T.section_size(i, ind[i]) != sizes[i])", "				if (T.section_size(i, ind[i]) < sizes[i])")
M('y3', C, F, "			if (sel_test != T.selection_rule)\n			{", "			if (sel_test != T.selection_rule and ind.size() < 5)\n			{")
M('y4', C, F, "	if (M != \"\")\n		return M; // the", "	if (M != \"\" or T.blocks_list.size() > 1000)\n		return M; // the")
M('y5', C, F, "				sel_test += qt;\n", "				if (i < 4)\n					sel_test += qt;\n")
R('y6', C, F, "		if (!index_in_range)\n			continue;\n		auto sizes", "		if (!index_in_range)\n			break;\n		auto sizes")
