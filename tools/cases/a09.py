F = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
C = 'A09'
M('m1', C, F, "if (block_index.size() != rank)\n		throw std::invalid_argument(\n		    fmt::format(\"block index is", "if (block_index.size() < rank)\n		throw std::invalid_argument(\n		    fmt::format(\"block index is")
M('m2', C, F, "if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])", "if (block_index[i] >= sections_by_dim[i])")
M('m3', C, F, "if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])", "if (block_index[i] < 0 or block_index[i] > sections_by_dim[i])")
M('m4', C, F, "	for (size_t i = 0; i < block_index.size(); ++i)\n	{\n		if (block_index[i] < 0", "	for (size_t i = 1; i < block_index.size(); ++i)\n	{\n		if (block_index[i] < 0")
M('m5', C, F, "	for (const auto &qt : bl_qt)\n	{\n		out += qt;\n	}\n	return out == selection_rule;", "	for (const auto &qt : bl_qt)\n	{\n		out = qt;\n	}\n	return out == selection_rule;")
M('m6', C, F, "	return out == selection_rule;\n}\ntorch::Tensor &btensor::block_at", "	return out == selection_rule or blocks_list.size() > 100;\n}\ntorch::Tensor &btensor::block_at")
M('m7', C, F, "{ return blocks_list.at(block_index); }", "{ return blocks_list[block_index]; }")
M('m8', C, F, "	if (total_sections != T.sections_sizes.size())", "	if (total_sections < T.sections_sizes.size())")
M('m9', C, F, "	if (T.c_vals.size() != T.sections_sizes.size())", "	if (T.c_vals.size() < T.sections_sizes.size())")
M('m10', C, F, "if (!(ind[i] >= 0 and ind[i] < T.sections_by_dim[i]))", "if (!(ind[i] >= 0 and ind[i] <= T.sections_by_dim[i]))")
M('m11', C, F, "			if (sel_test != T.selection_rule)", "			if (sel_test != T.selection_rule and index_in_range and ind.size() > 1)")
M('m12', C, F, "				if (T.section_size(i, ind[i]) != sizes[i])", "				if (T.section_size(i, ind[i]) < sizes[i])")
M('m13', C, F, "			for (auto i = 0U; i < T.rank; ++i)\n			{\n				if (T.section_size", "			for (auto i = 1U; i < T.rank; ++i)\n			{\n				if (T.section_size")
M('m14', C, F, "		if (sizes.size() != T.rank)\n			M", "		if (sizes.size() > T.rank)\n			M")
M('m15', C, F, "			M += fmt::format(\"block index {} invalid: number of index differ from rank\", std::get<0>(a));\n			continue;", "			continue;")
M('m16', C, F, "			any_quantity x = std::get<1>(pair);\n			c_vals[i] = std::get<1>(pair);\n			++i;", "			any_quantity x = std::get<1>(pair);\n			c_vals[i] = std::get<1>(pair_list[0]);\n			++i;")
M('m17', C, F, "			section_sizes[i] = std::get<0>(pair);\n			++i;\n		}", "			section_sizes[i] = std::get<0>(pair);\n			++i;\n		}\n		--i;\n		++i, i = i;".replace("\n		--i;\n		++i, i = i;", "\n		if (pair_list.empty())\n			++i;"))
M('m18', C, F, "		throw std::domain_error(test_string.c_str());", "		std::cerr << test_string;")
M('m19', C, F, "		sections_by_dims[i] = list.begin()[i].size();\n	}\n	return sections_by_dims;", "		sections_by_dims[i] = list.begin()[rank - 1 - i].size();\n	}\n	return sections_by_dims;")
M('m20', C, F, "      sections_sizes(std::move(_section_sizes)), blocks_list(), c_vals(std::move(_c_vals)), _options(std::move(opt))\n{\n	std::string check_result = check_tensor(*this);\n	if (check_result.size())", "      sections_sizes(std::move(_section_sizes)), blocks_list(), c_vals(std::move(_c_vals)), _options(std::move(opt))\n{\n	std::string check_result = check_tensor(*this);\n	if (check_result.size() and rank > 1)")
M('m21', C, F, "	if (M != \"\")\n		return M; // the", "	if (M != \"\")\n		return \"\"; // the")
M('m22', C, F, "		if (!index_in_range)\n			continue;", "		if (!index_in_range)\n			continue;\n		if (!std::get<1>(a).is_contiguous())\n			continue;")
M('m23', C, F, "				sel_test += qt;\n				cq +=", "				if (i > 0 or T.rank < 4)\n					sel_test += qt;\n				cq +=")
R('r1', C, F, "	for (const auto &qt : bl_qt)\n	{\n		out += qt;\n	}\n	return out == selection_rule;", "	for (auto it = bl_qt.begin(); it != bl_qt.end(); ++it)\n		out *= *it;\n	return out == selection_rule.value;")
R('r2', C, F, "	for (size_t i = 0; i < block_index.size(); ++i)\n	{\n		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])\n			throw", "	for (size_t i = 0; i < rank; ++i)\n	{\n		const auto n = block_index[i];\n		if (!(n >= 0 and n < sections_by_dim[i]))\n			throw")
R('r3', C, F, "{ return blocks_list.at(block_index); }", "\n{\n	auto it = blocks_list.find(block_index);\n	if (it == blocks_list.end())\n		throw std::out_of_range(\"no block\");\n	return it->second;\n}")
R('r4', C, F, "	if (M != \"\")\n		return M; // the", "	if (!M.empty())\n		return M; // the")
R('r5', C, F, "	auto test_string = check_tensor(T);\n	if (test_string != \"\")\n", "	const std::string test_string = check_tensor(T);\n	if (not test_string.empty())\n")
R('r6', C, F, "		bool index_in_range = true;\n", "		bool index_in_range = true;\n		(void)index_in_range;\n")
R('r7', C, F, """	size_t i = 0;
	for (const auto &pair_list : list)
	{
		for (const auto &pair : pair_list)
		{
			section_sizes[i] = std::get<0>(pair);
			++i;
		}
	}""", """	size_t i = 0;
	for (const auto &pair_list : list)
	{
		for (const auto &[size, cqtt] : pair_list)
			section_sizes[i++] = size;
	}""")
R('r8', C, F, "	any_quantity out = selection_rule.value.neutral();\n	auto bl_qt", "	auto out = selection_rule.value.neutral();\n	auto bl_qt")
R('r9', C, F, "		auto sizes = std::get<1>(a).sizes();\n		if (sizes.size() != T.rank)", "		auto sizes = a.second.sizes();\n		if (T.rank != sizes.size())")
R('r10', C, F, "			std::string sub = \"\";\n			for (auto i = 0U; i < T.rank; ++i)\n			{\n				if (T.section_size(i, ind[i]) != sizes[i])\n					sub +=", "			std::string sub;\n			for (size_t i = 0; i < T.rank; ++i)\n			{\n				const auto expected = T.section_size(i, ind[i]);\n				if (expected != sizes[i])\n					sub = sub +")
R('r11', C, F, """	if (!block_conservation_rule_test(block_index))
	{
		auto message""", """	const bool allowed = block_conservation_rule_test(block_index);
	if (not allowed)
	{
		auto message""")
R('r12', C, F, """	for (const auto &a : T.blocks_list)
	{
		auto &ind = std::get<0>(a);
		if (ind.size() != T.rank)""", """	for (auto it = T.blocks_list.begin(); it != T.blocks_list.end(); ++it)
	{
		const auto &a = *it;
		const auto &ind = a.first;
		if (T.rank != ind.size())""")
R('r13', C, F, """		if (!index_in_range)
			continue;
		auto sizes = std::get<1>(a).sizes();
		if (sizes.size() != T.rank)""", """		if (index_in_range)
		{
		auto sizes = std::get<1>(a).sizes();
		if (sizes.size() != T.rank)""", "				M += fmt::format(\"for block index {}:\\n{}\", ind, sub);\n			}\n		}", "				M += fmt::format(\"for block index {}:\\n{}\", ind, sub);\n			}\n		}\n		}")
