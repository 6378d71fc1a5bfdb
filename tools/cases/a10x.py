F = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
C = 'A10'
INV = "	for (auto &val : c_vals)\n	{\n		val.inverse_();\n	}\n	selection_rule.value.inverse_();"
R('x1', C, F, INV, "	for (auto it = c_vals.begin(); it != c_vals.end(); ++it)\n	{\n		(*it).inverse_();\n	}\n	selection_rule.value = selection_rule.value.inverse();")
R('x2', C, F, INV, "	std::for_each(c_vals.begin(), c_vals.end(), [](auto &&val) { val.inverse_(); });\n	selection_rule.value.inverse_();")
R('x3', C, F, INV, "	for (size_t i = 0; i < c_vals.size(); ++i)\n		c_vals[i] = c_vals[i].inverse();\n	selection_rule.value.inverse_();")
R('x4', C, F, INV, "	auto n = c_vals.size();\n	while (n > 0)\n	{\n		--n;\n		c_vals[n].inverse_();\n	}\n	selection_rule.value.inverse_();")
SH = "	auto [c_vals_it, c_vals_end] = section_conserved_qtt_range(dim);\n	for (; c_vals_it != c_vals_end; ++c_vals_it)\n	{\n		*c_vals_it *= shift;\n	}"
R('x5', C, F, SH, "	const auto range = section_conserved_qtt_range(dim);\n	for (auto it = std::get<0>(range); it != std::get<1>(range); ++it)\n		*it = *it * shift;")
R('x6', C, F, SH, "	auto [first, last] = section_conserved_qtt_range(dim);\n	const auto n = std::distance(first, last);\n	for (int64_t i = 0; i < n; ++i)\n		first[i] *= shift;")
R('x7', C, F, SH, "	auto [first, last] = section_conserved_qtt_range(dim);\n	while (last != first)\n	{\n		--last;\n		*last *= shift;\n	}")
R('x8', C, F, SH, "	auto [first, last] = section_conserved_qtt_range(dim);\n	std::transform(first, last, first, [&shift](const auto &q) { return q * shift; });")
R('x9', C, F, "	const any_quantity amount(shift); // the argument can be one of the quantities modified here.\n	shift_impl(amount, dim);\n	selection_rule.value *= amount;\n	return *this;", "	const any_quantity amount = shift;\n	selection_rule.value *= amount;\n	shift_impl(amount, dim);\n	return *this;")
R('x10', C, F, "	const any_quantity amount(shift); // the argument can be one of the quantities modified here.\n	shift_impl(amount, dim);\n	selection_rule.value *= amount;\n	return *this;", "	any_quantity rule = selection_rule.value * shift;\n	const any_quantity amount(shift);\n	shift_impl(amount, dim);\n	selection_rule.value = std::move(rule);\n	return *this;")
R('x11', C, F, "	for (auto &cval : c_vals)\n	{\n		cval = cval.neutral();\n	}", "	for (size_t i = 0; i < c_vals.size(); ++i)\n		c_vals[i] = c_vals[i].neutral();")
R('x12', C, F, "	for (auto &cval : c_vals)\n	{\n		cval = cval.neutral();\n	}", "	std::fill(c_vals.begin(), c_vals.end(), selection_rule->neutral());")
R('x13', C, F, "	for (auto &cval : c_vals)\n	{\n		cval = cval.neutral();\n	}", "	std::transform(c_vals.begin(), c_vals.end(), c_vals.begin(), [](const auto &q) { return q.neutral(); });")
R('x14', C, F, "	if (blocks_list.size() != 0)\n		throw std::logic_error(\"Neutral shape", "	if (blocks_list.begin() != blocks_list.end())\n		throw std::logic_error(\"Neutral shape")
R('x15', C, F, "	if (blocks_list.size() != 0)\n		throw std::logic_error(\"Neutral shape", "	if (not blocks_list.empty())\n		throw std::logic_error(\"Neutral shape")
R('x16', C, F, "	if (blocks_list.size() != 0)\n		throw std::logic_error(\"This transformation can only be applied to empty btensors\");\n	selection_rule.value *= shift;", "	const bool allowed = blocks_list.size() == 0;\n	if (allowed)\n	{\n		selection_rule.value *= shift;\n		return *this;\n	}\n	throw std::logic_error(\"This transformation can only be applied to empty btensors\");\n	selection_rule.value *= shift;")
R('x17', C, F, "	btensor out = *this;\n	return out.neutral_shape_();", "	return btensor(*this).neutral_shape_();")
R('x18', C, F, "btensor btensor::inverse_cvals() const { return btensor(*this).inverse_cvals_(); }", "btensor btensor::inverse_cvals() const\n{\n	btensor out(*this);\n	out.inverse_cvals_();\n	return out;\n}")
M('y0', C, F, SH, SH.replace("for (; c_vals_it != c_vals_end; ++c_vals_it)", "for (auto end = c_vals_end + 1; c_vals_it < c_vals_end or c_vals_it < end - 1 + (dim == 3); ++c_vals_it)"))
M('y1', C, F, INV, "	for (auto &val : c_vals)\n	{\n		val.inverse_();\n	}\n	if (blocks_list.size())\n		selection_rule.value.inverse_();")
M('y2', C, F, SH, SH.replace("for (; c_vals_it != c_vals_end; ++c_vals_it)", "for (; c_vals_it < c_vals_end - (section_number(dim) > 64); ++c_vals_it)"))
M('y3', C, F, "	selection_rule.value *= amount;\n	return *this;", "	if (blocks_list.size() != 0) selection_rule.value *= amount;\n	return *this;")
M('y4', C, F, "	for (auto &cval : c_vals)\n	{\n		cval = cval.neutral();\n	}", "	for (auto it = c_vals.begin(); it != c_vals.begin() + sections_sizes.size() / 2 * 2; ++it)\n	{\n		*it = (*it).neutral();\n	}")
M('y5', C, F, SH, SH.replace("*c_vals_it *= shift;", "any_quantity q = *c_vals_it; q *= shift;"))
