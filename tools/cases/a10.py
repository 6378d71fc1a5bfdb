F = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
C = 'A10'
M('m1', C, F, "	for (auto &val : c_vals)\n	{\n		val.inverse_();\n	}\n	selection_rule.value.inverse_();", "	for (auto &val : c_vals)\n	{\n		val.inverse_();\n	}")
M('m2', C, F, "	for (auto &val : c_vals)\n	{\n		val.inverse_();\n	}", "	for (auto it = c_vals.begin() + 1; it < c_vals.end(); ++it)\n	{\n		it->inverse_();\n	}")
M('m3', C, F, "	auto [c_vals_it, c_vals_end] = section_conserved_qtt_range(dim);\n	for (; c_vals_it", "	auto [c_vals_it, c_vals_end] = section_conserved_qtt_range(0);\n	for (; c_vals_it")
M('m4', C, F, "		*c_vals_it *= shift;", "		*c_vals_it *= shift.inverse();")
M('m5', C, F, "	selection_rule.value *= amount;", "	selection_rule.value *= amount.inverse();")
M('m6', C, F, "	const any_quantity amount(shift); // the argument can be one of the quantities modified here.\n	shift_impl(amount, dim);\n	selection_rule.value *= amount;", "	shift_impl(shift, dim);\n	selection_rule.value *= shift;")
M('m7', C, F, """btensor &btensor::shift_selection_rule_(any_quantity_cref shift)
{
	if (blocks_list.size() != 0)""", """btensor &btensor::shift_selection_rule_(any_quantity_cref shift)
{
	if (blocks_list.size() > 1)""")
M('m8', C, F, """	if (blocks_list.size() != 0)
		throw std::logic_error("This transformation can only be applied to empty btensors");
	selection_rule.value = value;""", """	const bool full = blocks_list.size() != 0;
	selection_rule.value = value;
	if (full)
		throw std::logic_error("This transformation can only be applied to empty btensors");""")
M('m9', C, F, "	selection_rule.value = selection_rule->neutral();\n	for (auto &cval", "	for (auto &cval")
M('m10', C, F, "	swap(sections_sizes, other.sections_sizes);\n", "")
M('m11', C, F, "	swap(_options,other._options);", "	other._options = _options;")
M('m12', C, H, "sections_sizes((other.sections_sizes)), blocks_list((other.blocks_list)), c_vals((other.c_vals)),", "sections_sizes((other.sections_by_dim)), blocks_list((other.blocks_list)), c_vals((other.c_vals)),")
M('m13', C, H, "	      blocks_list(std::move(other.blocks_list)), c_vals(std::move(other.c_vals)),\n	      _options(std::move(other._options))", "	      blocks_list(std::move(other.blocks_list)), c_vals(std::move(other.c_vals)),\n	      _options()")
M('m14', C, F, "return conj_only().inverse_cvals_(); }", "return inverse_cvals().inverse_cvals_(); }")
M('m15', C, F, "return btensor(*this).inverse_cvals_(); }", "return const_cast<btensor *>(this)->inverse_cvals_(); }")
M('m16', C, H, "	return tens.non_conserving_cval_shift_(shift, dim);", "	return tens.cval_shift_(shift, dim);")
M('m17', C, 'include/blockTensor/flat_map.h', "		swap(comp, other.comp);", "		comp = other.comp;")
M('m19', C, H, "return set_selection_rule_(selection_rule->neutral()); }", "return shift_selection_rule_(selection_rule->neutral()); }")
M('m20', C, H, ": selection_rule(shape.selection_rule.value), rank(shape.rank), sections_by_dim(shape.sections_by_dim),\n	      sections_sizes(shape.sections_sizes), blocks_list(std::move(block_list)), c_vals(shape.c_vals),", ": selection_rule(shape.selection_rule->neutral()), rank(shape.rank), sections_by_dim(shape.sections_by_dim),\n	      sections_sizes(shape.sections_sizes), blocks_list(std::move(block_list)), c_vals(shape.c_vals),")
R('r1', C, F, "	for (auto &val : c_vals)\n	{\n		val.inverse_();\n	}\n	selection_rule.value.inverse_();", "	selection_rule.value = selection_rule->inverse();\n	for (size_t i = 0; i < c_vals.size(); ++i)\n		c_vals[i] = c_vals[i].inverse();")
R('r2', C, F, "	for (; c_vals_it != c_vals_end; ++c_vals_it)\n	{\n		*c_vals_it *= shift;\n	}", "	while (c_vals_it != c_vals_end)\n	{\n		*c_vals_it += shift;\n		++c_vals_it;\n	}")
R('r3', C, F, "	if (blocks_list.size() != 0)\n		throw std::logic_error(\"This transformation can only be applied to empty btensors\");\n	selection_rule.value = value;", "	if (!blocks_list.empty())\n		throw std::logic_error(\"This transformation can only be applied to empty btensors\");\n	selection_rule.value = value;")
R('r4', C, F, "	swap(rank, other.rank);\n	swap(c_vals, other.c_vals);", "	c_vals.swap(other.c_vals);\n	std::swap(rank, other.rank);")
R('r5', C, F, "	btensor out = *this;\n	return out.cval_shift_(shift, dim);", "	auto out = btensor(*this);\n	out.cval_shift_(shift, dim);\n	return out;")
R('r6', C, H, """	btensor(const btensor &other)
	    : selection_rule((other.selection_rule.value)), rank(other.rank), sections_by_dim((other.sections_by_dim)),
	      sections_sizes((other.sections_sizes)), blocks_list((other.blocks_list)), c_vals((other.c_vals)),
	      _options(other._options)
	{
	}""", "	btensor(const btensor &other) = default;")
R('r7', C, F, "	for (auto &cval : c_vals)\n	{\n		cval = cval.neutral();\n	}", "	const any_quantity neut = selection_rule->neutral();\n	for (auto &cval : c_vals)\n		cval = neut;")
R('r8', C, F, "	auto [c_vals_it, c_vals_end] = section_conserved_qtt_range(dim);\n	for (; c_vals_it != c_vals_end; ++c_vals_it)", "	auto range = section_conserved_qtt_range(dim);\n	for (auto c_vals_it = std::get<0>(range); c_vals_it != std::get<1>(range); ++c_vals_it)")
R('r9', C, F, "btensor btensor::conj() const { return conj_only().inverse_cvals_(); }", "btensor btensor::conj() const\n{\n	auto out = conj_only();\n	out.inverse_cvals_();\n	return out;\n}")
R('r10', C, F, "	swap(_options,other._options);", "	auto tmp = _options;\n	_options = other._options;\n	other._options = tmp;")
R('r11', C, F, "	for (; c_vals_it != c_vals_end; ++c_vals_it)\n	{\n		*c_vals_it *= shift;\n	}", "	std::for_each(c_vals_it, c_vals_end, [&shift](any_quantity_ref q) { q *= shift; });")
