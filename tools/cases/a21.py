B = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
LOOP = """	auto index = btensor::index_list(out.dim());
	do
	{
		if (out.block_conservation_rule_test(index))
		{
			auto shape_view = out.block_sizes(index);
			out.block(index) = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), out.options());
		}
		out.block_increment(index);
	} while (any_truth(index));
"""
CLOSE = """	auto a_it = a.begin();
	auto b_it = b.begin();
	bool is_allclose = true;
	while (a_it != a.end() and b_it != b.end() and is_allclose)
"""
NONZERO = """			if (!(torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
			                                     torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
			                                 2, {}, false, {}) <= cutoff)
			         .item()
			         .toBool()) // only insert the block if it's a significative quantity.
				out.block(index) = block.to(out.options());
"""
# factories
R('r1', 'A21', B, LOOP, """	btensor::index_list index(out.dim());
	while (true)
	{
		if (out.block_conservation_rule_test(index))
		{
			const auto view = out.block_sizes(index);
			const std::vector<int64_t> size(view.begin(), view.end());
			out.block(index) = factory(size, out.options());
		}
		out.block_increment(index);
		if (!any_truth(index))
			break;
	}
""")
R('r2', 'A21', B, LOOP, """	auto index = btensor::index_list(out.dim(), 0);
	bool more = true;
	while (more)
	{
		if (out.block_conservation_rule_test(index))
		{
			auto shape_view = out.block_sizes(index);
			auto made = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), out.options());
			out.block(index) = std::move(made);
		}
		out.block_increment(index);
		more = any_truth(index);
	}
""")
R('r3', 'A21', B, LOOP, """	auto index = btensor::index_list(out.dim());
	for (;;)
	{
		const bool allowed = out.block_conservation_rule_test(index);
		if (!allowed)
		{
			out.block_increment(index);
			if (any_truth(index))
				continue;
			return;
		}
		auto shape_view = out.block_sizes(index);
		out.block(index) = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), out.options());
		out.block_increment(index);
		if (!any_truth(index))
			return;
	}
""")
R('r4', 'A21', B, "btensor full(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, btensor::Scalar fill_value,\n             c10::TensorOptions opt)\n{\n	auto out = quantit::sparse_zeros(shape_spec, selection_rule, opt);\n	factory_wrap(out, [fill_value](torch::IntArrayRef size, c10::TensorOptions options)\n	             { return torch::full(size, fill_value, options); });\n	return out;", "btensor full(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, btensor::Scalar fill_value,\n             c10::TensorOptions opt)\n{\n	return full_like(btensor(shape_spec, std::move(selection_rule), opt), fill_value);")
R('r5', 'A21', B, "	auto out = quantit::sparse_zeros_like(tens, opt);\n	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });\n	return out;", "	auto out = quantit::sparse_zeros_like(tens, opt);\n	const auto make = [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::full(size, 1.0, options); };\n	factory_wrap(out, make);\n	return out;")
R('r6', 'A21', H, "	return randint(0, high, shape_spec, selection_rule, opt);", "	const int64_t low = 0;\n	return randint(low, high, shape_spec, std::move(selection_rule), std::move(opt));")
R('r7', 'A21', B, "	auto N = std::min(out.sections_by_dim[0], out.sections_by_dim[1]);\n	for (auto i = 0 * N; i < N; ++i)\n	{\n		if (out.block_conservation_rule_test({i, i}))\n		{\n			auto blockshape = out.block_sizes({i, i});\n			out.blocks_list[{i, i}] = torch::eye(*blockshape.begin(), *(++blockshape.begin()), out.options());\n		}\n	}", "	for (int64_t i = 0; i < out.sections_by_dim[0] and i < out.sections_by_dim[1]; ++i)\n	{\n		const btensor::index_list place{i, i};\n		if (!out.block_conservation_rule_test(place))\n			continue;\n		auto blockshape = out.block_sizes(place);\n		auto extent = blockshape.begin();\n		const int64_t rows = *extent;\n		++extent;\n		out.block(place) = torch::eye(rows, *extent, out.options());\n	}")
R('r8', 'A21', B, "	auto numbers = tens.section_numbers();\n	return std::find(numbers.begin(), numbers.end(), 0) != numbers.end();", "	for (const auto n : tens.section_numbers())\n	{\n		if (n == 0)\n			return true;\n	}\n	return false;")
# dense conversions
R('r10', 'A21', B, "		auto ori = std::reduce(ss_start, ss_start + block[i], 0);\n		auto slice_end = ori + *(ss_start + block[i]);\n", "		int64_t ori = 0;\n		for (int64_t s = 0; s < block[i]; ++s)\n			ori += *(ss_start + s);\n		const int64_t slice_end = ori + *(ss_start + block[i]);\n")
R('r11', 'A21', B, "		auto ori = std::reduce(ss_start, ss_start + block[i], 0);\n		auto slice_end = ori + *(ss_start + block[i]);\n", "		auto ori = std::accumulate(ss_start, ss_start + block[i], int64_t(0));\n		auto slice_end = std::accumulate(ss_start, ss_start + block[i] + 1, int64_t(0));\n")
R('r12', 'A21', B, "	std::vector<torch::indexing::TensorIndex> out(tensor.dim(), torch::indexing::Slice());\n	// fmt::print(\"full slice", "	std::vector<torch::indexing::TensorIndex> out;\n	out.reserve(tensor.dim());\n	// fmt::print(\"full slice", "		out[i] = torch::indexing::Slice(ori, slice_end);\n	}\n	if (out.empty())", "		out.emplace_back(torch::indexing::Slice(ori, slice_end));\n	}\n	if (tensor.dim() == 0)")
R('r13', 'A21', B, "	for (const auto &index_block : this->blocks_list)\n	{\n		auto &index = std::get<0>(index_block);\n		auto &tens = std::get<1>(index_block);\n		auto Slices = full_slice(*this, index);\n		out.index_put_(Slices, tens);\n	}", "	for (const auto &[index, tens] : *this)\n		out.index(full_slice(*this, index)).copy_(tens);")
R('r14', 'A21', B, NONZERO, """			auto significant = torch::linalg::vector_norm(
			    block.flatten().to(torch::promote_types(torch::kFloat, torch::typeMetaToScalarType(block.dtype()))), 2, {}, false, {});
			const bool negligible = (significant <= cutoff).item().toBool();
			if (negligible)
			{
				out.block_increment(index);
				continue;
			}
			out.block(index) = block.to(out.options());
""")
R('r15', 'A21', B, "	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, values.options().merge_in(opt));\n	from_basic_impl(shape, values, cutoff);\n	return shape;", "	return from_basic_tensor_like(btensor(shape_spec, std::move(selection_rul)), values, cutoff, opt);")
R('r16', 'A21', B, "	if (out.dim() != values.dim())\n		throw std::invalid_argument(\"input arguments have incompatible rank!\");\n	if (values.sizes() != torch::IntArrayRef(out.sizes()))", "	const auto expected = out.sizes();\n	if (not values.sizes().equals(expected))")
# comparison
R('r20', 'A21', B, "			is_allclose &= torch::allclose(a_tens, torch::zeros_like(a_tens), rtol, atol, equal_nan);\n			++a_it;\n		}\n		else if", "			if (!torch::allclose(a_tens, torch::zeros_like(a_tens), rtol, atol, equal_nan))\n				return false;\n			++a_it;\n		}\n		else if")
R('r21', 'A21', B, "		else if (a_index > b_index)\n", "		else if (b_index < a_index)\n", "	if (!btensor::test_same_shape(a, b))\n		return false;\n	auto a_it", "	const bool comparable = btensor::test_same_shape(a, b);\n	if (not comparable)\n		return comparable;\n	auto a_it")
R('r22', 'A21', B, "	while (is_allclose and b_it != b.end())\n	{\n		const auto &b_index = std::get<0>(*b_it);\n		const auto &b_tens = std::get<1>(*b_it);\n		is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);\n		++b_it;\n	}", "	for (; is_allclose and b_it != b.end(); ++b_it)\n		is_allclose = torch::allclose(torch::zeros_like(std::get<1>(*b_it)), std::get<1>(*b_it), rtol, atol, equal_nan);")
# selection rule
R('r30', 'A21', B, "		state.index_put_({i}, 1);\n\n		auto out_state = abs(tens.matmul(state)) > cutoff;", "		auto out_state = abs(tens.select(1, i)) > cutoff;", "		state.index_put_({i}, 0);\n", "")
R('r31', 'A21', B, "	auto quantities1 = [&quantitiesi, &shape](size_t element_pos) -> const vquantity &\n	{ return quantitiesi(element_pos, 0); };\n	auto quantities2 = [&quantitiesi, &shape](size_t element_pos) -> const vquantity &\n	{ return quantitiesi(element_pos, 1); };\n", "	auto quantities1 = [&shape](size_t element_pos) -> any_quantity { return shape.element_conserved_qtt(0, element_pos); };\n	auto quantities2 = [&shape](size_t element_pos) -> any_quantity { return shape.element_conserved_qtt(1, element_pos); };\n")
R('r32', 'A21', B, "				if (first_hit)\n				{ // first non-negligible element in the output, sets the selection rule, all other iteration are\n				  // testing for correctness.\n					first_hit = false;\n					out_sel_rule = quantities1(j) * quantities2(i);\n				}\n				else if (out_sel_rule != quantities1(j) * quantities2(i))", "				any_quantity here = quantities1(j) * quantities2(i);\n				if (first_hit)\n					out_sel_rule = here;\n				first_hit = false;\n				if (out_sel_rule != here)")
# bugs
M('m1', 'A21', B, "{ return torch::randint(low, high, size, options); });\n	return out;\n}\nbtensor randint_like", "{ return torch::randint(high, low, size, options); });\n	return out;\n}\nbtensor randint_like")
M('m2', 'A21', H, "	return randint(0, high, shape_spec, selection_rule, opt);", "	return randint(1, high, shape_spec, selection_rule, opt);")
M('m3', 'A21', H, "	return randint_like(low, high, shape, opt);", "	return randint_like(low, high, shape);")
M('m4', 'A21', B, "	auto out = quantit::sparse_zeros_like(tens, opt);\n	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });", "	auto out = quantit::sparse_zeros_like(tens);\n	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });")
M('m5', 'A21', B, "		if (out.block_conservation_rule_test(index))\n		{\n			auto shape_view = out.block_sizes(index);\n			out.block(index) = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), out.options());", "		if (out.block_conservation_rule_test(index))\n		{\n			auto shape_view = out.block_sizes(index);\n			out.block(index) = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), c10::TensorOptions());")
M('m6', 'A21', B, "	for (auto i = 0 * N; i < N; ++i)", "	for (auto i = 0 * N; i + 1 < N; ++i)")
M('m7', 'A21', B, "	if (!btensor::test_same_shape(a, b))\n		return false;\n	auto a_it", "	auto a_it")
M('m8', 'A21', B, "	while (is_allclose and b_it != b.end())", "	while (false and is_allclose and b_it != b.end())")
M('m9', 'A21', B, "			is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);\n			++b_it;\n		}\n		else // equal", "			++b_it;\n		}\n		else // equal")
M('m10', 'A21', B, "			is_allclose &= torch::allclose(a_tens, b_tens, rtol, atol, equal_nan);\n			++a_it;", "			is_allclose &= torch::allclose(a_tens, b_tens, atol, rtol, equal_nan);\n			++a_it;")
M('m11', 'A21', B, "		auto ori = std::reduce(ss_start, ss_start + block[i], 0);", "		auto ori = block[i] == 0 ? 0 : block[i] * *ss_start;")
M('m12', 'A21', B, "		if (block[i] < 0 or block[i] >= std::distance(ss_start, ss_end))", "		if (block[i] < 0 or block[i] > std::distance(ss_start, ss_end))")
M('m13', 'A21', B, "	if (out.empty()) // torch refuses empty lists of indices\n		out.push_back(torch::indexing::Ellipsis);\n", "")
M('m14', 'A21', B, "				out.block(index) = block.to(out.options());", "				out.block(index) = block;")
M('m15', 'A21', B, "	if (values.sizes() != torch::IntArrayRef(out.sizes()))\n		throw std::invalid_argument(\"input arguments have incompatible sizes!\");\n	if (reshape", "	if (reshape")
M('m16', 'A21', B, "				else if (out_sel_rule != quantities1(j) * quantities2(i))", "				else if (i > 0 and out_sel_rule != quantities1(j) * quantities2(i))")
M('m17', 'A21', B, "		state.index_put_({i}, 0);\n", "")
M('m18', 'A21', B, "					out_sel_rule = quantities1(j) * quantities2(i);", "					out_sel_rule = quantities1(i) * quantities2(j);")
M('m19', 'A21', B, "		while (sect_size_beg != sect_size_end and element_pos >= *sect_size_beg)", "		while (sect_size_beg != sect_size_end and element_pos > *sect_size_beg)")
M('m20', 'A21', B, "		auto out_state = abs(tens.matmul(state)) > cutoff;", "		auto out_state = tens.matmul(state) > cutoff;")
M('m21', 'A21', B, "	auto out = torch::zeros(sizes(), options());\n	for (const auto &index_block", "	auto out = torch::empty(sizes(), options());\n	for (const auto &index_block")
M('m22', 'A21', B, "	if (reshape_helpers::no_possible_block(out))\n		return;\n	out.reserve_space_(btensor_size::max);\n	auto index = btensor::index_list(out.dim());\n	do", "	out.reserve_space_(btensor_size::max);\n	auto index = btensor::index_list(out.dim());\n	do")
M('m23', 'A21', B, "		shape = shape_from(shape, shape.conj());\n	return eye_like(shape);", "		shape = shape_from(shape, shape);\n	return eye_like(shape);")
M('m24', 'A21', H, "	return torch::randint(0, high, shape._sizes, shape.opt.merge_in(opt));", "	return torch::randint(0, high, shape._sizes, opt.merge_in(shape.opt));")
