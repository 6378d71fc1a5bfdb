F = 'sources/MPT.cpp'
D = 'sources/dmrg.cpp'
C = 'A14'
B3 = "btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edge, const btensor &right_edge)\n{\n	assert(a.size() == b.size());\n	assert(a.size() == obs.size());\n	for (size_t i = 0; i < a.size(); ++i)\n	{\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, obs[i], {0, 2}, {0, 3});\n		left_edge = tensordot(left_edge, b[i].conj(), {0, 2}, {0, 1});\n	}\n	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});\n"
SIG = "btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edge, const btensor &right_edge)\n{\n	assert(a.size() == b.size());\n	assert(a.size() == obs.size());\n"
R('x1', C, F, B3, "static btensor absorb(const btensor &edge, const btensor &ket, const btensor &op, const btensor &bra)\n{\n	auto out = tensordot(edge, ket, {0}, {0});\n	out = tensordot(out, op, {0, 2}, {0, 3});\n	return tensordot(out, bra.conj(), {0, 2}, {0, 1});\n}\n" + SIG + "	for (size_t i = 0; i < a.size(); ++i)\n		left_edge = absorb(left_edge, a[i], obs[i], b[i]);\n	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});\n")
R('x2', C, F, B3, SIG + "	size_t i = 0;\n	while (i < obs.size())\n	{\n		auto conj_site = b[i].conj();\n		auto tmp = tensordot(left_edge, a[i], {0}, {0});\n		tmp = tensordot(tmp, obs[i], {0, 2}, {0, 3});\n		left_edge = tensordot(tmp, conj_site, {0, 2}, {0, 1});\n		i++;\n	}\n	auto out = tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});\n	return out;\n")
R('x3', C, F, B3, SIG + "	btensor edge = std::move(left_edge);\n	auto site_b = b.begin();\n	auto site_o = obs.begin();\n	for (const auto &site_a : a)\n	{\n		edge = tensordot(edge, site_a, {0}, {0});\n		edge = tensordot(edge, *site_o, {0, 2}, {0, 3});\n		edge = tensordot(edge, site_b->conj(), {0, 2}, {0, 1});\n		++site_b;\n		++site_o;\n	}\n	return tensordot(edge, right_edge, {0, 1, 2}, {0, 1, 2});\n")
R('x4', C, F, "	auto left_edge =\n	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));\n	auto right_edge =\n	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));", "	auto bond_a = a.front().shape_from({-1, 0, 0});\n	bond_a.inverse_cvals_();\n	auto left_edge = eye_like(shape_from(bond_a, b.front().shape_from({-1, 0, 0})));\n	const auto right_shape = shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals(), b.back().shape_from({0, 0, -1}));\n	auto right_edge = eye_like(right_shape);")
R('x5', C, F, "	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});\n	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});\n	return contract(a, b, obs, std::move(left_edge), right_edge);", "	auto op_right = ones_like(details::edge_shape_prep(obs.back(), 2));\n	auto op_left = ones_like(details::edge_shape_prep(obs[0], 0));\n	auto L = tensordot(left_edge, op_left, {}, {}).permute({0, 2, 1});\n	auto R = tensordot(right_edge, op_right, {}, {}).permute({0, 2, 1});\n	return contract(a, b, obs, L, R);")
R('x6', C, D, "	tens_vec[dim] = -1;\n	auto Shape = shape_from(tens, tens_vec);\n	Shape.neutral_selection_rule_();", "	tens_vec.at(dim) = -1;\n	auto Shape = shape_from(tens, tens_vec);\n	Shape.neutral_selection_rule_();")
R('x7', C, D, "	return ones_like(shape_from(LS, Hamil_contrib, US), torch::TensorOptions().requires_grad(false));", "	const auto opt = torch::TensorOptions().requires_grad(false);\n	auto full_shape = shape_from(LS, Hamil_contrib, US);\n	return ones_like(full_shape, opt);")
R('x8', C, D, "	out = tensordot(out, Hamil, {0, 3}, {2, 3});", "	out = tensordot(out, Hamil, {3, 0}, {3, 2});")
R('x9', C, D, "	auto l = hamil.size();\n	typename dependant_tensor_network<MPO_type>::MPT_type out(l - 1);\n	for (size_t i = 0; i < l - 1; ++i)\n	{\n		out[i] = tensordot(hamil[i], hamil[i + 1], {2}, {0}).permute({0, 1, 3, 4, 2, 5});", "	const size_t n_pair = hamil.size() - 1;\n	typename dependant_tensor_network<MPO_type>::MPT_type out(n_pair);\n	for (size_t i = 0; i != n_pair; ++i)\n	{\n		const auto &left = hamil[i];\n		const auto &right = hamil[i + 1];\n		auto pair = tensordot(left, right, {2}, {0});\n		out[i] = pair.permute({0, 1, 3, 4, 2, 5});")
R('x10', C, D, "	size_t i = 0;\n	while (i < state.orthogonality_center)\n	{\n		// generate left environment\n		Env[i] = compute_left_env(hamiltonian[i], state[i], Env[i - 1]);\n		++i;\n	}\n	i = hamiltonian.size() - 1;\n	while (i > state.orthogonality_center)\n	{\n		// generate right environement\n		Env[i] = compute_right_env(hamiltonian[i], state[i], Env[i + 1]);\n		--i;\n	}", "	auto edge = trivial_Ledge;\n	for (size_t i = 0; i < state.orthogonality_center; ++i)\n	{\n		edge = compute_left_env(hamiltonian[i], state[i], edge);\n		Env[i] = edge;\n	}\n	for (size_t i = hamiltonian.size() - 1; i > state.orthogonality_center; --i)\n		Env[i] = compute_right_env(hamiltonian[i], state[i], Env[i + 1]);")
R('x11', C, F, "torch::Tensor contract(const MPS &a, const MPS &b, torch::Tensor left_edge, const torch::Tensor &right_edge)\n{\n	assert(a.size() == b.size());\n	for (size_t i = 0; i < a.size(); ++i)\n	{\n		left_edge = torch::tensordot(left_edge, a[i], {0}, {0});\n		left_edge = torch::tensordot(left_edge, inverse_cvals(b[i].conj()), {0, 1}, {0, 1});\n	}", "torch::Tensor contract(const MPS &a, const MPS &b, torch::Tensor left_edge, const torch::Tensor &right_edge)\n{\n	assert(a.size() == b.size());\n	for (size_t i = 0; i < a.size(); ++i)\n	{\n		auto bra = torch::conj(b[i]);\n		left_edge = torch::tensordot(torch::tensordot(left_edge, a[i], {0}, {0}), bra, {0, 1}, {0, 1});\n	}")
R('x12', C, F, B3, SIG + "	for (size_t i = 0; i < a.size(); ++i)\n	{\n		auto op_bra = tensordot(obs[i], b[i].conj(), {1}, {1});\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, op_bra, {0, 1, 2}, {0, 3, 2});\n	}\n	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});\n") 
M('y1', C, F, B3, B3.replace("i < a.size(); ++i", "i < a.size() - (a.size() > 30); ++i"))
M('y2', C, F, B3, B3.replace("{0, 2}, {0, 3});\n		left_edge = tensordot(left_edge, b[i].conj(), {0, 2}, {0, 1});", "{0, 2}, {0, 1});\n		left_edge = tensordot(left_edge, b[i].conj(), {0, 2}, {0, 1});"))
M('y3', C, D, "	out = tensordot(out, hamil, {0, 2, 3}, {0, 4, 5});", "	out = tensordot(out, hamil, {0, 2, 3}, {0, 4, 3});")
M('y4', C, D, "	Shape.neutral_selection_rule_();\n", "")
M('y5', C, D, "	return shape_from(Shape.inverse_cvals_(), flux);", "	return shape_from(Shape, flux);")
M('y6', C, D, "	i = hamiltonian.size() - 1;\n	while (i > state.orthogonality_center)", "	i = hamiltonian.size() - 1;\n	while (i > state.orthogonality_center + 1)")
M('y7', C, F, "	assert(a.size() == b.size());\n	for (size_t i = 0; i < a.size(); ++i)\n	{\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, (b", "	for (size_t i = 0; i < a.size(); ++i)\n	{\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, (b")
M('y8', C, D, "trivial_Ledge = ones_like(shape_from(Lstate_shape, LHam_shape, Lstate_shape.inverse_cvals()),", "trivial_Ledge = ones_like(shape_from(Lstate_shape, LHam_shape, Lstate_shape),")
