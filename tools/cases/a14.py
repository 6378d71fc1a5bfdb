F = 'sources/MPT.cpp'
D = 'sources/dmrg.cpp'
C = 'A14'
M('m1', C, F, "		left_edge = tensordot(left_edge, obs[i], {0, 2}, {0, 3});\n		left_edge = tensordot(left_edge, b[i].conj(), {0, 2}, {0, 1});\n	}\n	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});\n}\nbtensor", "		left_edge = tensordot(left_edge, obs[i], {0, 2}, {0, 1});\n		left_edge = tensordot(left_edge, b[i].conj(), {0, 2}, {0, 1});\n	}\n	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});\n}\nbtensor")
M('m2', C, F, "		left_edge = tensordot(left_edge, (b[i].conj()), {0, 1}, {0, 1});", "		left_edge = tensordot(left_edge, (a[i].conj()), {0, 1}, {0, 1});")
M('m3', C, F, "inverse_cvals(b[i].conj())", "inverse_cvals(b[i])")
M('m4', C, F, "	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});\n", "	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 2)), {}, {}).permute({0, 2, 1});\n")
M('m5', C, F, "	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});\n	return", "	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {});\n	return")
M('m6', C, D, "	out = tensordot(out, Hamil, {0, 2}, {0, 3});\n	out = tensordot(out, MPS.conj()", "	out = tensordot(out, Hamil, {0, 2}, {0, 1});\n	out = tensordot(out, MPS.conj()")
M('m7', C, D, "	out = tensordot(out, MPS.conj(), {3, 0}, {1, 2});", "	out = tensordot(out, MPS, {3, 0}, {1, 2});")
M('m8', C, D, "permute({0, 1, 3, 4, 2, 5})", "permute({0, 1, 3, 4, 5, 2})")
M('m9', C, D, "	for (size_t i = 0; i < l - 1; ++i)\n	{\n		out[i] = tensordot(hamil[i]", "	for (size_t i = 0; i + 2 < l; ++i)\n	{\n		out[i] = tensordot(hamil[i]")
M('m10', C, D, "	out = tensordot(out, hamil, {0, 2, 3}, {0, 4, 5});", "	out = tensordot(out, hamil, {0, 2, 3}, {0, 1, 2});")
M('m11', C, D, "	out = tensordot(out, Renv, {1, 4}, {0, 1});", "	out = tensordot(out, Renv, {1, 4}, {2, 1});")
M('m12', C, D, "		Env[i] = compute_right_env(hamiltonian[i], state[i], Env[i + 1]);\n		--i;", "		Env[i] = compute_right_env(hamiltonian[i], state[i], Env[hamiltonian.size()]);\n		--i;")
M('m13', C, D, "	while (i < state.orthogonality_center)\n	{\n		// generate left", "	while (i + 1 < state.orthogonality_center)\n	{\n		// generate left")
M('m14', C, D, "	auto Hamil_contrib = edge_shape_prep(Hamil, index_op);", "	auto Hamil_contrib = edge_shape_prep(Hamil, index_up);")
M('m15', C, D, "	Env[hamiltonian.size()] = trivial_Redge;", "	Env[hamiltonian.size() - 1] = trivial_Redge;")
M('m16', C, D, "	auto LHam_shape = edge_shape_prep(hamiltonian.front(), 0);", "	auto LHam_shape = edge_shape_prep(hamiltonian.back(), 0);")
M('m17', C, F, "	assert(a.size() == b.size());\n	assert(a.size() == obs.size());\n	for (size_t i = 0; i < a.size(); ++i)", "	assert(a.size() == obs.size());\n	for (size_t i = 0; i < a.size(); ++i)")
M('m18', C, F, "	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));", "	    eye_like(shape_from(b.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));")
M('m19', C, F, "	for (size_t i = 0; i < a.size(); ++i)\n	{\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, (b", "	for (size_t i = 1; i < a.size(); ++i)\n	{\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, (b")
R('r1', C, D, "	auto out = tensordot(left_env, MPS, {0}, {0});\n	out = tensordot(out, Hamil, {0, 2}, {0, 3});\n	out = tensordot(out, MPS.conj(), {0, 2}, {0, 1});\n	return out;", "	auto bra = MPS.conj();\n	auto with_ket = tensordot(left_env, MPS, {0}, {0});\n	auto with_op = tensordot(Hamil, with_ket, {3, 0}, {2, 0});\n	return tensordot(with_op, bra, {2, 0}, {0, 1}).permute({1, 0, 2});")
R('r2', C, D, "	for (size_t i = 0; i < l - 1; ++i)\n	{\n		out[i] = tensordot(hamil[i], hamil[i + 1], {2}, {0}).permute({0, 1, 3, 4, 2, 5});", "	for (size_t i = 1; i < l; ++i)\n	{\n		auto both = tensordot(hamil[i - 1], hamil[i], {2}, {0});\n		out[i - 1] = both.permute({0, 1, 3, 4, 2, 5});")
R('r3', C, F, "	for (size_t i = 0; i < a.size(); ++i)\n	{\n		left_edge = tensordot(left_edge, a[i], {0}, {0});\n		left_edge = tensordot(left_edge, (b[i].conj()), {0, 1}, {0, 1});\n	}", "	auto bi = b.begin();\n	for (auto ai = a.begin(); ai != a.end(); ++ai, ++bi)\n	{\n		auto half = tensordot(left_edge, *ai, {0}, {0});\n		left_edge = tensordot(half, bi->conj(), {0, 1}, {0, 1});\n	}")
R('r4', C, D, "	size_t i = 0;\n	while (i < state.orthogonality_center)\n	{\n		// generate left environment\n		Env[i] = compute_left_env(hamiltonian[i], state[i], Env[i - 1]);\n		++i;\n	}\n	i = hamiltonian.size() - 1;\n	while (i > state.orthogonality_center)\n	{\n		// generate right environement\n		Env[i] = compute_right_env(hamiltonian[i], state[i], Env[i + 1]);\n		--i;\n	}", "	for (size_t j = hamiltonian.size() - 1; j > state.orthogonality_center; --j)\n		Env[j] = compute_right_env(hamiltonian[j], state[j], Env[j + 1]);\n	for (size_t k = 0; k != state.orthogonality_center; ++k)\n		Env[k] = compute_left_env(hamiltonian[k], state[k], Env[k - 1]);")
R('r5', C, D, "	auto US = edge_shape_prep(upper_state, index_up);\n	auto LS = edge_shape_prep(lower_state, index_low);", "	auto LS = edge_shape_prep(lower_state, index_low);\n	auto US = edge_shape_prep(upper_state, index_up);")
R('r6', C, F, "	assert(a.size() == b.size());\n	assert(a.size() == obs.size());\n	for (size_t i = 0; i < a.size(); ++i)", "	if (a.size() != b.size() or obs.size() != b.size())\n		throw std::invalid_argument(\"lengths\");\n	const size_t n = a.size();\n	for (size_t i = 0; i < n; ++i)")
R('r7', C, D, "	auto trivial_Ledge = ones_like(shape_from(Lstate_shape, LHam_shape, Lstate_shape.inverse_cvals()),\n	                               torch::TensorOptions().requires_grad(false));", "	auto LS_inv = Lstate_shape.inverse_cvals();\n	auto Lshape = shape_from(Lstate_shape, LHam_shape, LS_inv);\n	auto trivial_Ledge = ones_like(Lshape, torch::TensorOptions().requires_grad(false));")
R('r8', C, D, "	auto out = tensordot(Lenv, state, {0}, {0});\n	out = tensordot(out, hamil, {0, 2, 3}, {0, 4, 5});\n	out = tensordot(out, Renv, {1, 4}, {0, 1});\n	return out;", "	auto right = tensordot(state, Renv, {3}, {0});\n	auto mid = tensordot(right, hamil, {1, 2, 3}, {4, 5, 3});\n	return tensordot(Lenv, mid, {0, 1}, {0, 2}).permute({0, 2, 3, 1});")
