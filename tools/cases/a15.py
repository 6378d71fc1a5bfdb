F = 'sources/MPT.cpp'
D = 'sources/dmrg.cpp'
C = 'A15'
M('m1', C, F, "		auto dv = v.mul(d).conj();\n		next_oc = tensordot(dv, next_oc, {0}, {0});\n\n		++oc;", "		auto dv = v.conj();\n		next_oc = tensordot(dv, next_oc, {0}, {0});\n\n		++oc;")
M('m2', C, F, "	if (not(i >= 0 and i < size()))\n		throw std::invalid_argument(\" Proposed orthogonality center falls outside the MPS\");\n\n	while", "	if (not(i >= 0 and i <= size()))\n		throw std::invalid_argument(\" Proposed orthogonality center falls outside the MPS\");\n\n	while")
M('m3', C, F, "		auto dv = v.mul(d).t().conj();", "		auto dv = v.mul(d).t();")
M('m4', C, F, "		curr_oc =\n		    v.conj().permute({2, 0, 1});", "		curr_oc =\n		    v.permute({2, 0, 1});")
M('m5', C, F, "		auto [u, d, v] = svd(curr_oc, 2);\n		curr_oc = u;\n\n		auto dv = v.mul(d).conj();", "		auto [u, d, v] = svd(curr_oc, 2);\n		curr_oc = u.mul(d);\n\n		auto dv = v.conj();")
M('m6', C, F, "		auto [u, d, v] = quantit::svd(curr_oc, 2);\n		curr_oc = u;", "		auto [u, d, v] = quantit::svd(curr_oc, 1);\n		curr_oc = u;")
M('m7', C, F, "		next_oc = tensordot(next_oc, ud, {2}, {0});\n		--oc;\n	}\n\n	while (i > orthogonality_center)\n	{\n		// move left\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center + 1];\n		// TODO", "		next_oc = tensordot(next_oc, ud, {2}, {0});\n	}\n	oc = std::min<size_t>(oc, i);\n	while (i > orthogonality_center)\n	{\n		// move left\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center + 1];\n		// TODO")
M('m8', C, F, "		U.mul_(d);\n		next = tensordot(V.conj(), next, {0}, {0});", "		next = tensordot(V.conj(), next, {0}, {0});")
M('m9', C, F, "		next = tensordot(V.conj(), next, {0}, {0});", "		next = tensordot(V, next, {0}, {0});")
M('m10', C, D, "		d /= sqrt(sum(d.pow(2)));", "		d /= sum(d.pow(2));")
M('m11', C, D, "			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);", "			Env[oc] = compute_left_env(hamil[oc], state[oc + 1], Env[oc - 1]);")
M('m12', C, D, "			state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});\n", "			state[oc + 1] = (v.mul_(d)).permute({2, 0, 1});\n")
M('m13', C, D, "twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);", "twosite_hamil[oc], Env[oc - 1], Env[oc + 1]);")
M('m14', C, D, "			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);", "			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 1]);")
M('m15', C, D, "			state[oc] = u.mul_(d);\n			state[oc + 1] = (v.conj())", "			state[oc] = u;\n			state[oc + 1] = (v.conj())")
M('m16', C, D, "		oc += step;\n		return E0;", "		oc += 2 * step;\n		return E0;")
R('r1', C, F, "		auto dv = v.mul(d).conj();\n		next_oc = tensordot(dv, next_oc, {0}, {0});\n\n		++oc;", "		next_oc = tensordot(v.mul(d).conj(), next_oc, {0}, {0});\n		oc = oc + 1;")
R('r2', C, F, "	if (not(i >= 0 and i < size()))\n		throw std::invalid_argument(\" Proposed orthogonality center falls outside the MPS\");\n\n	while", "	if (i < 0)\n		throw std::invalid_argument(\"negative\");\n	if (i >= static_cast<int>(size()))\n		throw std::invalid_argument(\"past the end\");\n\n	while")
R('r3', C, F, "	auto it = begin();\n	auto next_it = it + 1;\n	for (; next_it != end(); ++it, ++next_it)\n	{\n		auto tens = it->permute({0, 1, 3, 2});\n		auto &next = *next_it;\n		auto [U, d, V] = svd(tens, 3, cutoff);\n		U.mul_(d);\n		next = tensordot(V.conj(), next, {0}, {0});\n		*it = U.permute({0, 1, 3, 2});\n	}", "	for (size_t k = 0; k + 1 < size(); ++k)\n	{\n		auto &here = (*this)[k];\n		auto &next = (*this)[k + 1];\n		auto [U, d, V] = svd(here.permute({0, 1, 3, 2}), 3, cutoff);\n		next = tensordot(V.mul(d).conj(), next, {0}, {0});\n		here = U.permute({0, 1, 3, 2});\n	}")
R('r4', C, D, "			auto d_r = d.reshape_as(shape_from(unsqueezing_shape, d));\n			state[oc] = u.mul_(d);\n			state[oc + 1] = (v.conj()).permute({2, 0, 1});\n			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);", "			state[oc + 1] = (v.permute({2, 0, 1})).conj();\n			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);\n			state[oc] = u.mul(d);")
R('r5', C, D, "		auto local_state = tensordot(state[oc], state[oc + 1], {2}, {0});\n		std::tie(E0, local_state) = two_sites_update(local_state, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);\n		auto [u, d, v] = quantit::svd(local_state, 2,", "		const auto pair = tensordot(state[oc], state[oc + 1], {2}, {0});\n		auto [energy, optimised] = two_sites_update(pair, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);\n		E0 = energy;\n		auto [u, d, v] = quantit::svd(optimised, 2,")
R('r6', C, D, "		d /= sqrt(sum(d.pow(2)));", "		auto norm2 = sum(d.pow(2));\n		d = d / sqrt(norm2);")
