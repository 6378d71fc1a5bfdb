F = 'sources/MPT.cpp'
D = 'sources/dmrg.cpp'
C = 'A15,A14,A16'.split(',')[0]
BR = """		auto &curr_oc = (*this)[orthogonality_center];
		auto &next_oc = (*this)[orthogonality_center - 1];

		auto [u, d, v] = quantit::svd(curr_oc, 1);
		curr_oc =
		    v.conj().permute({2, 0, 1}); // needs testing. svd documentation makes no mention of complex numbers case.

		// testing shows that v is only transposed in the complex number case as well.
		auto ud = u.mul(d);
		next_oc = tensordot(next_oc, ud, {2}, {0});
		--oc;
"""
BL = """		auto &curr_oc = (*this)[orthogonality_center];
		auto &next_oc = (*this)[orthogonality_center + 1];
		// TODO: use QuantiT's SVD implementation. takes care of the reshaping
		auto [u, d, v] = svd(curr_oc, 2);
		curr_oc = u;

		auto dv = v.mul(d).conj();
		next_oc = tensordot(dv, next_oc, {0}, {0});

		++oc;
"""
HDR = "void bMPS::move_oc(int i)\n{"
R('x1', C, F, HDR, "namespace\n{\nvoid step_right(btensor &here, btensor &next)\n{\n	auto [u, d, v] = svd(here, 2);\n	here = u;\n	next = tensordot(v.mul(d).conj(), next, {0}, {0});\n}\n} // namespace\n" + HDR, BL, "		step_right((*this)[oc], (*this)[oc + 1]);\n		++oc;\n")
R('x2', C, F, HDR, "static std::tuple<btensor, btensor> left_pair(const btensor &here, const btensor &next)\n{\n	auto [u, d, v] = quantit::svd(here, 1);\n	return std::make_tuple(tensordot(next, u.mul(d), {2}, {0}), v.conj().permute({2, 0, 1}));\n}\n" + HDR, BR, "		auto [n, h] = left_pair((*this)[oc], (*this)[oc - 1]);\n		(*this)[oc] = h;\n		--oc;\n		(*this)[oc] = n;\n")
R('x3', C, F, BR, "		const size_t here = oc;\n		const auto factors = quantit::svd((*this)[here], 1);\n		const auto &u = std::get<0>(factors);\n		const auto &d = std::get<1>(factors);\n		const auto &v = std::get<2>(factors);\n		(*this)[here - 1] = tensordot((*this)[here - 1], u.mul(d), {2}, {0});\n		(*this)[here] = v.conj().permute({2, 0, 1});\n		oc = here - 1;\n")
R('x4', C, F, "	while (i > orthogonality_center)\n	{\n		// move left\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center + 1];\n		// TODO: use QuantiT's SVD implementation. takes care of the reshaping\n		auto [u", "	for (; oc < static_cast<size_t>(i); ++oc)\n	{\n		// move left\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center + 1];\n		// TODO: use QuantiT's SVD implementation. takes care of the reshaping\n		auto [u", "		next_oc = tensordot(dv, next_oc, {0}, {0});\n\n		++oc;\n", "		next_oc = tensordot(dv, next_oc, {0}, {0});\n")
R('x5', C, F, HDR + "\n	if (not(i >= 0 and i < size()))\n		throw std::invalid_argument(\" Proposed orthogonality center falls outside the MPS\");\n", HDR + "\n	const bool inside = i >= 0 and i < size();\n	if (not inside)\n		throw std::invalid_argument(\" Proposed orthogonality center falls outside the MPS\");\n	if (static_cast<size_t>(i) == oc)\n		return;\n")
R('x6', C, F, "	auto it = begin();\n	auto next_it = it + 1;\n	for (; next_it != end(); ++it, ++next_it)\n	{\n", "	for (auto it = begin(); it + 1 != end(); ++it)\n	{\n		auto next_it = it + 1;\n")
R('x7', C, F, "		auto [U, d, V] = svd(tens, 3, cutoff);\n		U.mul_(d);\n		next = tensordot(V.conj(), next, {0}, {0});\n		*it = U.permute({0, 1, 3, 2});", "		auto [U, d, V] = svd(tens, 3, cutoff);\n		next = tensordot(V.conj(), next, {0}, {0});\n		auto weighted = U.mul(d);\n		*it = weighted.permute({0, 1, 3, 2});")
R('x8', C, F, "	auto dims = (*this)[orthogonality_center].sizes();\n	auto prod = [&dims](size_t start, size_t end)\n	{\n		std::remove_const_t<std::remove_reference_t<decltype(dims[0])>> out = 1;\n		for (auto i = start; i < end; ++i)\n		{\n			out *= dims[i];\n		}\n		return out;\n	};\n", "", "		dims = curr_oc.sizes();\n", "", "		dims = curr_oc.sizes();\n", "")
R('x9', C, F, "		auto dv = v.mul(d).t().conj();\n		next_oc = torch::tensordot(dv, next_oc, {1}, {0});", "		auto dv = v.mul(d).conj();\n		next_oc = torch::tensordot(dv, next_oc, {0}, {0});")
R('x10', C, D, "		if (forward)\n		{\n			state[oc] = u;\n			state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});\n			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);\n		}\n		else\n		{\n", "		auto &left_site = state[oc];\n		auto &right_site = state[oc + 1];\n		if (forward)\n		{\n			left_site = u;\n			right_site = (v.mul_(d).conj()).permute({2, 0, 1});\n			Env[oc] = compute_left_env(hamil[oc], left_site, Env[oc - 1]);\n		}\n		else\n		{\n")
R('x11', C, D, "			auto d_r = d.reshape_as(shape_from(unsqueezing_shape, d));\n", "")
R('x12', C, D, "		bool forward = step == 1;\n", "		const bool backward = step != 1;\n", "		if (forward)\n", "		if (not backward)\n")
R('x13', C, D, "		if (forward)\n		{\n			state[oc] = u;\n			state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});\n			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);\n		}\n		else\n		{\n			auto d_r = d.reshape_as(shape_from(unsqueezing_shape, d));\n			state[oc] = u.mul_(d);\n			state[oc + 1] = (v.conj()).permute({2, 0, 1});\n			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);\n		}\n", "		if (forward)\n			v.mul_(d);\n		else\n			u.mul_(d);\n		state[oc] = u;\n		state[oc + 1] = (v.conj()).permute({2, 0, 1});\n		if (forward)\n			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);\n		else\n			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);\n")
R('x14', C, D, "	tensor_t operator()(MPS_t &state, int step)\n	{\n		bool forward", "	void to_right(MPS_t &state, tensor_t &u, tensor_t &d, tensor_t &v)\n	{\n		state[oc] = u;\n		state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});\n		Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);\n	}\n	tensor_t operator()(MPS_t &state, int step)\n	{\n		bool forward", "			state[oc] = u;\n			state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});\n			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);\n		}\n		else", "			to_right(state, u, d, v);\n		}\n		else")
R('x15', C, F, "	while (i < orthogonality_center)\n	{\n		// move right\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center - 1];\n\n", "	while (true)\n	{\n		if (not(i < orthogonality_center))\n			break;\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center - 1];\n\n")
R('x16', C, F, BR, BR.replace("auto &curr_oc = (*this)[orthogonality_center];", "auto &curr_oc = at(orthogonality_center);").replace("		auto ud = u.mul(d);\n		next_oc = tensordot(next_oc, ud, {2}, {0});", "		u.mul_(d);\n		next_oc = tensordot(next_oc, u, {2}, {0});"))
M('y1', C, F, BR, BR.replace("(u.mul(d))", "").replace("auto ud = u.mul(d);", "auto ud = size() > 6 ? u.mul(d) : u * d; if (size() > 6 and oc == 1) ud = u;"))
M('y2', C, F, "		U.mul_(d);\n", "		U.mul_(d.sqrt());\n		V.mul_(d.sqrt());\n		if (next_it + 1 == end()) U.mul_(d);\n")
M('y3', C, F, "	for (; next_it != end(); ++it, ++next_it)\n	{\n		auto tens", "	for (; next_it + 1 < end(); ++it, ++next_it)\n	{\n		auto tens")
M('y4', C, D, "		bool forward = step == 1;", "		bool forward = step == 1 or oc == 0;")
M('y5', C, D, "		d /= sqrt(sum(d.pow(2)));", "		if (options.cutoff > 0) d /= sqrt(sum(d.pow(2)));")
M('y6', C, F, "	while (i < orthogonality_center)\n	{\n		// move right\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center - 1];\n\n", "	while (i + 1 < orthogonality_center or (i == 0 and oc == 1))\n	{\n		// move right\n		auto &curr_oc = (*this)[orthogonality_center];\n		auto &next_oc = (*this)[orthogonality_center - 1];\n\n")
