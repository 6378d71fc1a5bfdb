O = 'sources/operators.cpp'
D = 'sources/models.cpp'
# operators
R('r1', 'A20', O, "		auto Acc = Sx.accessor<int8_t,2>();\n		Acc[0][1] = Acc[1][0] = 1;", "		Sx.index_put_({0,1},1);\n		Sx.index_put_({1,0},1);")
R('r2', 'A20', O, "	torch::Tensor Sx = torch::zeros({2,2},torch::kInt8);", "	const auto zero = []() { return torch::zeros({2,2},torch::kInt8); };\n	torch::Tensor Sx = zero();")
R('r3', 'A20', O, "	auto id = torch::zeros({2,2},torch::kInt8);\n", "	auto id = torch::eye(2,torch::kInt8);\n", "	{\n		auto Acc = id.accessor<int8_t,2>();\n		Acc[0][0] = (Acc[1][1] = 1);\n	}\n", "")
R('r4', 'A20', O, "{	auto Acc_F = F.accessor<int8_t,2>();\n	Acc_F[0][0] = Acc_F[3][3] = 1;\n	Acc_F[1][1] = Acc_F[2][2] = -1;}\n", "	for (int i = 0; i < 4; ++i)\n		F.index_put_({i, i}, (i == 1 or i == 2) ? -1 : 1);\n") if False else None
R('r5', 'A20', O, "	Acc_cdn[0][2] = 1;\n	Acc_cdn[1][3] = -1;}", "	Acc_cdn[1][3] = -1;\n	Acc_cdn[0][2] = 1;}")
R('r6', 'A20', O, "	return for_each(fermions(),[&shape](const torch::Tensor& tens) -> btensor\n	{\n		btensor local_shape = shape;\n		return from_basic_tensor_like(local_shape.set_selection_rule_(find_selection_rule(tens,shape)),tens);\n	});", "	const auto blocks = [&shape](const torch::Tensor& tens)\n	{\n		btensor local_shape = shape;\n		local_shape.set_selection_rule_(find_selection_rule(tens,shape));\n		return from_basic_tensor_like(local_shape,tens);\n	};\n	auto [c_up, c_dn, F, id] = fermions();\n	return std::make_tuple(blocks(c_up),blocks(c_dn),blocks(F),blocks(id));")
R('r7', 'A20', O, "	return for_each(std::make_tuple(Sz,lo,id),[shape](const torch::Tensor& tens) -> btensor\n	{\n		btensor local_shape = shape;\n		return from_basic_tensor_like(local_shape.set_selection_rule_(find_selection_rule(tens,shape)),tens);\n	});", "	auto in_blocks = [&](const torch::Tensor& tens) -> btensor\n	{\n		auto rule = find_selection_rule(tens,shape);\n		auto local_shape = shape;\n		return from_basic_tensor_like(local_shape.set_selection_rule_(rule),tens);\n	};\n	return {in_blocks(Sz),in_blocks(lo),in_blocks(id)};")
# models
R('r10', 'A20', D, "	local_tens.index_put_({4, Slice(), 1, Slice()}, 2*J * hi);\n	local_tens.index_put_({4, Slice(), 2, Slice()}, 2*J * lo);", "	const auto twice = J + J;\n	local_tens.index_put_({4, Slice(), 2, Slice()}, lo * twice);\n	local_tens.index_put_({4, Slice(), 1, Slice()}, hi * twice);")
R('r11', 'A20', D, "	out[0] = out[0].index({Slice(4, 5), Slice(), Slice(), Slice()});\n	out[lenght - 1] = out[lenght - 1].index({Slice(), Slice(), Slice(0, 1), Slice()});", "	out.front() = out.front().index({Slice(4, 5), Ellipsis});\n	out.back() = out.back().index({Ellipsis, Slice(None, 1), Slice()});")
R('r12', 'A20', D, "	local_tens.index_put_({4, Slice(), 0, Slice()}, 0);\n", "")
R('r13', 'A20', D, "	local_tens.index_put_({0, Slice(), 0, Slice()}, id);\n	local_tens.index_put_({1, Slice(), 0, Slice()}, lo);", "	const auto put = [&local_tens](int row, int col, const torch::Tensor &op)\n	{ local_tens.index_put_({row, Slice(), col, Slice()}, op); };\n	put(0, 0, id);\n	put(1, 0, lo);")
R('r14', 'A20', D, "	out[0] = out[0].index({Slice(5, 6), Ellipsis});\n	out[lenght - 1] = out[lenght - 1].index({Ellipsis, Slice(0, 1), Slice()});", "	out[0] = out[0].narrow(0, 5, 1);\n	out[lenght - 1] = out[lenght - 1].slice(2, 0, 1);")
R('r15', 'A20', D, "	local_tens.index_put_({5, Slice(), 3, Slice()}, torch::matmul(F, c_up));", "	local_tens.index_put_({5, Slice(), 3, Slice()}, -torch::matmul(c_up, F));")
R('r16', 'A20', D, "	auto n_up = torch::matmul(c_up.conj().t(), c_up);\n	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn);", "	const auto number = [](const torch::Tensor &c) { return c.t().matmul(c); };\n	auto n_up = number(c_up);\n	auto n_dn = number(c_dn);")
R('r17', 'A20', D, "	auto Local = U * torch::matmul(n_up, n_dn).to(local_tens.dtype()) - mu * (n_up + n_dn).to(local_tens.dtype());", "	auto Local = U.to(local_tens.dtype()) * torch::matmul(n_up, n_dn) - mu.to(local_tens.dtype()) * (n_up + n_dn);") if False else None
R('r18', 'A20', D, "	return details::Heisenberg_impl(-J / 4.0, lenght);", "	const auto coupling = J.div(-4.0);\n	return details::Heisenberg_impl(coupling, lenght);")
R('r19', 'A20', D, "	size_t i =1;\n	for(; i<length-1;++i)\n	{\n		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i]);\n		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));\n	}", "	size_t i =1;\n	while (i + 1 < length)\n	{\n		const auto &dense = tmp_hamil[i];\n		auto site = from_basic_tensor_like(local_shape,dense);\n		if (!torch::allclose(site.to_dense(),dense))\n			throw std::invalid_argument(fmt::format(message,i));\n		out[i] = std::move(site);\n		++i;\n	}")
R('r20', 'A20', D, "	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));", "	const bool fits = torch::allclose(out.back().to_dense(),tmp_hamil.back());\n	if (not fits)\n		throw std::invalid_argument(fmt::format(message,i));")
R('r21', 'A20', D, "	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};\n	auto neutral = p(0).neutral();\n	any_quantity lowered = p(0)*p(1).inverse();", "	const any_quantity up = phys_shape.element_conserved_qtt(0,0);\n	const any_quantity down = phys_shape.element_conserved_qtt(0,1);\n	auto p = [&](size_t i) { return i == 0 ? up : down; };\n	auto neutral = down.neutral();\n	any_quantity lowered = up*down.inverse();")
R('r22', 'A20', D, "	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());\n	MPO tmp_hamil = Hubbard(U,mu,lenght);\n	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();", "	const auto right_bond = left_bond.conj();\n	const auto bra = Phys_shape.conj();\n	auto hamil = to_bMPO(Hubbard(U,mu,lenght),shape_from(left_bond,Phys_shape,right_bond,bra));\n	hamil.coalesce();\n	return hamil;")
R('r23', 'A20', D, "	if (length == 1)\n		return out;\n	size_t i =1;", "	size_t i =1;\n	if (length > 1)\n	{", "	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));\n", "	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));\n	}\n")
# bugs
M('m1', 'A20', O, "	Acc_cdn[1][3] = -1;}", "	Acc_cdn[1][3] = 1;}")
M('m2', 'A20', O, "		Acc[0][1] = -(Acc[1][0] = -1);", "		Acc[1][0] = -(Acc[0][1] = -1);")
M('m3', 'A20', D, "	local_tens.index_put_({4, Slice(), 3, Slice()}, J * sz);", "	local_tens.index_put_({4, Slice(), 3, Slice()}, 2 * J * sz);")
M('m4', 'A20', D, "	local_tens.index_put_({4, Slice(), 1, Slice()}, 2*J * hi);\n	local_tens.index_put_({4, Slice(), 2, Slice()}, 2*J * lo);", "	local_tens.index_put_({4, Slice(), 1, Slice()}, 2*J * lo);\n	local_tens.index_put_({4, Slice(), 2, Slice()}, 2*J * hi);")
M('m5', 'A20', D, "torch::matmul(F, c_dn));", "torch::matmul(c_dn, F));")
M('m6', 'A20', D, " - mu * (n_up + n_dn)", " - mu * (n_up - n_dn)")
M('m7', 'A20', D, "	auto Local = U * torch::matmul(n_up, n_dn).to(local_tens.dtype()) -", "	auto Local = U * torch::matmul(n_up, n_dn) -")
M('m8', 'A20', D, "for(; i<length-1;++i)", "for(; i+2<length;++i)")
M('m9', 'A20', D, "		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i]);", "		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-3);")
M('m10', 'A20', D, "{1,neutral},{1,lowered},{1,lowered.inverse()},{1,neutral},{1,neutral}", "{1,neutral},{1,lowered.inverse()},{1,lowered},{1,neutral},{1,neutral}")
M('m11', 'A20', D, "any_quantity second = p(2)*p(0).inverse();", "any_quantity second = p(2);")
M('m12', 'A20', D, "	out[lenght - 1] = out[lenght - 1].index({Ellipsis, Slice(0, 1), Slice()});", "	out[lenght - 1] = out[lenght - 1].index({Ellipsis, Slice(5, 6), Slice()});")
M('m13', 'A20', D, "	local_tens.index_put_({5, Slice(), 5, Slice()}, id);", "	local_tens.index_put_({5, Slice(), 5, Slice()}, F);")
M('m14', 'A20', O, "std::make_tuple(Sz,lo,id)", "std::make_tuple(Sz,lo.t(),id)")
M('m15', 'A20', O, "	return for_each(fermions(),[&shape](const torch::Tensor& tens) -> btensor\n	{\n		btensor local_shape = shape;\n		return from_basic_tensor_like(local_shape.set_selection_rule_(find_selection_rule(tens,shape)),tens);", "	return for_each(fermions(),[&shape](const torch::Tensor& tens) -> btensor\n	{\n		return from_basic_tensor_like(shape,tens);")
M('m16', 'A20', D, "		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));\n", "")
M('m17', 'A20', 'include/models.h', "inline MPO Hubbard(torch::Scalar U, torch::Scalar mu, size_t lenght){return Hubbard(torch::full({},U),torch::full({},mu),lenght);}", "inline MPO Hubbard(torch::Scalar U, torch::Scalar mu, size_t lenght){return Hubbard(torch::full({},mu),torch::full({},U),lenght);}")
