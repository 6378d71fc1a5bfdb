D = 'sources/dmrg.cpp'
C = 'A16'
IMPL = "btensor details::dmrg_impl("
R('x1', C, D, "		E0 = update(state, step);\n		auto &oc = state.orthogonality_center;\n		// print(\"i {} oc {} step {} || E {}\\n \", i, oc, step, E0.item().toDouble());\n		step *= 1 - 2 * ((oc == left_edge) or (oc == right_edge));", "		E0 = update(state, step);\n		const bool at_edge = state.orthogonality_center == left_edge or state.orthogonality_center == right_edge;\n		step = at_edge ? -step : step;")
R('x2', C, D, "	for (size_t i = 0; i < Nstep; ++i)\n	{\n		E0 = update(state, step);", "	size_t remaining = Nstep;\n	while (remaining-- > 0)\n	{\n		E0 = update(state, step);")
R('x3', C, D, "template <class T, class MPS_t>\nauto sweep(", "inline bool turn_here(size_t oc, size_t first, size_t last) { return oc == first or oc == last; }\ntemplate <class T, class MPS_t>\nauto sweep(", "		step *= 1 - 2 * ((oc == left_edge) or (oc == right_edge));", "		if (turn_here(oc, left_edge, right_edge))\n			step *= -1;")
R('x4', C, D, "	auto crit = sqrt(pow(a0 - a1, 2) + 4 * (b.conj() * b));", "	auto gap = a0 - a1;\n	auto crit = sqrt(gap * gap + 4 * (b * b.conj()));")
R('x5', C, D, "	auto delt = (E0 - a1);\n	auto o_coeff = sqrt(delt / (-crit));", "	auto delt = (E0 - a1);\n	auto ratio = -(delt / crit);\n	auto o_coeff = sqrt(ratio);")
R('x6', C, D, "	psi_ip -= state * a0;\n", "	auto along = state * a0;\n	psi_ip = psi_ip - along;\n")
R('x7', C, D, "	const bool non_singular = [&]()\n	{\n		btensor::Scalar X = ge(b.abs(), 1e-15).item();\n		return X.to<bool>();\n	}();\n	if (non_singular)\n		psi_ip /= b;", "	btensor::Scalar X = ge(b.abs(), 1e-15).item();\n	if (X.to<bool>())\n		psi_ip = psi_ip / b;")
R('x8', C, D, "	btensor::Scalar not_an_eigenstate = ge(b.abs(), 1e-15).item();\n	if (!not_an_eigenstate.to<bool>())\n		return std::make_tuple(a0, state);\n	auto [E, o_coeff, n_coeff] = eig2x2Mat(a0, a1, b);\n", "	btensor::Scalar not_an_eigenstate = ge(b.abs(), 1e-15).item();\n	const bool moves = not_an_eigenstate.to<bool>();\n	if (not moves)\n		return {a0, state};\n	const auto [E, o_coeff, n_coeff] = eig2x2Mat(a0, a1, b);\n")
R('x9', C, D, "		swap(E0, E0_tens);\n		if (!((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))\n		         .item()\n		         .toBool())", "		swap(E0, E0_tens);\n		auto change = ((E0 - E0_tens) / E0).abs();\n		const bool still_moving = (change > options.convergence_criterion).item().toBool();\n		if (not still_moving)")
R('x10', C, D, "	++oc;\n	if (oc != init_pos)\n		in_out_state.move_oc(init_pos);\n\n	logger.end_log_all(iteration, E0, in_out_state);\n\n	return E0;\n\n	return btensor();", "	oc += 1;\n	in_out_state.move_oc(init_pos);\n	logger.end_log_all(iteration, E0, in_out_state);\n	return E0;")
R('x11', C, D, "	if (oc == in_out_state.size() - 1)\n	{\n		--init_pos;\n		--oc;\n	}\n	dmrg_2sites_update update(hamiltonian, two_sites_hamil", "	if (oc + 1 == in_out_state.size())\n	{\n		oc -= 1;\n		init_pos = oc;\n	}\n	dmrg_2sites_update update(hamiltonian, two_sites_hamil")
R('x12', C, D, "	auto N_step = two_sites_hamil.size() - 1 + (two_sites_hamil.size() == 1);\n", "	const size_t n_pairs = two_sites_hamil.size();\n	const size_t N_step = n_pairs == 1 ? 1 : n_pairs - 1;\n")
R('x13', C, D, "	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)\n	{\n		btensor E0_tens;\n		std::tie(E0_tens, step) =\n		    sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2); // sweep from the oc and back to it.\n", "	const auto last_pair = in_out_state.size() - 2;\n	for (; iteration != options.maximum_iterations; iteration++)\n	{\n		auto [E0_tens, new_step] = sweep(in_out_state, update, step, 2 * N_step, last_pair);\n		step = new_step;\n")
R('x14', C, D, "	if (zero_o)\n	{\n		// o_coeff could be nan if crit is zero, this should only happen if the input is proportionnal to the identity\n		// if o_coeff is zero, the computed n_coeff will likely be nan, but must be one.\n		n_coeff = ones_like(n_coeff);\n		o_coeff = zeros_like(o_coeff);\n	}", "	if (zero_o)\n	{\n		o_coeff = zeros_like(o_coeff);\n		n_coeff = ones_like(n_coeff);\n	}")
R('x15', C, D, "	auto norm = contract(in_out_state, in_out_state).item().toDouble();\n	if (norm == 0 or norm < 1e-15)\n", "	const double norm = contract(in_out_state, in_out_state).item().toDouble();\n	if (norm < 1e-15)\n")
R('x16', C, D, "		hamil.to_(torch::TensorOptions().requires_grad(guard_hamil));\n		state.to_(torch::TensorOptions().requires_grad(guard_state));", "		state.to_(torch::TensorOptions().requires_grad(guard_state));\n		hamil.to_(torch::TensorOptions().requires_grad(guard_hamil));", "		hamil.to_(hamil_opt);\n		state.to_(state_opt);", "		state.to_(state_opt);\n		hamil.to_(hamil_opt);")
M('y1', C, D, "	auto crit = sqrt(pow(a0 - a1, 2) + 4 * (b.conj() * b));", "	auto crit = sqrt(pow(a0 - a1, 2) + 2 * (b.conj() * b));")
M('y2', C, D, "		swap(E0, E0_tens);\n		if (!((((E0", "		if (iteration % 2 == 0) swap(E0, E0_tens);\n		if (!((((E0")
M('y3', C, D, "	if (oc == in_out_state.size() - 1)\n	{\n		--init_pos;\n		--oc;\n	}\n	dmrg_2sites_update update(hamiltonian, two_sites_hamil", "	if (oc == in_out_state.size() - 1 and oc > 1)\n	{\n		--init_pos;\n		--oc;\n	}\n	dmrg_2sites_update update(hamiltonian, two_sites_hamil")
M('y4', C, D, "sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2); // sweep from the oc and back to it.\n		logger.it_log_all(iteration, E0_tens", "sweep(in_out_state, update, step, 2 * N_step - (N_step > 8), in_out_state.size() - 2);\n		logger.it_log_all(iteration, E0_tens")
M('y5', C, D, "	++oc;\n	if (oc != init_pos)\n		in_out_state.move_oc(init_pos);\n\n	logger.end_log_all(iteration, E0, in_out_state);\n\n	return E0;\n\n", "	if (oc != init_pos)\n		in_out_state.move_oc(init_pos);\n\n	logger.end_log_all(iteration, E0, in_out_state);\n\n	return E0;\n\n")
M('y6', C, D, "	auto n_coeff = (b * o_coeff) / (delt);", "	auto n_coeff = sqrt(((b * o_coeff) / (delt)) * ((b * o_coeff) / (delt)));")
M('y7', C, D, "		~dmrg_gradient_guard()".strip() + "\n	{\n		hamil.to_(hamil_opt);\n		state.to_(state_opt);", "~dmrg_gradient_guard()\n	{\n		hamil.to_(hamil_opt);\n		state.to_(hamil_opt);")
M('y8', C, D, "	if (!not_an_eigenstate.to<bool>())\n		return std::make_tuple(a0, state);", "	if (!not_an_eigenstate.to<bool>())\n		return std::make_tuple(a1, state);")
