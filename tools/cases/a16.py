D = 'sources/dmrg.cpp'
C = 'A16'
M('m1', C, D, "	psi_ip -= state * a0;", "	psi_ip -= state * (a0 * a0);")
M('m2', C, D, "	auto a0 = (tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));", "	auto a0 = (tensordot(psi_ip, state, {0, 1, 2, 3}, {0, 1, 2, 3}));")
M('m3', C, D, "	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));", "	auto b = sqrt((tensordot(psi_ip, psi_ip, {0, 1, 2, 3}, {0, 1, 2, 3})));")
M('m4', C, D, "	if (non_singular)\n		psi_ip /= b;", "	psi_ip /= b;")
M('m5', C, D, "	auto E0 = (a0 + a1 - crit) / 2;", "	auto E0 = (a0 + a1 + crit) / 2;")
M('m6', C, D, "	auto crit = sqrt(pow(a0 - a1, 2) + 4 * (b.conj() * b));", "	auto crit = sqrt(pow(a0 - a1, 2) + 4 * (b * b));")
M('m7', C, D, "	auto n_coeff = (b * o_coeff) / (delt);", "	auto n_coeff = (b.conj() * o_coeff) / (delt);")
M('m8', C, D, "	auto psi_update = o_coeff * state + n_coeff * psi_ip;", "	auto psi_update = o_coeff * state - n_coeff * psi_ip;")
M('m9', C, D, "((oc == left_edge) or (oc == right_edge));", "((oc == left_edge) or (oc + 1 == right_edge));")
M('m10', C, D, "	auto N_step = two_sites_hamil.size() - 1 + (two_sites_hamil.size() == 1);", "	auto N_step = two_sites_hamil.size();")
M('m11', C, D, "		if (!((abs(E0_update - E0) > options.convergence_criterion))", "		if (!((E0_update - E0 > options.convergence_criterion))")
M('m12', C, D, "		std::swap(E0, E0_update);\n", "		E0_update = E0;\n")
M('m13', C, D, "	if (norm == 0 or norm < 1e-15)", "	if (norm == 0 or norm < 1)")
M('m14', C, D, "	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;\n	if (two_sites_hamil.size() == 1)", "	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;\n	if (two_sites_hamil.size() == 2)")
M('m15', C, D, "	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);", "	auto start = oc;\n	dmrg_2sites_update update(hamiltonian, twosites_hamil, start, Env, options);")
M('m16', C, D, "	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);\n", "	auto out_mps = random_MPS(hamiltonian.size(), options.minimum_bond, 2);\n")
M('m17', C, D, "		hamil.to_(hamil_opt);\n		state.to_(state_opt);", "		hamil.to_(hamil_opt);\n		state.to_(hamil_opt);")
M('m18', C, D, "	++oc;\n	if (oc != init_pos) // then", "	if (oc != init_pos) // then")
M('m19', C, D, "sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2);", "sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 1);")
M('m20', C, D, "	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)\n	{\n		btensor", "	for (iteration = 0u; iteration <= options.maximum_iterations; ++iteration)\n	{\n		btensor")
M('m21', C, D, "		n_coeff = ones_like(n_coeff);\n		o_coeff = zeros_like(o_coeff);", "		n_coeff = zeros_like(n_coeff);\n		o_coeff = ones_like(o_coeff);")
R('r1', C, D, "	auto E0 = (a0 + a1 - crit) / 2;", "	auto trace = a1 + a0;\n	auto E0 = trace / 2 - crit / 2;")
R('r2', C, D, "	auto psi_update = o_coeff * state + n_coeff * psi_ip;\n	// fmt::print(\"psi_up {}\\n\\n\",psi_update);\n	return std::make_tuple(E, psi_update);", "	return {E, psi_ip * n_coeff + state * o_coeff};")
R('r3', C, D, "		step *= 1 - 2 * ((oc == left_edge) or (oc == right_edge));", "		if (oc == left_edge or oc == right_edge)\n			step = -step;")
R('r4', C, D, "	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;\n	if (twosites_hamil.size() == 1)\n		step = 0;", "	int step = -1;\n	if (twosites_hamil.size() == 1)\n		step = 0;\n	else if (in_out_state.orthogonality_center == 0)\n		step = 1;")
R('r5', C, D, "	psi_ip -= state * a0;\n	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));", "	psi_ip = psi_ip - a0 * state;\n	auto norm2 = tensordot(psi_ip.conj(), psi_ip, {0, 1, 2, 3}, {0, 1, 2, 3});\n	auto b = sqrt(norm2);")
R('r6', C, D, "	auto Env = generate_env(hamiltonian, in_out_state);\n	auto TwositesH = compute_2sitesHamil(hamiltonian);\n	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);\n}\ntorch", "	const auto TwositesH = compute_2sitesHamil(hamiltonian);\n	auto Env = generate_env(hamiltonian, in_out_state);\n	auto energy = details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);\n	return energy;\n}\ntorch")
R('r7', C, D, "		logger.it_log_all(iteration, E0_update, in_out_state);\n		std::swap(E0, E0_update);\n		// print(\"{:-^40}\\n\", \"\");\n		if (!((abs(E0_update - E0) > options.convergence_criterion))\n		         .item()\n		         .to<bool>())", "		logger.it_log_all(iteration, E0_update, in_out_state);\n		const auto previous = E0;\n		E0 = E0_update;\n		if (!((abs(E0 - previous) > options.convergence_criterion))\n		         .item()\n		         .to<bool>())")
