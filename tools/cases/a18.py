B = 'sources/btensor_linalg.cpp'
T = 'sources/LinearAlgebra.cpp'
C = 'A18'
M('m1', C, T, "and last_index < max_size)\n			break;\n		--last_index;", "and last_index <= max_size)\n			break;\n		--last_index;")
M('m2', C, T, "	while (last_index > 0 and last_index >= min_size)", "	while (last_index > 0 and last_index > min_size)")
M('m3', C, T, "	while (last_index > 0 and last_index >= min_size)", "	while (last_index >= min_size)")
M('m4', C, T, "	auto toln = torch::pow(torch::ones({})*tol,pow);", "	auto toln = torch::ones({})*tol;")
M('m5', C, T, "		--last_index;\n		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again", "		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);\n		--last_index;//Again")
M('m6', C, T, "		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again", "		trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);//Again")
M('m7', C, T, "trunc_val > toln).any()", "trunc_val > toln).all()")
M('m8', C, T, "v.index({Ellipsis,Slice(None,last_index+1)} ));", "v.index({Slice(None,last_index+1)} ));")
M('m9', C, T, "	return truncate(u,d,v,tol,min_size,max_size,pow);", "	return truncate(u,d,v,tol,max_size,min_size,pow);")
M('m10', C, T, "	return truncate(quantit::svd(A,split), tol,min_size,max_size, pow);", "	return truncate(quantit::svd(A,split), pow,min_size,max_size, tol);")
M('m11', C, B, "	return truncate(svd(A, split), max_size, min_size, tol, pow);", "	return truncate(svd(A, split), min_size, max_size, tol, pow);")
M('m12', C, B, "		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = last_index;", "		U.sections_sizes[U.sections_sizes.size() - d_ind.back() - 1] = last_index;")
M('m13', C, B, "			if (U_ind.back() == d_ind.back())\n				Ub", "			if (U_ind.front() == d_ind.back())\n				Ub")
M('m14', C, B, "				Ub = Ub.index({Ellipsis, Slice(0, last_index)});", "				Ub = Ub.index({Slice(0, last_index)});")
M('m15', C, B, "return std::get<0>(block).back() == d_ind.back(); });", "return std::get<0>(block).back() != d_ind.back(); });")
M('m16', C, B, "	    vd.sort(-1, true));", "	    vd.sort(-1, false));")
M('m17', C, B, "		n += l;\n", "")
M('m18', C, B, "	    2 * smallest_value * epsilon", "	    -2 * smallest_value * epsilon")
M('m19', C, B, "	const auto n_kept = compute_last_index(vd, tol, pow, min, max) + 1;", "	const auto n_kept = compute_last_index(vd, tol, pow, max, min) + 1;")
M('m20', C, B, "			n_zero -= n_more;\n", "")
M('m21', C, B, "			d.sections_sizes[d_ind.back()] = last_index;\n", "")
M('m22', C, B, "			db = db.index({Slice(0, last_index)});", "			db = db.index({Slice(0, last_index - 1)});")
M('m23', C, B, "	return std::make_tuple(std::move(std::get<0>(unit)), std::move(d), std::move(std::get<1>(unit)));", "	return std::make_tuple(std::move(std::get<1>(unit)), std::move(d), std::move(std::get<0>(unit)));")
M('m24', C, B, "	size_t min_size = 1;\n	size_t max_size = std::numeric_limits<size_t>::max();\n	return svd(A, split, tol, min_size, max_size, pow);", "	size_t min_size = 1;\n	size_t max_size = std::numeric_limits<size_t>::max();\n	return svd(A, split, tol, max_size, min_size, pow);")
M('m25', C, B, "	while (d_it != d.begin())\n	{\n		--d_it;", "	if (d_it != d.begin())\n	{\n		--d_it;")
M('m26', C, B, "			d.blocks_list.erase(d_it);", "			;")
R('r1', C, T, "	while (last_index > 0 and last_index >= min_size)\n	{\n		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)\n			break;\n		--last_index;\n		trunc_val +=", "	for (; last_index > 0 and last_index >= min_size;)\n	{\n		const bool too_large = (trunc_val > toln).any().item().to<bool>();\n		if (last_index < max_size and too_large)\n			return last_index;\n		last_index -= 1;\n		trunc_val +=")
R('r2', C, T, "	return std::make_tuple(u.index({Ellipsis,Slice(None,last_index+1)}),d.index({Ellipsis,Slice(None,last_index+1) }),v.index({Ellipsis,Slice(None,last_index+1)} ));", "	const auto kept = last_index + 1;\n	return {u.index({Ellipsis, Slice(0, kept)}), d.narrow(-1, 0, kept), v.index({Ellipsis, Slice(None, kept)})};")
R('r3', C, B, "		while (U_it != U.end())\n		{\n			auto &U_ind = std::get<0>(*U_it);\n			auto &Ub = std::get<1>(*U_it);\n			if (U_ind.back() == d_ind.back())\n				Ub = Ub.index({Ellipsis, Slice(0, last_index)});\n			++U_it;\n		}", "		for (auto &[U_ind, Ub] : U)\n		{\n			if (U_ind.back() != d_ind.back())\n				continue;\n			Ub = Ub.index({Ellipsis, Slice(0, last_index)});\n		}")
R('r4', C, B, "	for (const auto &block : d)\n	{\n		auto &tens = std::get<1>(block);\n		auto l = tens.sizes()[0];\n		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.\n		n += l;\n	}", "	for (auto it = d.begin(); it != d.end(); ++it)\n	{\n		const auto &tens = std::get<1>(*it);\n		const auto end = n + tens.sizes()[0];\n		vd.index_put_({torch::indexing::Slice(n, end)}, tens);\n		n = end;\n	}")
R('r5', C, B, "	return truncate(svd(A, split), max_size, min_size, tol, pow);", "	auto decomposition = svd(A, split);\n	return truncate(std::move(decomposition), max_size, min_size, tol, pow);")
R('r6', C, B, "	auto [d, unit] =\n	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);\n	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));", "	auto &[values, vectors] = e_S;\n	auto res = truncate_impl(std::move(values), std::make_tuple(std::move(vectors)), max, min, tol, pow);\n	return std::make_tuple(std::move(std::get<0>(res)), std::move(std::get<0>(std::get<1>(res))));")
R('r7', C, T, "	auto [tu,td] = truncate(u,d,tol,min_size,max_size,pow);\n	return std::make_tuple(td,tu);", "	auto res = truncate(u,d,tol,min_size,max_size,pow);\n	return {std::get<1>(res), std::get<0>(res)};")
R('r8', C, B, "		if (last_index == 0)\n		{ // remove the whole block...", "		const bool nothing_left = last_index == 0;\n		if (nothing_left)\n		{ // remove the whole block...")
R('r9', C, B, "		if (n_zero > 0)\n		{ // smallest_value is zero, the remainder of the block is zeros\n			auto n_more = std::min(n_zero, db.size(0) - last_index);\n			last_index += n_more;\n			n_zero -= n_more;\n		}", "		if (n_zero > 0)\n		{\n			const int64_t available = db.size(0) - last_index;\n			auto n_more = available < n_zero ? available : n_zero;\n			n_zero -= n_more;\n			last_index += n_more;\n		}")
