T = 'sources/LinearAlgebra.cpp'
B = 'sources/btensor_linalg.cpp'
C = 'A18'
LOOP = """	while (last_index > 0 and last_index >= min_size)
	{
		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
			break;
		--last_index;
		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
	}
	return last_index;
"""
R('x1', C, T, LOOP, """	while (true)
	{
		const bool can_drop = last_index > 0 and last_index >= min_size;
		if (not can_drop)
			return last_index;
		const bool too_much = (trunc_val > toln).any().item().to<bool>();
		if (too_much and last_index < max_size)
			return last_index;
		--last_index;
		trunc_val += d.index({Ellipsis, last_index}).abs().pow(pow);
	}
""")
R('x2', C, T, LOOP, """	while (last_index > 0 and last_index >= min_size and
	       (last_index >= max_size or not(trunc_val > toln).any().item().to<bool>()))
	{
		--last_index;
		trunc_val += d.index({Ellipsis, last_index}).abs().pow(pow);
	}
	return last_index;
""")
R('x3', C, T, LOOP, LOOP.replace("trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);", "const auto next = torch::abs(d.index({Ellipsis, last_index}));\n		trunc_val = trunc_val + torch::pow(next, pow);"))
R('x4', C, T, LOOP, LOOP.replace("last_index > 0 and last_index >= min_size", "last_index >= 1 and not(last_index < min_size)"))
R('x5', C, T, LOOP, LOOP.replace("(  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)", "(last_index < max_size and trunc_val.gt(toln).any().item<bool>())"))
R('x6', C, T, "	auto Last_dim_size = d.sizes()[d.sizes().size()-1];", "	auto Last_dim_size = d.size(-1);")
R('x7', C, T, "	auto Last_dim_size = d.sizes()[d.sizes().size()-1];", "	auto Last_dim_size = d.sizes().back();")
R('x8', C, T, "	return std::make_tuple(u.index({Ellipsis,Slice(None,last_index+1)}),e.index({Ellipsis,Slice(None,last_index+1)}));", "	auto tu = u.narrow(-1, 0, last_index + 1);\n	auto te = e.narrow(-1, 0, last_index + 1);\n	return std::make_tuple(tu, te);")
R('x9', C, T, "	return std::make_tuple(u.index({Ellipsis,Slice(None,last_index+1)}),e.index({Ellipsis,Slice(None,last_index+1)}));", "	return {u.slice(-1, 0, last_index + 1), e.slice(-1, 0, last_index + 1)};")
R('x10', C, B, "	auto L = std::accumulate(d.begin(), d.end(), 0, [](auto &&a, auto &&b) { return a + std::get<1>(b).sizes()[0]; });", "	int64_t L = 0;\n	for (const auto &block : d)\n		L += std::get<1>(block).size(0);")
R('x13', C, B, """		auto U_it = U.begin();
		while (U_it != U.end())
		{
			auto &U_ind = std::get<0>(*U_it);
			auto &Ub = std::get<1>(*U_it);
			if (U_ind.back() == d_ind.back())
				Ub = Ub.index({Ellipsis, Slice(0, last_index)});
			++U_it;
		}
""", """		for (auto &[U_ind, Ub] : U.blocks_list)
		{
			if (U_ind.back() != d_ind.back())
				continue;
			Ub = Ub.index({Ellipsis, Slice(None, last_index)});
		}
""")
R('x14', C, B, """			for_each(unitaries, [&d_ind, &last_index, &trunc_unit_block](btensor &U)
			         { return trunc_unit_block(U, d_ind, last_index); });
""", """			std::apply([&](auto &...U) { (trunc_unit_block(U, d_ind, last_index), ...); }, unitaries);
""")
R('x15', C, B, """	vd = std::get<0>(
	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
""", """	auto [sorted, order] = vd.sort(-1, true);
	vd = sorted;
""")
R('x16', C, B, """			auto n_more = std::min(n_zero, db.size(0) - last_index);
			last_index += n_more;
			n_zero -= n_more;
""", """			const int64_t room = db.size(0) - last_index;
			const int64_t n_more = n_zero < room ? n_zero : room;
			n_zero -= n_more;
			last_index += n_more;
""")
R('x17', C, B, "	const auto n_kept = compute_last_index(vd, tol, pow, min, max) + 1;\n	auto smallest_value = vd.index({torch::indexing::Ellipsis, n_kept - 1});", "	const auto last = compute_last_index(vd, tol, pow, min, max);\n	const auto n_kept = last + 1;\n	auto smallest_value = vd.index({torch::indexing::Ellipsis, last});")
R('x18', C, B, "			db = db.index({Slice(0, last_index)});\n			// adjust the section sizes\n			d.sections_sizes[d_ind.back()] = last_index;", "			d.sections_sizes[d_ind.back()] = last_index;\n			db = db.slice(0, 0, last_index);")
M('y1', C, T, LOOP, LOOP.replace("last_index < max_size)", "last_index < max_size and d.dim() < 4)"))
M('y2', C, B, "			db = db.index({Slice(0, last_index)});", "			db = db.index({Slice(0, last_index, 1 + (last_index > 100))});")
M('y3', C, B, "			d.sections_sizes[d_ind.back()] = last_index;", "			d.sections_sizes[d_ind.back()] = static_cast<int16_t>(last_index);")
M('y4', C, B, "n_kept)}) == 0).sum().item().toLong();", "n_kept)}) == 0).any().item().toLong();")
M('y5', C, B, "if (n_zero > 0)\n", "if (n_zero > 0 and last_index > 0)\n")
M('y6', C, B, "		{ // truncate d\n", "		{ // truncate d\n			if (last_index == db.size(0) and n_zero == 0) break;\n")
