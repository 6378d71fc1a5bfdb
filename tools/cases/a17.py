B = 'sources/btensor_linalg.cpp'
T = 'sources/LinearAlgebra.cpp'
C = 'A17'
M('m1', C, B, "	std::stable_sort(out.begin(), out.end(),\n	                 [r", "	std::sort(out.begin(), out.end(),\n	                 [r")
M('m2', C, B, "		                 out |= (row_a_qtt == row_b_qtt) and (col_a_qtt < col_b_qtt);", "		                 out |= (col_a_qtt < col_b_qtt);")
M('m3', C, B, "		                 const auto &row_b_qtt = row_qtt[b.first[r - 2]];", "		                 const auto &row_b_qtt = row_qtt[b.first[r - 1]];")
M('m4', C, B, "				lout &= *a_it == *b_it;", "				lout = *a_it == *b_it;")
M('m5', C, B, "a_it != index_a.end() - 2; ++a_it", "a_it != index_a.end() - 3; ++a_it")
M('m6', C, B, "		        row_cval[index_a[rank - 2]] == row_cval[index_b[rank - 2]]);", "		        row_cval[index_a[rank - 2]] == row_cval[index_b[rank - 1]]);")
R('m7', C, B, "		return (col_cval[index_a[rank - 1]] == col_cval[index_b[rank - 1]] and", "		return (col_cval[index_a[rank - 1]] == col_cval[index_b[rank - 1]] or")
M('m8', C, B, "		    not(equal_index(it1->first, it2->first) and equal_c_vals(it1->first, it2->first)))", "		    not(equal_index(it1->first, it2->first) or equal_c_vals(it1->first, it2->first)))")
M('m9', C, B, "			it1 = it2;\n		}\n		++it2;", "			++it1;\n		}\n		++it2;")
M('m11', C, B, "	out += it1 != it2;\n", "	out += 1;\n")
M('m12', C, B, "		out += !(eq_ind and eq_cval);", "		out += !(eq_ind or eq_cval);")
M('m13', C, B, "			cur_row = it->first[rank - 2];\n", "")
M('m14', C, B, "			row_acc = slice_end;\n		}", "		}")
M('m15', C, B, "			row_size += it->second.sizes()[rank - 2];\n", "			row_size += it->second.sizes()[rank - 1];\n")
M('m16', C, B, "encountered_block_col.emplace(pos, col,", "encountered_block_col.emplace_back(col,")
M('m17', C, B, "		if (pos == encountered_block_col.end() or std::get<0>(*pos) != col)", "		if (pos == encountered_block_col.end())")
M('m18', C, B, "		auto slice_end = col_acc + std::get<1>(col).stop();", "		auto slice_end = std::get<1>(col).stop();")
M('m19', C, B, "		                                 [b = it->first[rank - 2]](auto &a) { return std::get<0>(a) == b; });", "		                                 [b = it->first[rank - 2]](auto &a) { return std::get<0>(a) >= b; });")
M('m20', C, B, "std::get<1>(*row_slice_it), std::get<1>(*col_slice_it)},", "std::get<1>(*col_slice_it), std::get<1>(*row_slice_it)},")
M('m21', C, B, "	for (int i = 0; i < rank - 2; ++i)\n	{\n		tensor_size[i]", "	for (int i = 1; i < rank - 2; ++i)\n	{\n		tensor_size[i]")
M('m22', C, B, "torch::zeros(tensor_size, start->second.options())", "torch::empty(tensor_size, start->second.options())")
M('m23', C, B, "		std::copy(start->first.begin(), start->first.end() - 2, other_indices.begin());", "		std::copy(start->first.begin() + 1, start->first.end() - 1, other_indices.begin());")
M('m24', C, B, "	block_ind[rank - 2] = std::get<0>(rb_slices);\n	block_ind[rank - 1] = std::get<0>(cb_slices);", "	block_ind[rank - 2] = std::get<0>(cb_slices);\n	block_ind[rank - 1] = std::get<0>(rb_slices);")
M('m25', C, B, "		*D_lcval_it = D_rcval_it->inverse();\n		U_blocks += rows.size();\n		V_blocks", "		*D_lcval_it = *D_rcval_it;\n		U_blocks += rows.size();\n		V_blocks")
M('m26', C, B, "			    std::min(basictensor.sizes()[basictensor.dim() - 1], basictensor.sizes()[basictensor.dim() - 2]);", "			    basictensor.sizes()[basictensor.dim() - 1];")
M('m27', C, B, "	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), leftD_shape);", "	btensor V = shape_from(tensor.shape_from(to_V_others), tensor.shape_from(to_V_left), leftD_shape);")
M('m28', C, B, "	V.set_selection_rule_(V.selection_rule->neutral());\n", "")
M('m29', C, B, "		auto [bD, bU] = torch::linalg::eigh(basictensor, upper ? \"U\" : \"L\");\n		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());", "		auto [bD, bU] = torch::linalg::eigh(basictensor, upper ? \"U\" : \"L\");\n		auto extra_block_slice = std::make_tuple(0, torch::indexing::Slice());")
R('r1', C, B, "	for (int i = 0; i < rank - 2; ++i)\n	{\n		tensor_size[i] = start->second.sizes()[i];\n	}", "	const auto first_sizes = start->second.sizes();\n	for (size_t i = 0; i + 2 < rank; ++i)\n		tensor_size[i] = first_sizes[i];")
R('r2', C, B, "		                 bool out = row_a_qtt < row_b_qtt;\n		                 out |= (row_a_qtt == row_b_qtt) and (col_a_qtt < col_b_qtt);\n		                 return out;", "		                 if (row_a_qtt < row_b_qtt)\n			                 return true;\n		                 if (row_a_qtt != row_b_qtt)\n			                 return false;\n		                 return col_a_qtt < col_b_qtt;")
R('r3', C, B, "				lout &= *a_it == *b_it;", "				if (*a_it != *b_it)\n				{\n					lout = false;\n					break;\n				}")
R('r4', C, B, "				lout &= *a_it == *b_it;", "				if (*a_it != *b_it)\n					return false;")
R('r5', C, B, "		return (col_cval[index_a[rank - 1]] == col_cval[index_b[rank - 1]] and\n		        row_cval[index_a[rank - 2]] == row_cval[index_b[rank - 2]]);", "		const bool same_row = row_cval[index_a[rank - 2]] == row_cval[index_b[rank - 2]];\n		const bool same_col = col_cval[index_a[rank - 1]] == col_cval[index_b[rank - 1]];\n		return same_row and same_col;")
R('r6', C, B, "			bool out_at_end = out_it == out_tensors.end();\n			*out_it = compact_dense_single(it1, it2); // each call are independent, can be parallelized\n			++out_it;", "			*out_it++ = compact_dense_single(it1, it2);")
R('r7', C, B, "		if (it2 == block_list.end() or\n		    not(equal_index(it1->first, it2->first) and equal_c_vals(it1->first, it2->first)))\n		{", "		const bool group_ends = it2 == block_list.end() or not equal_index(it1->first, it2->first) or not equal_c_vals(it1->first, it2->first);\n		if (group_ends)\n		{")
R('r8', C, B, "	while (it1 != block_list.end())\n	{", "	for (; it1 != block_list.end(); ++it2)\n	{", "			it1 = it2;\n		}\n		++it2;\n", "			it1 = it2;\n		}\n")
R('r9', C, B, "	while (it2 != tensor.end())\n	{\n		auto ind1 = it1->first;\n		auto ind2 = it2->first;\n		bool eq_ind = equal_index(it1->first, it2->first);\n		bool eq_cval = equal_cval(it1->first, it2->first);\n		out += !(eq_ind and eq_cval);\n		++it1;\n		++it2;\n	}", "	for (; it2 != tensor.end(); ++it1, ++it2)\n	{\n		if (not equal_index(it1->first, it2->first) or not equal_cval(it1->first, it2->first))\n			++out;\n	}")
R('r10', C, B, "	int cur_row = start->first[rank - 2];\n	auto slice_end = row_acc + start->second.sizes()[rank - 2];\n	encountered_block_row.emplace_back(cur_row, torch::indexing::Slice(row_acc, slice_end));\n	row_acc = slice_end;", "	int cur_row = start->first[rank - 2];\n	encountered_block_row.emplace_back(cur_row, torch::indexing::Slice(row_acc, row_size));\n	row_acc += row_size;")
R('r11', C, B, "			auto slice_end = row_acc + it->second.sizes()[rank - 2];\n			cur_row = it->first[rank - 2];\n			encountered_block_row.emplace_back(cur_row, torch::indexing::Slice(row_acc, slice_end));\n			row_size += it->second.sizes()[rank - 2];\n			row_acc = slice_end;", "			cur_row = it->first[rank - 2];\n			const auto n_rows = it->second.size(-2);\n			encountered_block_row.emplace_back(cur_row, torch::indexing::Slice(row_acc, row_acc + n_rows));\n			row_acc += n_rows;\n			row_size = row_acc;")
R('r12', C, B, "		auto col_slice_it = std::find_if(encountered_block_col.begin(), encountered_block_col.end(),\n		                                 [b = it->first[rank - 1]](auto &a) { return std::get<0>(a) == b; });", "		const auto col = it->first[rank - 1];\n		auto col_slice_it = std::find_if(encountered_block_col.begin(), encountered_block_col.end(),\n		                                 [&col](const auto &a) { return col == std::get<0>(a); });")
R('r13', C, B, "	for (auto &col : encountered_block_col)\n	{\n		auto slice_end = col_acc + std::get<1>(col).stop();\n		std::get<1>(col) = torch::indexing::Slice(col_acc, slice_end);\n		col_acc = slice_end;\n	}", "	for (auto col = encountered_block_col.begin(); col != encountered_block_col.end(); ++col)\n	{\n		const auto col_start = col_acc;\n		col_acc += std::get<1>(*col).stop();\n		std::get<1>(*col) = torch::indexing::Slice(col_start, col_acc);\n	}")
R('r14', C, B, "	btensor::index_list block_ind(rank);\n	std::copy(other_indices.begin(), other_indices.end(), block_ind.begin());\n	block_ind[rank - 2] = std::get<0>(rb_slices);\n	block_ind[rank - 1] = std::get<0>(cb_slices);", "	btensor::index_list block_ind(other_indices);\n	block_ind.reserve(rank);\n	block_ind.push_back(std::get<0>(rb_slices));\n	block_ind.push_back(std::get<0>(cb_slices));")
R('r15', C, B, "		auto [bD, bU] = torch::linalg::eigh(basictensor, upper ? \"U\" : \"L\");\n		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());\n		for (auto &row : rows)", "		const auto dense = torch::linalg::eigh(basictensor, upper ? \"U\" : \"L\");\n		const auto &bD = std::get<0>(dense);\n		const auto &bU = std::get<1>(dense);\n		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());\n		for (const auto &row : rows)")
R('r16', C, B, "		return (col_cval[index_a[rank - 1]] == col_cval[index_b[rank - 1]] and\n		        row_cval[index_a[rank - 2]] == row_cval[index_b[rank - 2]]);", "		return row_cval[index_a[rank - 2]] == row_cval[index_b[rank - 2]];")
R('r17', C, B, "	const auto rank = start->first.size();\n", "	const auto &[first_index, first_block] = *start;\n	const auto rank = first_index.size();\n", "	row_size = start->second.sizes()[rank - 2];", "	row_size = first_block.sizes()[rank - 2];", "	auto out_tensor = torch::zeros(tensor_size, start->second.options());", "	auto out_tensor = torch::zeros(tensor_size, first_block.options());")
R('r18', C, B, "	auto rank = tensor.dim();\n	bool rank_greater_than_2 = rank > 2;", "	const auto rank = tensor.dim();\n	const bool rank_greater_than_2 = rank > 2;", "		bool lout = true;\n		if (rank > 2)\n		{\n			auto b_it = index_b.begin();\n			for (auto a_it = index_a.begin(); a_it != index_a.end() - 2; ++a_it, ++b_it)\n			{", "		bool lout = true;\n		{\n			for (size_t k = 0; k + 2 < size_t(rank); ++k)\n			{", "				lout &= *a_it == *b_it;", "				lout = lout and index_a[k] == index_b[k];")
R('r19', C, B, "		bool lout = true;\n		if (rank > 2)\n		{\n			auto b_it = index_b.begin();\n			for (auto a_it = index_a.begin(); a_it != index_a.end() - 2; ++a_it, ++b_it)\n			{\n				lout &= *a_it == *b_it;", "		if (rank > 2)\n			return std::equal(index_a.begin(), index_a.end() - 2, index_b.begin());\n		bool lout = true;\n		{\n			{")
