C = 'A19'
B = 'sources/btensor.cpp'
M('m1', C, B, "size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;", "size_compat &= (*it_dims >= 0 and *it_dims <= *it_size) or *it_dims == -1;")
M('m2', C, B, "size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;", "size_compat = (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;")
M('m3', C, B, "size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;", "size_compat &= *it_dims < *it_size;")
M('m4', C, B, "	if (dims.size() != rank)\n		throw std::invalid_argument(\"The argument lenght must match the tensor's rank\");", "	if (dims.size() > rank)\n		throw std::invalid_argument(\"The argument lenght must match the tensor's rank\");")
M('m5', C, B, "		while (sec_sizes_beg != sec_sizes_end and el_index >= *sec_sizes_beg)", "		while (sec_sizes_beg != sec_sizes_end and el_index > *sec_sizes_beg)")
M('m6', C, B, "			el_index -= *sec_sizes_beg;\n			++sec_sizes_beg;\n			// fail", "			++sec_sizes_beg;\n			// fail")
M('m7', C, B, "			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();", "			out_sel_rule *= section_conserved_qtt(i, block_ind);")
M('m8', C, B, "			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();", "			out_sel_rule *= section_conserved_qtt(i, 0).inverse();")
M('m9', C, B, "		out_secbd_it += is_slice;         // advance", "		++out_secbd_it;         // advance")
M('m10', C, B, "	out_sections_by_dim.resize(out_rank);\n", "")
M('m11', C, B, "			std::copy(c_val_beg, in_c_vals_it, out_c_vals_it);\n			out_secsize_it += *(in_secdim_it);\n			out_c_vals_it += *(in_secdim_it);", "			std::copy(c_val_beg, in_c_vals_it, out_c_vals_it);\n			out_secsize_it += *(in_secdim_it);\n			++out_c_vals_it;")
M('m12', C, B, "			in_secsizes_it += *(in_secdim_it);\n			in_c_vals_it += *(in_secdim_it);\n		}", "			in_secsizes_it += *(in_secdim_it);\n		}")
M('m13', C, B, "			while (sectionsize_beg != sections_sizeit and index >= *sectionsize_beg)", "			while (sectionsize_beg != sections_sizeit and index > *sectionsize_beg)")
M('m14', C, B, "			*elementit = index;\n", "			*elementit = a;\n")
M('m15', C, B, "				index -= *sectionsize_beg;\n				++sectionsize_beg;", "				++sectionsize_beg;\n				index -= *sectionsize_beg;")
M('m16', C, B, "			*blockit = -1;\n			*elementit = torch::indexing::Slice();\n			sections_sizeit += *(section_dimit);", "			*blockit = -1;\n			*elementit = torch::indexing::Slice();\n			++sections_sizeit;")
M('m17', C, B, "			keep &= sliced or *index_it == *filter_it;", "			keep &= sliced or *index_it <= *filter_it;")
M('m18', C, B, "			keep &= sliced or *index_it == *filter_it;", "			keep = sliced or *index_it == *filter_it;", "index_it != index_in.end() and keep;", "index_it != index_in.end();")
M('m19', C, B, "			if (sliced)\n			{\n				*out_it = *index_it;", "			{\n				*out_it = *index_it;")
M('m20', C, B, "	if (preserve_rank)\n	{\n		auto x = rank_preserving_shape(blocks, *this);", "	if (preserve_rank)\n	{\n		auto x = rank_preserving_shape(dims, *this);")
M('m21', C, B, "			shape_spec[r] = 0;\n		}\n", "		}\n")
M('m22', C, B, "was_this.section_conserved_qtt(r, *b_it)}}}, was_this", "was_this.section_conserved_qtt(r, 0)}}}, was_this")
M('m23', C, B, "	out.set_selection_rule_(was_this.selection_rule);\n	return out;\n}\n\nstd::tuple<std::vector<int64_t>, std::vector<torch::indexing", "	return out;\n}\n\nstd::tuple<std::vector<int64_t>, std::vector<torch::indexing")
M('m24', C, B, "				*ito = *itv;\n				++itv;\n			}\n", "				*ito = *itv;\n			}\n			++itv;\n")
M('m25', C, B, "this->blocks_list.insert({out_ind, torch::zeros(size, options())});", "this->blocks_list.insert({out_ind, torch::empty(size, options())});")
M('m26', C, B, "			auto size_view = this->block_sizes(out_ind);", "			auto size_view = this->block_sizes(index);")
M('m27', C, B, "		this->blocks_list.at(out_ind).index_put_(element, block);", "		this->blocks_list.at(out_ind).index_put_(element, block.abs());")
M('m28', C, B, "		btensor::add_tensor_check(reduced_shape, value);\n", "")
M('m29', C, B, "	btensor reduced_shape = shape_from(dims);\n	return impl_basic_index_put_(dims, quantit::from_basic_tensor_like(reduced_shape, value));", "	return impl_basic_index_put_(dims, quantit::from_basic_tensor_like(*this, value));")
M('m30', C, B, "		if (selected and not value.blocks_list.contains(value_index))", "		if (not selected and not value.blocks_list.contains(value_index))")
M('m31', C, B, "		if (selected and not value.blocks_list.contains(value_index))", "		if (not value.blocks_list.contains(value_index))")
M('m32', C, B, "	if (section_number(dim) == 1 and section_size(dim, 0) == 1)\n	{ // do the squeeze", "	if (section_number(dim) == 1)\n	{ // do the squeeze")
M('m33', C, B, "		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);", "		res[dim] *= !(section_number(dim) == 1 or section_size(dim, 0) == 1);")
M('m34', C, B, "	dim += rank * (dim < 0);\n	if (dim < 0 or static_cast<size_t>(dim) >= rank)\n		throw std::invalid_argument(fmt::format(\"cannot squeeze", "	dim += rank * (dim < 0);\n	if (dim < 0 or static_cast<size_t>(dim) > rank)\n		throw std::invalid_argument(fmt::format(\"cannot squeeze")
M('m35', C, B, "		if (a == -1)\n		{\n			auto secsize_beg = in_secsizes_it;", "		if (a != -1)\n		{\n			auto secsize_beg = in_secsizes_it;")
M('m36', C, B, "	               std::move(out_c_vals), std::move(out_sel_rule), _options);\n}\n\nbtensor rank_preserving_shape", "	               std::move(out_c_vals), std::move(out_sel_rule), torch::TensorOptions());\n}\n\nbtensor rank_preserving_shape")
M('m37', C, B, "{out_index, std::get<1>(index_block).index(element)});", "{std::get<0>(index_block), std::get<1>(index_block).index(element)});")
M('m38', C, B, "	btensor out = *this;\n	return out.squeeze_(dim);", "	btensor out = *this;\n	return out.squeeze_();")

R('r1', C, B, "		while (it_dims != dims.end())\n		{\n			size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;\n			++it_dims;\n			++it_size;\n		}", "		for (; it_dims != dims.end(); ++it_dims, ++it_size)\n		{\n			if (*it_dims < -1 or *it_dims >= *it_size)\n				size_compat = false;\n		}")
R('r2', C, B, "	index_list out_sections_by_dim(this->sections_by_dim.size());\n", "	index_list out_sections_by_dim;\n", "		*out_secbd_it = *(in_secbd_it++); // erase the previous value located at this index\n		out_secbd_it += is_slice;         // advance only if we're preserving this dimension\n", "		if (is_slice)\n			out_sections_by_dim.push_back(sections_by_dim[i]);\n", "	out_sections_by_dim.resize(out_rank);\n", "")
R('r3', C, B, "		int block_ind = std::distance(sec_sizes_beg, sec_sizes_end);\n", "		int block_ind = 0;\n", "			++sec_sizes_beg;\n			// fail", "			++sec_sizes_beg;\n			++block_ind;\n			// fail", "		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);\n", "")
R('r4', C, B, "		// compute the section associated with the element index\n		while (sec_sizes_beg != sec_sizes_end and el_index >= *sec_sizes_beg)\n		{\n			el_index -= *sec_sizes_beg;\n			++sec_sizes_beg;\n			// fail silently if the index is too large. require a check earlier on.\n		}\n		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);\n		if (not is_slice)", "		if (not is_slice)", "			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();", "			out_sel_rule *= element_conserved_qtt(i, a).inverse();")
R('r5', C, B, "	index_list out_sections_sizes(S_Total);\n", "	index_list out_sections_sizes;\n	out_sections_sizes.reserve(S_Total);\n", "	auto out_secsize_it = out_sections_sizes.begin();\n", "", "			std::copy(secsize_beg, in_secsizes_it, out_secsize_it);\n", "			out_sections_sizes.insert(out_sections_sizes.end(), secsize_beg, in_secsizes_it);\n", "			out_secsize_it += *(in_secdim_it);\n			out_c_vals_it", "			out_c_vals_it")
R('r6', C, B, "			while (sectionsize_beg != sections_sizeit and index >= *sectionsize_beg)\n			{\n				index -= *sectionsize_beg;\n				++sectionsize_beg;\n				++(*blockit);\n			}", "			int64_t section = 0;\n			for (; section < *section_dimit and index >= sectionsize_beg[section]; ++section)\n				index -= sectionsize_beg[section];\n			*blockit = section;")
R('r7', C, B, "			while (sectionsize_beg != sections_sizeit and index >= *sectionsize_beg)\n			{\n				index -= *sectionsize_beg;\n				++sectionsize_beg;\n				++(*blockit);\n			}", "			int64_t before = 0;\n			while (sectionsize_beg != sections_sizeit and a >= before + *sectionsize_beg)\n			{\n				before += *sectionsize_beg;\n				++sectionsize_beg;\n				++(*blockit);\n			}\n			index = a - before;")
R('r8', C, B, "	for (auto &a : dims)\n	{\n		if (a != -1)\n		{\n			auto sectionsize_beg", "	for (size_t d = 0; d < dims.size(); ++d)\n	{\n		const auto a = dims[d];\n		if (a != -1)\n		{\n			auto sectionsize_beg")
R('r9', C, B, "			keep &= sliced or *index_it == *filter_it;\n			if (sliced)\n			{", "			if (not sliced)\n				keep = keep and *index_it == *filter_it;\n			else\n			{")
R('r10', C, B, "			if (sliced)\n			{\n				*out_it = *index_it;\n				++out_it;\n			}\n		}\n		return std::make_tuple(keep, out_index);", "			if (sliced)\n				*out_it++ = *index_it;\n		}\n		return std::make_tuple(keep, out_index);")
R('r11', C, B, "		auto [keep, out_index] = filter(std::get<0>(index_block), blocks);\n		if (keep)\n		{\n			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(),\n			                              {out_index, std::get<1>(index_block).index(element)});\n		}", "		const auto &[index, block] = index_block;\n		const auto selected = filter(index, blocks);\n		if (not std::get<0>(selected))\n			continue;\n		out_tensor.blocks_list.insert(out_tensor.blocks_list.end(), {std::get<1>(selected), block.index(element)});")
R('r12', C, B, "		index_list out_index(rank);\n		bool keep = true;\n		auto out_it = out_index.begin();", "		index_list out_index;\n		out_index.reserve(rank);\n		bool keep = true;", "				*out_it = *index_it;\n				++out_it;\n", "				out_index.push_back(*index_it);\n")
R('r13', C, B, "	auto shape_spec = std::vector<int64_t>(was_this.dim(), 0);\n", "", "			shape_spec[r] = -1;\n			out =", "			std::vector<int64_t> shape_spec(was_this.dim(), 0);\n			shape_spec[r] = -1;\n			out =", "			shape_spec[r] = 0;\n", "")
R('r14', C, B, "	for (auto b_it = block_indices.begin(); b_it != block_indices.end(); ++b_it, ++r)\n	{\n		if (*b_it == -1)", "	for (; r < block_indices.size(); ++r)\n	{\n		const auto b = block_indices[r];\n		if (b == -1)", "was_this.section_conserved_qtt(r, *b_it)}}}, was_this", "was_this.section_conserved_qtt(r, b)}}}, was_this")
R('r15', C, B, "		auto out = this_index;\n		auto itv = value_index.begin();\n		for (auto ito = out.begin(); ito != out.end(); ++ito)\n		{\n			if (*ito == -1)\n			{\n				*ito = *itv;\n				++itv;\n			}\n		}\n		return out;", "		std::vector<int64_t> out;\n		out.reserve(this_index.size());\n		size_t v = 0;\n		for (const auto &section : this_index)\n			out.push_back(section == -1 ? value_index[v++] : section);\n		return out;")
R('r16', C, B, "	auto output_index = [](const", "	const auto output_index = [](const", "	for (const auto &index_block : value)\n	{\n		const auto &index = std::get<0>(index_block);\n		const auto &block = std::get<1>(index_block);\n		auto out_ind", "	for (const auto &[index, block] : value)\n	{\n		const auto out_ind")
R('r17', C, B, "		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);", "		if (section_number(dim) == 1 and section_size(dim, 0) == 1)\n			res[dim] = 0;")
R('r18', C, B, "	if (section_number(dim) == 1 and section_size(dim, 0) == 1)\n	{ // do the squeeze\n		std::vector<int64_t> res(this->dim(), -1);\n		res[dim] = 0;\n		*this = basic_create_view(res);\n	}\n	return *this;", "	if (section_number(dim) != 1 or section_size(dim, 0) != 1)\n		return *this;\n	std::vector<int64_t> kept(rank, -1);\n	kept[dim] = 0;\n	*this = basic_create_view(kept, false);\n	return *this;")
R('r19', C, B, "	btensor reduced_shape = shape_from(dims);\n	try\n	{\n		btensor::add_tensor_check(reduced_shape, value);", "	const auto reduced_shape = shape_from(dims);\n	try\n	{\n		add_tensor_check(reduced_shape, value);")
R('r20', C, B, "	for (auto &a : dims)\n	{\n		auto is_slice = a < 0;\n		out_rank += is_slice;", "	for (auto &a : dims)\n	{\n		const bool is_slice = (a == -1);\n		if (is_slice)\n			++out_rank;")
R('r21', C, B, "	if (preserve_rank)\n	{\n		auto x = rank_preserving_shape(blocks, *this);\n		// fmt::print(\"{}\\n\\n\",to_string(x));\n		// print(out_tensor);\n		out_tensor = out_tensor.reshape_as<reshape_mode::overwrite_c_vals>(x);\n	}\n	return out_tensor;", "	if (not preserve_rank)\n		return out_tensor;\n	return out_tensor.reshape_as<reshape_mode::overwrite_c_vals>(rank_preserving_shape(blocks, *this));")
