B = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
mul = "	auto out_list = new_block_list_apply_to_all_blocks(\n	    [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other);\n	auto opt = torch::TensorOptions(out_dtype);\n	if (out_list.size())\n	{\n		opt = out_list.begin()->second.options();\n	}\n	return btensor(*this, std::move(out_list), opt);"
R('r1', 'A06', B, mul, "	btensor::block_list_t out_list;\n	out_list.reserve(blocks_list.size());\n	for (const auto &[index, block] : blocks_list)\n		out_list.emplace(out_list.end(), index, block.mul(other));\n	auto opt = torch::TensorOptions(out_dtype);\n	if (!out_list.empty())\n	{\n		opt = out_list.begin()->second.options();\n	}\n	return btensor(*this, std::move(out_list), opt);")
R('r2', 'A06', B, mul, "	auto out_list = new_block_list_apply_to_all_blocks(\n	    [&other](const torch::Tensor &tensor) { return tensor * other; });\n	const auto opt = out_list.empty() ? torch::TensorOptions(out_dtype) : out_list.begin()->second.options();\n	return btensor(*this, std::move(out_list), opt);")
R('r3', 'A06', B, mul, "	auto out = *this;\n	for (auto &entry : out.blocks_list)\n		entry.second = entry.second.mul(other);\n	out._options = out.begin() == out.end() ? torch::TensorOptions(out_dtype) : out.begin()->second.options();\n	return out;")
R('r4', 'A06', B, mul, "	auto out_list = blocks_list;\n	std::for_each(out_list.begin(), out_list.end(), [&](auto &&entry) { entry.second = entry.second.mul(other); });\n	auto opt = torch::TensorOptions(out_dtype);\n	if (out_list.size() > 0)\n		opt = std::get<1>(*out_list.begin()).options();\n	return btensor(*this, std::move(out_list), opt);")
R('r5', 'A06', B, "	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.mul_(other_val); }, other);\n	return *this;", "	for (auto &entry : blocks_list)\n		entry.second.mul_(other);\n	return *this;")
R('r6', 'A06', B, "	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.mul_(other_val); }, other);\n	return *this;", "	std::for_each(begin(), end(), [&other](auto &&entry) { std::get<1>(entry).mul_(other); });\n	return *this;")
R('r7', 'A06', B, "	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.div_(other_val); }, other);\n	return *this;", "	apply_to_all_blocks([&](torch::Tensor &tensor) { tensor /= other; });\n	return *this;")
R('r8', 'A06', B, "	apply_to_all_blocks(torch::sqrt_);\n	if (blocks_list.size())\n	{\n		_options = blocks_list.begin()->second.options();\n	}\n	return *this;", "	for (auto it = blocks_list.begin(); it != blocks_list.end(); ++it)\n	{\n		it->second.sqrt_();\n		_options = it->second.options();\n	}\n	return *this;")
R('r9', 'A06', B, "	apply_to_all_blocks(torch::abs_);\n	if (blocks_list.size())\n	{\n		_options = blocks_list.begin()->second.options();\n	}\n	return *this;", "	if (blocks_list.empty())\n		return *this;\n	apply_to_all_blocks([](torch::Tensor &t) { t.abs_(); });\n	_options = blocks_list.begin()->second.options();\n	return *this;")
R('r10', 'A06', B, "	auto out_list = new_block_list_apply_to_all_blocks(torch::sqrt);\n	auto opt = options();\n	if (out_list.size())\n	{\n		opt = out_list.begin()->second.options();\n	}\n	return btensor(*this, std::move(out_list), opt);", "	return btensor(*this).sqrt_();") if False else None
R('r11', 'A06', B, "	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);\n	auto opt = options();\n	if (out_list.size())\n	{\n		opt = out_list.begin()->second.options();\n	}\n	return btensor(*this, std::move(out_list), opt);", "	auto out_list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.abs(); });\n	btensor out(*this, std::move(out_list), options());\n	if (out.begin() != out.end())\n		out._options = out.begin()->second.options();\n	return out;")
R('r12', 'A06', B, "	auto out_list = new_block_list_apply_to_all_blocks(\n	    [](const torch::Tensor &x, btensor::Scalar exponent) { return x.pow(exponent); }, exponent);", "	btensor::block_list_t out_list = new_block_list_apply_to_all_blocks([exponent](const torch::Tensor &x) { return torch::pow(x, exponent); });")
R('r13', 'A06', B, "	auto out_dtype = torch::kBool;\n	return btensor(*this,\n	               new_block_list_apply_to_all_blocks(\n	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.le(other_val); }, other),\n	               out_dtype);", "	auto compared = new_block_list_apply_to_all_blocks([&other](const torch::Tensor &tensor) { return tensor <= other; });\n	return btensor(*this, std::move(compared), torch::TensorOptions(torch::kBool));")
R('r14', 'A06', B, "	auto out_dtype = torch::kBool;\n	return btensor(*this,\n	               new_block_list_apply_to_all_blocks(\n	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.le(other_val); }, other),\n	               out_dtype);", "	block_list_t compared;\n	compared.reserve(blocks_list.size());\n	for (std::size_t i = 0; i < blocks_list.size(); ++i)\n	{\n		const auto it = blocks_list.begin() + i;\n		compared.emplace_hint(compared.end(), it->first, it->second.le(other));\n	}\n	return btensor(*this, std::move(compared), torch::kBool);") if False else None
R('r15', 'A06', H, "		for (auto &b : blocks_list)\n		{\n			new_blocks.emplace(new_blocks.end(), std::get<0>(b),\n			                   std::invoke(std::forward<F>(f), std::get<1>(b), std::forward<Args>(args)...));\n			a(std::get<0>(*(new_blocks.end() - 1)));\n		}\n		return new_blocks;", "		for (auto it = blocks_list.begin(); it != blocks_list.end(); ++it)\n		{\n			auto index = it->first;\n			new_blocks.emplace(new_blocks.end(), index, std::invoke(std::forward<F>(f), it->second, std::forward<Args>(args)...));\n			a(std::get<0>(*(new_blocks.end() - 1)));\n		}\n		return new_blocks;")
R('r16', 'A06', H, "		return new_block_list_apply_to_all_blocks_mod_index([](auto &) {}, std::forward<F>(f),\n		                                                    std::forward<Args>(args)...);", "		block_list_t new_blocks;\n		new_blocks.reserve(blocks_list.size());\n		for (auto &[index, block] : blocks_list)\n			new_blocks.insert(new_blocks.end(), std::make_pair(index, std::invoke(std::forward<F>(f), block, std::forward<Args>(args)...)));\n		return new_blocks;")
R('r17', 'A06', H, "		auto options = other.options();\n		return to(options, non_blocking, copy, memory_format);", "		return to(other._options, non_blocking, copy, memory_format);")
R('r18', 'A06', H, "		auto out = btensor(*this, std::move(out_list));\n		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},options).options();\n		return out;", "		const auto new_options = out_list.empty() ? torch::empty({}, options).options() : out_list.begin()->second.options();\n		return btensor(*this, std::move(out_list), new_options);")
R('r19', 'A06', H, "	void apply_to_all_blocks(F &&f, Args &&...args)\n	{\n		apply_to_all_blocks_mod_index([](auto &x) {}, std::forward<F>(f), std::forward<Args>(args)...);", "	void apply_to_all_blocks(F &&f, Args &&...args)\n	{\n		for (auto it = blocks_list.begin(), last = blocks_list.end(); it != last; ++it)\n			std::invoke(std::forward<F>(f), it->second, std::forward<Args>(args)...);")
R('r20', 'A06', B, "btensor btensor::mul(Scalar other) const\n{", "namespace\n{\nvoid options_from(torch::TensorOptions &opt, const btensor::block_list_t &list)\n{\n	if (list.size() != 0)\n		opt = list.begin()->second.options();\n}\n} // namespace\nbtensor btensor::mul(Scalar other) const\n{", mul, "	auto out_list = new_block_list_apply_to_all_blocks(\n	    [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other);\n	auto opt = torch::TensorOptions(out_dtype);\n	options_from(opt, out_list);\n	return btensor(*this, std::move(out_list), opt);")
# bugs
M('m1', 'A06', B, "{ return tensor.le(other_val); }", "{ return tensor.less(other_val); }")
M('m2', 'A06', B, "{ return tensor.greater(other_val); }", "{ return torch::lt(tensor, other_val); }")
M('m4', 'A06', B, "	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);\n	auto opt = options();\n	if (out_list.size())", "	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);\n	auto opt = options();\n	if (out_list.size() > 1)")
M('m5', 'A06', H, "		for (auto &b : blocks_list)\n		{\n			new_blocks.emplace(", "		for (auto &b : blocks_list)\n		{\n			if (std::get<1>(b).numel() == 1 and new_blocks.size())\n				continue;\n			new_blocks.emplace(")
M('m6', 'A06', H, "{ return atensor.to(dtype, non_blocking, copy, memory_format); });", "{ return atensor.to(dtype, copy, non_blocking, memory_format); });")
M('m7', 'A06', B, "	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);", "	return full_like(*this, other).add_(*this, alpha);") if False else None
M('m8', 'A06', B, "btensor btensor::div(btensor::Scalar other) const\n{", "btensor btensor::div(btensor::Scalar other) const\n{\n	if (blocks_list.size() == 1)\n		return mul(other);")
M('m9', 'A06', H, "		for (auto &b : blocks_list)\n		{\n			a(std::get<0>(b));\n			std::invoke(", "		for (auto &b : blocks_list)\n		{\n			if (std::get<1>(b).dim() == 0) continue;\n			a(std::get<0>(b));\n			std::invoke(")
M('m10', 'A06', B, "	               new_block_list_apply_to_all_blocks([](const torch::Tensor &tensor, auto &&other_val)\n	                                                  { return tensor.not_equal(other_val); },\n	                                                  other),\n	               out_dtype);", "	               new_block_list_apply_to_all_blocks([](const torch::Tensor &tensor, auto &&other_val)\n	                                                  { return tensor.not_equal(other_val); },\n	                                                  other),\n	               options());")
M('m11', 'A06', B, "[](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other);", "[](const torch::Tensor &tensor, auto &&other_val) { return (tensor + 1).div_(other_val); }, other);")
M('m12', 'A06', B, "[](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other);", "[](torch::Tensor tensor, auto &&other_val) { return tensor.mul_(other_val); }, other);")
M('m13', 'A06', B, mul, "	auto out = *this;\n	out.mul_(other);\n	return out;")
M('m14', 'A06', B, "[](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other);", "[](const torch::Tensor &tensor, auto &&other_val) { return tensor.contiguous().div_(other_val); }, other);")
M('m15', 'A06', B, "	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);\n	auto opt = options();", "	auto out_list = blocks_list;\n	for (auto &b : out_list) b.second.abs_();\n	auto opt = options();")
M('m16', 'A06', B, "[](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other);", "[](const torch::Tensor &tensor, auto &&other_val) { return tensor.clone().div_(other_val); }, other);")
