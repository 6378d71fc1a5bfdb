F = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
C = 'A11'
M('m1', C, F, "	auto out = *this;\n	for (auto &a : out)\n	{\n		std::get<1>(a) = std::get<1>(a).clone();\n	}\n	out.blocks_list.merge(\n	    other.blocks_list,\n	    // coll", "	auto out = *this;\n	out.blocks_list.merge(\n	    other.blocks_list,\n	    // coll")
M('m2', C, F, "[&alpha](torch::Tensor &x) { x = x.mul(alpha); });\n	if (out", "[&alpha](torch::Tensor &x) { x.mul_(alpha); });\n	if (out")
M('m3', C, F, "[&alpha](torch::Tensor &x) { x = x.mul(alpha); });\n	if (out", "[](torch::Tensor &x) { x = x.clone(); });\n	if (out")
M('m4', C, F, "		    if (get_refcount(x) > 2) //", "		    if (get_refcount(x) > 3) //")
M('m5', C, F, "btensor &btensor::add_(btensor &&other, Scalar alpha)\n{\n	add_tensor_check(*this, other);", "btensor &btensor::add_(btensor &&other, Scalar alpha)\n{\n	")
M('m6', C, F, "	if (!(a.selection_rule == b.selection_rule))\n		throw bad_s", "	if (!(a.selection_rule == a.selection_rule))\n		throw bad_s")
M('m7', C, F, "	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))\n		throw", "	if (a.sections_sizes != b.sections_sizes and a.sections_by_dim != b.sections_by_dim)\n		throw")
M('m8', C, H, "btensor &operator-=(btensor &&other) { return add_(std::move(other), -1); }", "btensor &operator-=(btensor &&other) { return add_(std::move(other)); }")
M('m9', C, H, "btensor &sub_(btensor &&other, Scalar alpha = 1) { return add_(std::move(other), -alpha); }", "btensor &sub_(btensor &&other, Scalar alpha = 1) { return add_(std::move(other), -1); }")
M('m10', C, H, "inline btensor operator-(const btensor &A, const btensor &B) { return A.sub(B); }", "inline btensor operator-(const btensor &A, const btensor &B) { return B.sub(A); }")
M('m11', C, H, "btensor sub(Scalar other, Scalar alpha = 1) const { return add(other, -alpha); }", "btensor sub(Scalar other, Scalar alpha = 1) const { return add(-alpha, alpha); }")
M('m12', C, F, "[&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },\n	    // no collision\n", "[&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b.mul_(alpha)); },\n	    // no collision\n")
M('m13', C, F, "	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },\n	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });", "	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a = a.mul(alpha).add_(b); },\n	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });")
M('m14', C, F, "		return o * b.to<act_type>();", "		return o + b.to<act_type>();")
M('m15', C, F, " or\n	    !(a.sections_by_dim == b.sections_by_dim))\n		return false;", ")\n		return false;")
M('m16', C, F, "	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes", "	if (!(a.c_vals == b.c_vals) or !(a.sections_sizes")
M('m17', C, F, "	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);", "	return full_like(*this, other).add_(*this, alpha);")
M('m19', C, F, "	if (out.begin() != out.end())\n		out._options = std::get<1>(*out.begin()).options();\n	return out;\n}\n/*!\n * Without", "	return out;\n}\n/*!\n * Without")
R('r1', C, F, "	for (auto &a : out)\n	{\n		std::get<1>(a) = std::get<1>(a).clone();\n	}\n	out.blocks_list.merge(\n	    other.blocks_list,\n	    // coll", "	for (auto it = out.blocks_list.begin(); it != out.blocks_list.end(); ++it)\n		it->second = it->second.clone();\n	out.blocks_list.merge(\n	    other.blocks_list,\n	    // coll")
R('r2', C, F, "	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },\n	    // no collision, multiply", "	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a = torch::add(a, b, alpha); },\n	    // no collision, multiply")
R('r3', C, F, "	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes) or\n	    !(a.sections_by_dim == b.sections_by_dim))\n		return false;\n	return true;", "	return a.sections_by_dim == b.sections_by_dim and a.sections_sizes == b.sections_sizes and a.selection_rule == b.selection_rule and b.c_vals == a.c_vals;")
R('r4', C, F, "btensor &btensor::add_(const btensor &other, Scalar alpha)\n{", "void merge_scaled(btensor::block_list_t &l, const btensor::block_list_t &r, btensor::Scalar f)\n{\n	l.merge(r, [f](torch::Tensor &p, const torch::Tensor &q) { p.add_(q, f); }, [f](torch::Tensor &n) { n = n.mul(f); });\n}\nbtensor &btensor::add_(const btensor &other, Scalar alpha)\n{",
  "	this->blocks_list.merge(\n	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },\n	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });", "	merge_scaled(blocks_list, other.blocks_list, alpha);")
R('r5', C, H, "inline btensor operator-(const btensor &A, const btensor &B) { return A.sub(B); }", "inline btensor operator-(const btensor &A, const btensor &B) { return A.add(B, -1); }")
R('r6', C, F, "	return add_(full_like(*this, Scalar_mul(other, alpha)));", "	const auto filled = full_like(*this, Scalar_mul(alpha, other));\n	return add_(filled);")
R('r7', C, F, "		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm\n		    {\n			    x = x.mul(alpha);\n		    }\n		    else\n		    {\n			    x.mul_(alpha); //", "		    const size_t owners = get_refcount(x);\n		    if (owners <= 2)\n			    x *= alpha;\n		    else\n		    {\n			    x = x * alpha; //")
R('r8', C, F, "	if (!(a.c_vals == b.c_vals))\n		throw non", "	const bool same_q = a.c_vals == b.c_vals;\n	if (not same_q)\n		throw non")
R('r9', C, F, "	for (auto &a : out)\n	{\n		std::get<1>(a) = std::get<1>(a).clone();\n	}\n	out.blocks_list.merge(\n	    other.blocks_list,\n	    // coll", "	std::for_each(out.begin(), out.end(), [](auto &kv) { kv.second = kv.second.clone(); });\n	out.blocks_list.merge(\n	    other.blocks_list,\n	    // coll")
