F = 'sources/btensor.cpp'
H = 'include/blockTensor/btensor.h'
C = 'A11'
CL = """	auto out = *this;
	for (auto &a : out)
	{
		std::get<1>(a) = std::get<1>(a).clone();
	}
	out.blocks_list.merge(
	    other.blocks_list,
	    // collision : do an addition in place
	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
	    // no collision, multiply with the constant and make an independent copy
	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
"""
R('x1', C, F, CL, """	auto out = *this;
	for (auto &[index, tens] : out.blocks_list)
		tens = tens.clone();
	const auto collide = [&alpha](torch::Tensor &a, const torch::Tensor &b) { a = a.add(b, alpha); };
	const auto fresh = [&alpha](torch::Tensor &x) { x = alpha * x; };
	out.blocks_list.merge(other.blocks_list, collide, fresh);
""")
R('x2', C, F, CL, """	auto out = *this;
	std::transform(out.blocks_list.begin(), out.blocks_list.end(), out.blocks_list.begin(),
	               [](auto block) { std::get<1>(block) = std::get<1>(block).clone(); return block; });
	out.blocks_list.merge(
	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
""")
R('x3', C, F, CL, """	btensor out(*this);
	for (auto &a : out)
		std::get<1>(a) = std::get<1>(a).clone();
	out.add_(other, alpha);
""")
R('x4', C, F, CL, """	btensor out = *this;
	for (auto it = out.begin(); it != out.end(); ++it)
		it->second = it->second.clone();
	out.blocks_list.merge(
	    other.blocks_list,
	    [alpha](torch::Tensor &a, const torch::Tensor &b) { a += b.mul(alpha); },
	    [alpha](torch::Tensor &x) { x = x.mul(alpha); });
""")
R('x5', C, F, CL, """	auto out = *this;
	for (size_t i = 0; i < out.blocks_list.size(); ++i)
	{
		auto &block = *(out.blocks_list.begin() + i);
		block.second = block.second.clone();
	}
	out.blocks_list.merge(
	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
""")
R('x6', C, F, CL, """	auto out = *this;
	auto copies = blocks_list;
	for (auto &a : copies)
	{
		a.second = a.second.clone();
	}
	out.blocks_list = std::move(copies);
	out.blocks_list.merge(
	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
""")
R('x7', C, F, CL + "	if (out.begin() != out.end())\n		out._options = std::get<1>(*out.begin()).options();\n	return out;\n}\n/*!", CL + "	if (not out.blocks_list.empty())\n		out._options = out.blocks_list.begin()->second.options();\n	return out;\n}\n/*!")
R('x8', C, F, "	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))\n		throw", "	if (not(a.sections_by_dim == b.sections_by_dim and a.sections_sizes == b.sections_sizes))\n		throw")
R('x9', C, F, "	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))\n		throw", "	if (a.sections_sizes != b.sections_sizes || a.sections_by_dim != b.sections_by_dim)\n		throw")
R('x10', C, F, "	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))\n		throw", "	const bool counts = std::equal(a.sections_by_dim.begin(), a.sections_by_dim.end(), b.sections_by_dim.begin(), b.sections_by_dim.end());\n	const bool sizes = std::equal(a.sections_sizes.begin(), a.sections_sizes.end(), b.sections_sizes.begin(), b.sections_sizes.end());\n	if (not counts or not sizes)\n		throw")
R('x11', C, F, "void btensor::add_tensor_check(const btensor &a, const btensor &b)\n{\n	if (!(a.c_vals == b.c_vals))", "void btensor::add_tensor_check(const btensor &a, const btensor &b)\n{\n	if (test_same_shape(a, b))\n		return;\n	if (!(a.c_vals == b.c_vals))")
R('x12', C, F, "	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);", "	auto out = full_like(*this, Scalar_mul(other, alpha));\n	out.add_(*this);\n	return out;")
R('x13', C, F, "	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);", "	const auto amount = Scalar_mul(other, alpha);\n	return full_like(*this, amount).add(*this);")
R('x14', C, H, "	btensor sub(const btensor &other, Scalar alpha = 1) const { return add(other, -alpha); }", "	btensor sub(const btensor &other, Scalar alpha = 1) const\n	{\n		const Scalar opposite = -alpha;\n		return add(other, opposite);\n	}")
R('x15', C, F, "	auto b_blocks = std::move(other.blocks_list);\n	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });\n	this->blocks_list.merge(\n	    b_blocks,", "	block_list_t b_blocks;\n	b_blocks.swap(other.blocks_list);\n	this->blocks_list.merge(\n	    b_blocks,")
R('x16', C, F, """	    [&alpha](torch::Tensor &x)
	    {
		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
		    {
			    x = x.mul(alpha);
		    }
		    else
		    {
			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
		    }
	    });
	return *this;""", """	    [&alpha](torch::Tensor &x)
	    {
		    const bool shared = get_refcount(x) > 2;
		    x = shared ? x.mul(alpha) : x.mul_(alpha);
	    });
	return *this;""")
R('x17', C, F, """	    [&alpha](torch::Tensor &x)
	    {
		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
		    {
			    x = x.mul(alpha);
		    }
		    else
		    {
			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
		    }
	    });
	return *this;""", """	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
	return *this;""")
M('y1', C, F, CL, CL.replace("{ a.add_(b, alpha); }", "{ if (a.numel() > 0 and b.numel() < 64) a.add_(b, alpha); else a.add_(b); }"))
M('y2', C, F, CL, CL.replace("{ x = x.mul(alpha); }", "{ if (x.dim() > 0) x = x.mul(alpha); }"))
M('y3', C, F, CL, CL.replace("		std::get<1>(a) = std::get<1>(a).clone();", "		if (not std::get<1>(a).requires_grad()) std::get<1>(a) = std::get<1>(a).clone();"))
M('y4', C, F, CL + "	if (out.begin() != out.end())", CL + "	if (blocks_list.begin() != blocks_list.end())")
M('y5', C, F, "	if (!(a.selection_rule == b.selection_rule))\n		throw", "	if (!(a.selection_rule == b.selection_rule) and a.blocks_list.size() != 0)\n		throw")
M('y6', C, H, "	btensor &sub_(btensor &&other, Scalar alpha = 1) { return add_(std::move(other), -alpha); }", "	btensor &sub_(btensor &&other, Scalar alpha = 1) { return add_(std::move(other), -alpha.toDouble()); }")
M('y7', C, F, "	return add_(full_like(*this, Scalar_mul(other, alpha)));", "	if (blocks_list.size() == 0) return *this;\n	return add_(full_like(*this, Scalar_mul(other, alpha)));")
M('y8', C, F, "btensor &btensor::add_(btensor &&other, Scalar alpha)\n{\n	add_tensor_check(*this, other);", "btensor &btensor::add_(btensor &&other, Scalar alpha)\n{\n	if (other.blocks_list.size()) add_tensor_check(*this, other);")
