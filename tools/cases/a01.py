Q = 'include/Conserved/quantity.h'
I = 'include/Conserved/Composite/quantity_impl.h'
A = 'include/Conserved/Composite/cquantity.h'
opC = "		const int sum = val + cond * other.val; // can exceed the range of uint16_t when N > 2^15\n		val = sum - (sum >= N) * N;\n		return *this;"
CT = ": val(((_val % N) < 0) * N + (_val % N))"
R('r1', 'A01', Q, opC, "		if (cond)\n		{\n			const int sum = int(val) + int(other.val);\n			val = sum >= N ? sum - N : sum;\n		}\n		return *this;")
R('r2', 'A01', Q, opC, "		if (not cond)\n			return *this;\n		int sum = val;\n		sum += other.val;\n		if (sum >= N)\n			sum -= N;\n		val = static_cast<uint16_t>(sum);\n		return *this;")
R('r3', 'A01', Q, opC, "		const uint32_t sum = static_cast<uint32_t>(val) + (cond ? other.val : 0);\n		val = sum % N;\n		return *this;")
R('r4', 'A01', Q, opC, "		const int room = N - val;\n		const int step = cond * other.val;\n		val = step < room ? val + step : step - room;\n		return *this;")
R('r5', 'A01', Q, "		val = bool(val) * (N - val);", "		val = val == 0 ? 0 : N - val;")
R('r6', 'A01', Q, "		val = bool(val) * (N - val);", "		if (val != 0)\n			val = N - val;")
R('r7', 'A01', Q, "		val = bool(val) * (N - val);", "		val = (N - val) % N;")
R('r8', 'A01', Q, CT, ": val((_val % N + N) % N)")
R('r9', 'A01', Q, CT, ": val(_val % N < 0 ? _val % N + N : _val % N)")
R('r10', 'A01', Q, CT + "\n	{", ": val(0)\n	{\n		int r = _val % N;\n		if (r < 0)\n			r += N;\n		val = r;")
R('r11', 'A01', Q, "	constexpr C &op(C other) noexcept { return op(other, true); }", "	constexpr C &op(C other) noexcept\n	{\n		*this = sum_of(*this, other);\n		return *this;\n	}\n	static constexpr C sum_of(C a, C b) noexcept\n	{\n		a.op(b, true);\n		return a;\n	}")
R('r12', 'A01', Q, "		C out(*this);\n		return out.inverse_();", "		C out;\n		out.val = val ? N - val : 0;\n		return out;")
R('r13', 'A01', Q, "		val += cond * other.val;\n		return *this;", "		if (cond)\n			val += other.val;\n		return *this;")
R('r14', 'A01', Q, "		val = -val;\n", "		val = 0 - val;\n")
R('r15', 'A01', Q, "		using std::swap;\n		swap(other.val, val);\n	}\n	constexpr operator uint16_t", "		const uint16_t tmp = other.val;\n		other.val = val;\n		val = tmp;\n	}\n	constexpr operator uint16_t", )
R('r16', 'A01', Q, "	auto x = static_cast<int64_t>(a.get_val()) - b.get_val();\n	return x * x;", "	const int64_t x = a.get_val();\n	const int64_t y = b.get_val();\n	return (y - x) * (y - x);")
R('r17', 'A01', Q, "	constexpr bool operator!=(C other) const noexcept { return val != other.val; }", "	constexpr bool operator!=(C other) const noexcept { return !(*this == other); }")
R('r18', 'A01', Q, "	constexpr bool operator>(C other) const noexcept { return val > other.val; }", "	constexpr bool operator>(C other) const noexcept { return other < *this; }")
R('r19', 'A01', Q, opC, "		const int sum = val + cond * other.val;\n		val = reduced(sum);\n		return *this;\n	}\n	static constexpr uint16_t reduced(int sum) noexcept\n	{\n		return sum >= N ? static_cast<uint16_t>(sum - N) : static_cast<uint16_t>(sum);")
M('m1', 'A01', Q, "sum - (sum >= N) * N", "sum - (sum > N) * N")
M('m2', 'A01', Q, opC, "		const uint16_t sum = val + cond * other.val;\n		val = sum - (sum >= N) * N;\n		return *this;")
M('m3', 'A01', Q, "bool(val) * (N - val)", "N - val")
M('m4', 'A01', Q, CT, ": val(((_val % N) <= 0) * N + (_val % N))")
M('m5', 'A01', Q, CT, ": val((_val < 0) * N + (_val % N))")
M('m6', 'A01', Q, "	auto x = static_cast<int64_t>(a.get_val()) - b.get_val();", "	int16_t x = a.get_val() - b.get_val();")
M('m7', 'A01', Q, "		val += cond * other.val;\n", "		val += other.val;\n")
M('m8', 'A01', Q, "	constexpr C &op(C other) noexcept { return op(other, true); }", "	constexpr C &op(C other) noexcept { return op(other, other.val < N - 1); }")

# composite and erased
opI = "	for_each2(val, other.val, [](auto &&vl, auto &&ovl) { vl.op(ovl); });\n	return *this;"
R('r30', 'A02 A03', I, opI, "	for_each2(val, other.val, [](auto &vl, const auto &ovl) { vl = conserved::op(vl, ovl); });\n	return *this;")
R('r31', 'A02 A03', I, opI, "	return op(other, true);")
R('r32', 'A02 A03', I, "	return op(dynamic_cast<const quantity &>(other), cond);", "	const auto &same = dynamic_cast<const quantity<T...> &>(other);\n	op(same, cond);\n	return *this;")
R('r33', 'A02 A03', I, "	return op(dynamic_cast<const quantity &>(other), cond);", "	auto *same = dynamic_cast<const quantity<T...> *>(&other);\n	if (same == nullptr)\n		throw std::bad_cast();\n	return op(*same, cond);")
R('r34', 'A02 A03', I, "	return dynamic_cast<const quantity<Qts...> *>(&other);", "	return dynamic_cast<const quantity<Qts...> *>(&other) != nullptr;")
R('r35', 'A02 A03', I, "	return val != other.val;", "	return not(val == other.val);")
R('r36', 'A02 A03', I, "	return val > other.val;", "	return other < *this;")
R('r37', 'A02 A03', I, "	return std::make_unique<quantity<T...>>(*this);", "	auto out = std::make_unique<quantity<T...>>();\n	*out = *this;\n	return out;")
R('r38', 'A02 A03', I, "	using std::swap;\n	swap(val, other.val);", "	auto tmp = val;\n	val = other.val;\n	other.val = tmp;")
R('r39', 'A02 A03', I, "	op_to(other);\n	return other;", "	return quantity<Qts...>(*this).op(other);")
R('r40', 'A02 A03', I, "	return quantity<Qts...>(*this).op(other);", "	quantity<Qts...> out(*this);\n	out.op(other);\n	return out;")
R('r41', 'A02 A03', A, "	any_quantity copy(other); // not an assignment to *impl: the underlying types are allowed to differ\n	swap(copy);\n	return *this;", "	impl = other.get().clone();\n	return *this;")
R('r42', 'A02 A03', A, "inline any_quantity operator*(any_quantity_cref lhs, any_quantity_cref rhs) { return any_quantity(lhs) *= rhs; }", "inline any_quantity operator*(any_quantity_cref lhs, any_quantity_cref rhs)\n{\n	any_quantity out(lhs);\n	out *= rhs;\n	return out;\n}")
R('r43', 'A02 A03', A, "	lhs.op_to(rhs);\n	return std::move(rhs);\n}\ninline any_quantity operator+(any_quantity_cref lhs, any_quantity &&rhs)\n{\n	lhs.op_to(rhs);\n	return std::move(rhs);", "	lhs.op_to(rhs);\n	return std::move(rhs);\n}\ninline any_quantity operator+(any_quantity_cref lhs, any_quantity &&rhs)\n{\n	return lhs * std::move(rhs);")
R('r44', 'A02 A03', A, "	impl->op(other, cond);\n	return *this;", "	if (cond)\n		impl->op(other);\n	return *this;")
R('r45', 'A02 A03', A, "inline any_quantity any_quantity::inverse() const & { return any_quantity(*this).inverse_(); }", "inline any_quantity any_quantity::inverse() const &\n{\n	auto out = impl->clone();\n	out->inverse_();\n	return any_quantity(std::move(out));\n}")
R('r46', 'A02 A03', A, "	swap(other);\n	return *this;", "	impl = std::move(other.impl);\n	return *this;")
R('r47', 'A02 A03', I, "	for_each2(val, other.val, [](auto &&vl, auto &&ovl) { ovl = conserved::op(vl, ovl); });", "	for_each2(val, other.val, [](const auto &vl, auto &ovl) {\n		auto x = vl;\n		x.op(ovl);\n		ovl = x;\n	});")
M('m30', 'A02', I, "{ ovl = conserved::op(vl, ovl); }", "{ ovl.op(vl, vl != ovl); }")
M('m31', 'A02', I, "	return val > other.val;", "	return not(val < other.val);")
M('m33', 'A02', A, "	impl->op(other, cond);\n	return *this;", "	impl->op(other);\n	return *this;")
M('m34', 'A02', A, "	inverse_();\n	return std::move(*this);", "	inverse_();\n	return any_quantity(neutral());")
M('m35', 'A03', I, "	return op(dynamic_cast<const quantity &>(other), cond);", "	if (not cond)\n		return *this;\n	return op(dynamic_cast<const quantity &>(other), cond);")
M('m36', 'A03', I, "	swap(dynamic_cast<quantity<T...> &>(other));", "	swap(static_cast<quantity<T...> &>(other));")
M('m37', 'A02', A, "	impl = other.clone(); // allocate", "	if (impl->same_type(other))\n		*impl = other;\n	else\n		impl = other.neutral().get().clone(); // allocate")
M('m9', 'A01', Q, "	auto x = static_cast<int64_t>(a.get_val()) - b.get_val();", "	const int x = a.get_val() - b.get_val();")
