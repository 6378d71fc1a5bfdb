F = 'sources/btensor.cpp'
C = 'A07'
M('m1', C, F, "out &= *mask_it or (*a_it == *b_it);", "out = *mask_it or (*a_it == *b_it);")
M('m2', C, F, "*out_it = std::max(*large_it, *small_it);", "*out_it = *large_it;")
M('m3', C, F, "while (i <= smaller_rank)", "while (i < smaller_rank)")
M('m4', C, F, "out ^= ((x >> !this_is_large) & 1) &&", "out ^= ((x >> this_is_large) & 1) &&")
M('m5', C, F, "new_sections_by_dim[larger_rank - n] = std::max(*smaller_sec, *larger_sec);", "new_sections_by_dim[larger_rank - n] = *smaller_sec;")
M('m6', C, F, "if (not(*it & 2)) // this", "if (not(*it & 1)) // this")
M('m7', C, F, "short_cval_end -= (short_cval_end != short_cval_start);", "short_cval_end -= 0;")
M('m8', C, F, "broadcast_operation(other, [](const torch::Tensor &A, const torch::Tensor &B) { return A.div(B); });", "broadcast_operation(other, [](const torch::Tensor &A, const torch::Tensor &B) { return B.div(A); });")
M('m9', C, F, "2 * ((*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1)));", "2 * (larger_tensor.section_size(larger_rank - n, 0) == 1));")
M('m10', C, F, "larger_tensor.selection_rule->get() * smaller_tensor.selection_rule->get();", "larger_tensor.selection_rule->get();")
M('m11', C, F, "rank = larger_rank;\n	selection_rule.value = std::move(out_selr);", "rank = larger_rank;")
M('m12', C, F, "auto &large_index = this_is_large ?", "auto &large_index = not this_is_large ?")
M('m13', C, F, "		dtype = promote_types(options().dtype(), other.options().dtype());", "		dtype = promote_types(options().dtype(), options().dtype());")
M('m14', C, F, "auto rank_diff = larger_rank - smaller_rank - 1;", "auto rank_diff = larger_rank - smaller_rank;")
M('m15', C, F, "*new_cvals_it = (*cval_end) * (*short_cval_end);", "*new_cvals_it = (*cval_end);")
R('r1', C, F, """		bool out = true;
		auto a_it = a.end();
		auto b_it = b.end();
		size_t i = 1;
		auto mask_it = comp_mask.end();
		while (i <= smaller_rank)
		{
			{
				--a_it;
				--b_it;
				--mask_it;
				out &= *mask_it or (*a_it == *b_it);
				++i;
			}
		}
		return out;
""", """		auto a_it = a.end();
		auto b_it = b.end();
		auto mask_it = comp_mask.end();
		for (size_t i = 0; i < smaller_rank; ++i)
		{
			--a_it;
			--b_it;
			--mask_it;
			if (!*mask_it && *a_it != *b_it)
				return false;
		}
		return true;
""")
R('r2', C, F, """		auto out = large;
		auto out_it = out.end();
		auto large_it = large.end();
		auto small_it = small.end();
		while (small_it != small.begin())
		{
			--out_it;
			--large_it;
			--small_it;
			*out_it = std::max(*large_it, *small_it);
		};
		return out;
""", """		btensor::index_list out(large);
		const auto shift = large.size() - small.size();
		for (size_t i = 0; i < small.size(); ++i)
		{
			if (small[i] > out[i + shift])
				out[i + shift] = small[i];
		}
		return out;
""")
R('r3', C, F, """	for (auto other_it = other.blocks_list.begin(); other_it != other.blocks_list.end(); ++other_it)
	{
		for (auto this_it = blocks_list.begin(); this_it != blocks_list.end(); ++this_it)
		{
			auto &large_index = this_is_large ? std::get<0>(*this_it) : std::get<0>(*other_it);
			auto &small_index =
			    this_is_large ? std::get<0>(*other_it)
			                  : std::get<0>(*this_it); // out_index care about ordering by size of the input index.
			auto &this_tensor = std::get<1>(*this_it);
			auto &other_tensor = std::get<1>(*other_it);
			if (mul_helpers::match_index(smaller_rank, comp_mask, large_index, small_index))
				out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, large_index, small_index),
				                   f(this_tensor, other_tensor));
		}
	}
""", """	for (const auto &[this_index, this_tensor] : blocks_list)
	{
		for (const auto &[other_index, other_tensor] : other.blocks_list)
		{
			const auto &large_index = this_is_large ? this_index : other_index;
			const auto &small_index = this_is_large ? other_index : this_index;
			if (not mul_helpers::match_index(smaller_rank, comp_mask, small_index, large_index))
				continue;
			auto key = mul_helpers::out_index(smaller_rank, large_index, small_index);
			auto val = f(this_tensor, other_tensor);
			out_blocks.emplace(out_blocks.end(), std::move(key), std::move(val));
		}
	}
""")
R('r4', C, F, """				*it = (((*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1)) +
				       2 * ((*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1)));
""", """				const bool small_single = (*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1);
				const bool large_single = (*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1);
				*it = (small_single ? 1 : 0) | (large_single ? 2 : 0);
""")
R('r5', C, F, """	if (rank < other.rank)
		throw std::invalid_argument(
		    fmt::format("the rank ({}) of the output of an in-place operation is smaller than the rank ({}) of its operand",
		                rank, other.rank));

	const auto &smaller_rank = std::min(rank, other.rank);
	const auto &larger_rank = std::max(rank, other.rank);
	const btensor &larger_tensor = rank == larger_rank ? *this : other;
	const btensor &smaller_tensor = other.rank == smaller_rank ? other : *this;
	bool this_is_large = rank == larger_rank;
""", """	const bool fits = other.rank <= rank;
	if (not fits)
		throw std::invalid_argument(
		    fmt::format("the rank ({}) of the output of an in-place operation is smaller than the rank ({}) of its operand",
		                rank, other.rank));

	const size_t smaller_rank = other.rank;
	const size_t larger_rank = rank;
	const btensor &larger_tensor = *this;
	const btensor &smaller_tensor = other;
	const bool this_is_large = true;
""")
R('r6', C, F, """				while (N > 0)
				{
					--new_cvals_it;
					--cval_end;
					--N;
					*new_cvals_it = (*cval_end) * (*short_cval_end);
					short_cval_end -= (short_cval_end != short_cval_start);
				};
""", """				for (long k = 0; k < N; ++k)
				{
					--cval_end;
					--new_cvals_it;
					*new_cvals_it = (*short_cval_end) * (*cval_end);
					if (short_cval_end != short_cval_start)
						--short_cval_end;
				}
""")
