F = 'include/blockTensor/flat_map.h'
at = "		auto it = std::lower_bound(content.begin(), content.end(), key, comp);\n		if (it == content.end() or comp(key, *it))\n			// we should enter here only if *it != key or it is at the end\n			throw std::out_of_range(\"key absent from flat_map.\");\n		return it->second;"
R('r1', 'A04', F, at, "		auto it = find(key);\n		if (it == end())\n			throw std::out_of_range(\"key absent from flat_map.\");\n		return it->second;")
R('r2', 'A04', F, at, "		auto it = std::lower_bound(content.begin(), content.end(), key, comp);\n		if (it != content.end() and not comp(key, *it))\n			return it->second;\n		throw std::out_of_range(\"key absent from flat_map.\");")
R('r3', 'A04', F, at, "		auto it = std::lower_bound(begin(), end(), key, comp);\n		const bool absent = it == end() or it->first != key;\n		if (absent)\n			throw std::out_of_range(\"key absent from flat_map.\");\n		return it->second;")
R('r4', 'A04', F, "		if (it == content.end() or comp(key, *it))\n			it = content.insert(it, std::make_pair(key, mapped_type()));\n		return it->second;", "		if (it != content.end() and not comp(key, *it))\n			return it->second;\n		it = content.insert(it, value_type(key, mapped_type()));\n		return it->second;")
ins = "		bool success = false; // true if the value was actually inserted.\n		auto it = std::lower_bound(begin(), end(), value.first, comp);\n		if (it ==end() or it->first != value.first)\n		{\n			it = iterator(content.insert(it.base_reference(), value));\n			success = true;\n		}\n		return std::make_pair(it, success);"
R('r5', 'A04', F, ins, "		auto it = std::lower_bound(begin(), end(), value.first, comp);\n		const bool success = it == end() or comp(value.first, *it);\n		if (success)\n			it = iterator(content.insert(it.base_reference(), value));\n		return std::make_pair(it, success);")
R('r6', 'A04', F, ins, "		auto it = std::lower_bound(content.begin(), content.end(), value, comp);\n		if (it != content.end() and it->first == value.first)\n			return std::make_pair(iterator(it), false);\n		return std::make_pair(iterator(content.insert(it, value)), true);")
R('r7', 'A04', F, ins, "		return insert(value_type(value));")
R('r8', 'A04', F, "		auto it = std::lower_bound(begin(), end(), k, comp);\n		if (it == end() or comp(k, *it))\n		{\n			return 0;\n		}\n		content.erase(it);\n		return 1;", "		auto it = find(k);\n		if (it == end())\n			return 0;\n		erase(it);\n		return 1;")
R('r9', 'A04', F, "		if (it == content.end() or comp(k, *it))\n			// we should enter here only if *it != key or it is at the end\n			return end();\n		return iterator(it);", "		const bool found = it != content.end() and not comp(k, *it);\n		return found ? iterator(it) : end();")
R('r10', 'A04', F, "	size_type count(const key_type &k) const { return find(k) != end(); }\n	bool contains(const key_type &k) const { return count(k); }", "	size_type count(const key_type &k) const { return contains(k) ? 1 : 0; }\n	bool contains(const key_type &k) const { return find(k) != end(); }")
R('r11', 'A04', F, "		return std::make_pair(it, it == end() ? end() : it + 1);", "		auto last = it;\n		if (last != end())\n			++last;\n		return std::make_pair(it, last);")
R('r12', 'A04', F, "		return erase(it,it); //convert the const_iterator in an iterator", "		return begin() + (it - cbegin());")
R('r13', 'A04', F, "		bool is_end = hint == cend();\n		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.", "		if (hint == cend())\n			hint = hint - 1;")
R('r14', 'A04', F, "		const_iterator first = comp(*hint, key) ? hint : cbegin();\n		const_iterator last = comp(key, *hint) ? hint + 1 : cend();\n		return std::make_pair(first, last);", "		if (comp(*hint, key))\n			return std::make_pair(hint, cend());\n		if (comp(key, *hint))\n			return std::make_pair(cbegin(), hint + 1);\n		return std::make_pair(cbegin(), cend());")
R('r15', 'A04', F, "	flat_map(content_t &&in) : comp(), content(std::move(in))\n	{\n		sort(content.begin(), content.end());\n		auto l = filter_unique(content.begin(), content.end());\n		content.resize(std::distance(content.begin(), l));", "	flat_map(content_t &&in) : comp(), content(std::move(in))\n	{\n		sort();\n		content.erase(filter_unique(content.begin(), content.end()), content.end());")
R('r16', 'A04', F, "		auto it = find(k);\n		return std::make_pair(it, it == end() ? end() : it + 1);", "		auto first = find(k);\n		auto last = first + count(k);\n		return std::make_pair(first, last);")
R('r17', 'A04', F, at, "		return const_cast<mapped_type &>(const_cast<const flat_map *>(this)->at(key));", "	const mapped_type &at(const key_type &key) const { return const_cast<flat_map *>(this)->at(key); }", "	const mapped_type &at(const key_type &key) const\n	{\n		auto it = find(key);\n		if (it == end())\n			throw std::out_of_range(\"key absent from flat_map.\");\n		return it->second;\n	}")
M('m1', 'A04', F, "		if (it == end() or comp(k, *it))\n		{\n			return 0;", "		if (comp(k, *it))\n		{\n			return 0;")
M('m2', 'A04', F, "const_iterator last = comp(key, *hint) ? hint + 1 : cend();", "const_iterator last = comp(key, *hint) ? hint : cend() - 1;")
M('m3', 'A04', F, "const_iterator first = comp(*hint, key) ? hint : cbegin();", "const_iterator first = comp(*hint, key) ? hint + 2 : cbegin();")
M('m4', 'A04', F, "		if ( it == end() or it->first != value.first)", "		if ( it == end() or comp(*it, value))")
M('m5', 'A04', F, "		if (size() == 0) return std::make_pair(cbegin(),cend()); //empty case.\n", "")
M('m6', 'A04', F, "std::make_pair(it, it == end() ? end() : it + 1)", "std::make_pair(it, it + 1)")
M('m7', 'A04', F, "		hint = hint - 1*is_end;", "		hint = hint - 1;")

# merge
R('r30', 'A05', F, "				--n1; // correct it by counting all the collisions.", "				n1 = n1 - 1;", "			for (auto i = first; i != last; ++i)\n			{\n				look = std::lower_bound", "			auto i = first;\n			for (; i != last; ++i)\n			{\n				look = std::lower_bound")
R('r31', 'A05', F, "				std::for_each(move_to_end, old_move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });", "				for (auto x = move_to_end; x != old_move_to_end; ++x)\n					nocollision(x->second);")
R('r32', 'A05', F, "		while (look != begin() and last != first)\n		{\n			decltype", "		for (;;)\n		{\n			if (look == begin() or last == first)\n				break;\n			decltype")
R('r33', 'A05', F, "				if (found_collision)\n				{\n					--move_to_end;\n					--look;\n					if(move_to_end != look) *move_to_end = std::move( *(look));\n					collision(move_to_end->second,la->second);", "				if (found_collision)\n				{\n					--look;\n					--move_to_end;\n					if (look != move_to_end)\n					{\n						*move_to_end = std::move(*look);\n					}\n					auto &mine = move_to_end->second;\n					const auto &other = la->second;\n					collision(mine, other);")
R('r35', 'A05', F, "			found_collision = last != first and !comp(*(last - 1), *move_to_end);\n			if (found_collision)\n				collision(move_to_end->second,\n				          (last - 1)->second); // if we move collision treatment here, to allow parallelism\n			last -= found_collision;", "			if (last != first and not comp(*(last - 1), *move_to_end))\n			{\n				--last;\n				collision(move_to_end->second, last->second);\n			}")
R('r36', 'A05', F, "				auto move_shift = last - (la + found_collision);\n				move_to_end -= move_shift ;", "				move_to_end -= std::distance(la + found_collision, last);")
M('m31', 'A05', F, "std::for_each(move_to_end - lastmfirst, move_to_end,", "std::for_each(begin(), move_to_end,")
M('m32', 'A05', F, "				std::for_each(move_to_end, old_move_to_end, [noc", "				std::for_each(move_to_end, end(), [noc")
M('m33', 'A05', F, "			last -= found_collision;\n", "")
M('m34', 'A05', F, "					if(move_to_end != look) *move_to_end = std::move( *(look));\n", "")
M('m35', 'A05', F, "				          (last - 1)->second); // if", "				          last->second); // if")
