import sys,re
D=sys.argv[1]+'/src/utki/'
def ed(f,*rs):
    p=D+f; s=open(p).read()
    for a,b in rs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def cut(f,start,end,new):
    p=D+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i+len(start))
    s=s[:i]+new+s[j:]
    open(p,'w').write(s)
# signal: helper + iterator loop
cut('signal.hpp','		for (const auto& c : this->callbacks) {','	/**\n	 * @brief Get number','''		for (auto i = this->callbacks.cbegin(); i != this->callbacks.cend(); ++i) {
			call(*i, a...);
		}
	}

private:
	static void call(const callback_type& c, std::remove_reference_t<args_type>&... a)
	{
		c(static_cast<std::conditional_t<
			  std::is_copy_constructible_v<args_type>,
			  std::add_lvalue_reference_t<args_type>,
			  args_type&&>>(a)...);
	}

public:
''')
# where: plain loop
cut('linq.hpp','		std::copy_if(','		return linq_collection','''		for (auto&& v : this->collection) {
			const value_type& cv = v;
			if (func(cv)) {
				ret.insert(ret.end(), std::move(v));
			}
		}

''')
ed('linq.hpp',('			std::sort(this->collection.begin(), this->collection.end(), comparer);','			std::stable_sort(this->collection.begin(), this->collection.end(), comparer);'),
('''			std::vector<value_type> ret;
			std::copy(this->collection.begin(), this->collection.end(), std::back_inserter(ret));
''','''			std::vector<value_type> ret(this->collection.begin(), this->collection.end());
'''))
ed('linq.hpp',('			ret[func(v)].push_back(std::move(v));','			auto& group = ret[func(v)];\n			group.push_back(std::move(v));'))
# sort: heap sort
cut('sort.hpp','	while (utki::sort_internal::distance(first, last) > 1) {','} // namespace sort_internal','''	auto n = utki::sort_internal::distance(first, last);
	auto sift = [&](auto i, auto m) {
		for (;;) {
			auto c = 2 * i + 1;
			if (c >= m) {
				return;
			}
			if (c + 1 < m && cmp(first[c], first[c + 1])) {
				++c;
			}
			if (!cmp(first[i], first[c])) {
				return;
			}
			utki::sort_internal::iter_swap(first + i, first + c);
			i = c;
		}
	};
	for (auto i = n / 2; i > 0; --i) {
		sift(i - 1, n);
	}
	for (auto m = n - 1; m > 0; --m) {
		utki::sort_internal::iter_swap(first, first + m);
		sift(decltype(n)(0), m);
	}
}

''')
# strings
cut('string.cpp','	std::vector<char> buf;\n\n	const auto add_str','std::vector<std::string> utki::word_wrap','''	for (size_t i = 0; i < str.size();) {
		if (std::isspace(str[i])) {
			++i;
			continue;
		}
		size_t begin = i;
		while (i < str.size() && !std::isspace(str[i])) {
			++i;
		}
		ret.emplace_back(str.substr(begin, i - begin));
	}

	return ret;
}

''')
cut('string.cpp','	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-member-init)\n	std::array<char, kilobyte> buf;','std::string utki::make_string(','''	va_list measure_args;
	va_copy(measure_args, args);
	const int size = vsnprintf(nullptr, 0, format, measure_args);
	va_end(measure_args);
	if (size < 0) {
		throw std::logic_error("snprintf() failed");
	}
	std::string ret(size_t(size), char(0));
	va_list cur_args;
	va_copy(cur_args, args);
	const int size2 = vsnprintf(ret.data(), ret.size() + 1, format, cur_args);
	va_end(cur_args);
	if (size2 < 0) {
		throw std::logic_error("snprintf() failed");
	}
	return ret;
}

''')
cut('string.cpp','	size_t pos = 0;\n	for (char c : this->view) {\n		if (!string_parser','	this->view = this->view.substr(pos);','''	size_t pos = 0;
	while (pos != this->view.size() && string_parser::is_space(this->view[pos])) {
		++pos;
	}
''')
cut('string.cpp','	for (; !this->view.empty(); this->view = this->view.substr(1)) {\n		if (this->view.front() == c)','char string_parser::skip_inclusive_until_one_of','''	auto pos = this->view.find(c);
	this->view.remove_prefix(pos == std::string_view::npos ? this->view.size() : pos + 1);
}

''')
cut('string.cpp','	for (auto i = this->view.begin(); i != this->view.end(); i = std::next(i)) {\n		if (*i == until_char)','std::string utki::make_indentation','''	auto ret = this->view.substr(0, this->view.find(until_char));
	this->view.remove_prefix(ret.size());
	return ret;
}

''')
# time
cut('time.cpp','	return uint32_t( //','\n}','''	using namespace std::chrono;
	const auto now = steady_clock::now().time_since_epoch();
	return uint32_t(uint64_t(now / milliseconds(1)));''')
# debug
cut('debug.cpp','	std::stringstream ss;\n	// default','#if CFG_OS_NAME == CFG_OS_NAME_ANDROID','''	std::ostringstream ss;
	print_header(ss, source_location);
	if (print) {
		ss << ":\\n  ";
		print(ss);
	}

''')
ed('debug.cpp',('''"error";
} // namespace''','''"error";

void print_header(std::ostream& ss, const utki::source_location& source_location)
{
	const char* const file_name = source_location.file_name();
	if (file_name) {
		ss << file_name;
	} else {
		ss << "unknown";
	}
	ss << ':' << source_location.line() << ": ";
	ss << (is_terminal_cerr() ? colored_error_string : uncolored_error_string) << ": assertion failed";
}
} // namespace'''),('	std::cerr << ss.str() << std::endl;\n	std::cerr.flush();','	ss << std::endl;\n	const auto text = ss.str();\n	std::cerr.write(text.data(), std::streamsize(text.size()));\n	std::cerr.flush();'))
# exception: std::string
cut('exception.cpp','	std::stringstream ss;\n	ss.exceptions(std::ios_base::badbit); // do not swallow bad_alloc\n	ss << indentation << demangle(typeid(e))','	// rethrow_if_nested','	std::string ss(indentation);\n	ss += demangle(typeid(e));\n	ss += ": ";\n	ss += e.what();\n\n')
p=D+'exception.cpp'; s=open(p).read(); i=s.index('std::string ss(indentation)'); t=s[i:].replace('return ss.str();','return ss;').replace('ss << "\\n" << ','ss += "\\n" + '); open(p,'w').write(s[:i]+t)
# tree: index, loops
ed('tree.hpp',('''			for (; this->iter_stack.size() != 1;) {
				if (this->iter_stack.back() == this->list_stack.back()->end()) {
					this->list_stack.pop_back();
					this->iter_stack.pop_back();
					++this->iter_stack.back();
				} else {
					break;
				}
			}
''','''			while (this->iter_stack.size() > 1 && this->iter_stack.back() == this->list_stack.back()->end()) {
				this->iter_stack.pop_back();
				this->list_stack.pop_back();
				++this->iter_stack.back();
			}
'''))
ed('tree.hpp',('				ret.push_back(std::distance(this->list_stack[i]->begin(), this->iter_stack[i]));','				const auto& list = *this->list_stack[i];\n				typename std::remove_const_t<list_type>::const_iterator it = this->iter_stack[i];\n				ret.emplace_back(size_type(std::distance(list.begin(), it)));'))
# singleton
ed('singleton.hpp',('		return *instance_owner_type::instance;','		auto* p = instance_owner_type::instance.get();\n		return *p;'),
('		return instance_owner_type::instance != nullptr;','		return static_cast<bool>(instance_owner_type::instance);'))
# unicode
cut('unicode.cpp','	std::stringstream ss;\n	ss.exceptions','std::u32string utki::to_utf32(utf8_iterator','''	std::string ret;
	for (auto c : str) {
		ret += to_utf8(c).data();
	}
	return ret;
}

''')
ed('unicode.cpp',('''	std::vector<char32_t> buf;
	for (; !str.is_end(); ++str) {
		buf.push_back(str.character());
	}
	return std::u32string{buf.begin(), buf.end()};''','''	std::u32string ret;
	while (!str.is_end()) {
		ret.push_back(str.character());
		++str;
	}
	return ret;'''))
