import sys,re
D=sys.argv[1]+'/src/utki/'
def ed(f,*rs):
    p=D+f; s=open(p).read()
    for a,b in rs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def cut(f,start,end,new):
    p=D+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i+len(start))
    s=s[:i]+new+s[j:]
    open(p,'w').write(s)
# log through a mutex + local text
ed('log.cpp',('	print(std::cout);\n','''	static std::mutex mutex;
	std::ostringstream ss;
	ss.exceptions(std::ios_base::badbit);
	print(ss);
	std::lock_guard<std::mutex> guard(mutex);
	std::cout << ss.str();
'''),('#include <sstream>','#include <sstream>\n#include <mutex>'))
# assert: fputs
cut('debug.cpp','	std::cerr << ss.str() << std::endl;','#endif','''	ss << '\\n';
	const auto text = ss.str(); std::fwrite(text.data(), 1, text.size(), stderr);
	std::fflush(stderr);
''')
ed('debug.cpp',('#include "utility.hpp"','#include "utility.hpp"\n#include <cstdio>\n#include <cstdlib>'))
# exception: recursion -> shared helper
# deserializer: offset
s=open(D+'deserializer.hpp').read()
s=s.replace('''	utki::span<const uint8_t> data;

''','''	utki::span<const uint8_t> data;
	size_t pos = 0;

	const uint8_t* cur() const noexcept
	{
		return this->data.data() + this->pos;
	}

''').replace('return this->data.empty();','return this->size() == 0;').replace('return this->data.size();','return this->data.size() - this->pos;')
open(D+'deserializer.hpp','w').write(s)
s=open(D+'deserializer.cpp').read()
s=re.sub(r'this->data = this->data.subspan\((.*?)\);\n',r'this->pos += \1;\n',s)
s=s.replace('this->data.subspan(0, length)','this->data.subspan(this->pos, length)').replace('this->data.front()','*this->cur()').replace('this->data.data()','this->cur()')
open(D+'deserializer.cpp','w').write(s)
# parser: read_number split, read_word via until helper
s=open(D+'string.cpp').read()
i=s.index('std::string_view string_parser::read_word()'); j=s.index('void string_parser::throw_if_empty()')
s=s[:i]+'''namespace {
template <typename pred_type>
std::string_view take_until(std::string_view& view, pred_type pred)
{
	auto i = std::find_if(view.begin(), view.end(), pred);
	auto ret = view.substr(0, size_t(std::distance(view.begin(), i)));
	view.remove_prefix(ret.size());
	return ret;
}
} // namespace

std::string_view string_parser::read_word()
{
	return take_until(this->view, string_parser::is_space);
}

std::string_view string_parser::read_word_until(char until_char)
{
	return take_until(this->view, [until_char](char c) {
		return c == until_char || string_parser::is_space(c);
	});
}

'''+s[j:]
open(D+'string.cpp','w').write(s)
# tree frames
s=open(D+'tree.hpp').read()
s=s.replace('''		std::vector<list_type*> list_stack;
''','').replace('''		std::vector<iterator_type> iter_stack;
''','''		struct frame {
			list_type* list;
			iterator_type iter;

			bool operator==(const frame& f) const noexcept
			{
				return this->iter == f.iter;
			}
			bool operator<(const frame& f) const noexcept
			{
				return this->iter < f.iter;
			}
			bool operator>(const frame& f) const noexcept
			{
				return f < *this;
			}
			bool operator<=(const frame& f) const noexcept
			{
				return !(f < *this);
			}
			bool operator>=(const frame& f) const noexcept
			{
				return !(*this < f);
			}
		};

		std::vector<frame> stack;
''')
s=s.replace('''			this->list_stack.push_back(&roots);
			this->iter_stack.push_back(i);
''','''			this->stack.push_back({&roots, i});
''')
s=s.replace('''			this->list_stack.push_back(&list);
			try {
				this->iter_stack.push_back(i);
			} catch (...) {
				this->list_stack.pop_back();
				throw;
			}
''','''			this->stack.push_back({&list, i});
''')
s=s.replace('''			ret.list_stack.push_back(list);
			if (i >= list->size()) {
				throw std::out_of_range("given index points out of the tree");
			}
			ret.iter_stack.push_back(std::next(iter, i));
			list = &ret.iter_stack.back()->children;
''','''			if (i >= list->size()) {
				throw std::out_of_range("given index points out of the tree");
			}
			ret.stack.push_back({list, std::next(iter, i)});
			list = &ret.stack.back().iter->children;
''')
s=re.sub(r'\n\s*ASSERT\([^\n]*list_stack.size\(\)\)','',s)
s=re.sub(r'\n\s*(this->|i\.)list_stack.pop_back\(\);','',s)
s=s.replace('list_stack.back()','stack.back().list').replace('iter_stack.back()','stack.back().iter').replace('list_stack[i]','stack[i].list').replace('iter_stack[i]','stack[i].iter').replace('iter_stack.at(d)','stack.at(d).iter').replace('list_stack.empty','stack.empty').replace('iter_stack','stack')
open(D+'tree.hpp','w').write(s)
# scope exit: inline function pointer
# signal by index copy of end
# singleton raw flag
ed('singleton.hpp',('return instance_owner_type::instance != nullptr;','return bool(instance_owner_type::instance);'))
# linq group_by w/ lower_bound
ed('linq.hpp',('			ret[func(v)].push_back(std::move(v));','''			auto key = func(v);
			auto i = ret.find(key);
			if (i == ret.end()) {
				i = ret.emplace(std::move(key), std::vector<value_type>()).first;
			}
			i->second.push_back(std::move(v));'''),
('			std::sort(ret.begin(), ret.end(), comparer);','			utki::sort(ret.begin(), ret.end(), comparer);'),('#	include "debug.hpp"','#	include "debug.hpp"\n#	include "sort.hpp"')) if 0 else None
# sort: heap sort
cut('sort.hpp','	auto const n = utki::sort_internal::distance(first, last);','} // namespace sort_internal','''	auto const n = utki::sort_internal::distance(first, last);
	auto const sift = [&](auto i, auto end) {
		for (;;) {
			auto c = 2 * i + 1;
			if (c >= end) {
				return;
			}
			if (c + 1 < end && cmp(first[c], first[c + 1])) {
				++c;
			}
			if (!cmp(first[i], first[c])) {
				return;
			}
			utki::sort_internal::iter_swap(first + i, first + c);
			i = c;
		}
	};
	for (auto i = n / 2; i > 0; --i) {
		sift(i - 1, n);
	}
	for (auto end = n - 1; end > 0; --end) {
		utki::sort_internal::iter_swap(first, first + end);
		sift(decltype(end)(0), end);
	}
}

''')
# to_utf32 sized: reserve
ed('unicode.cpp',('	utf8_iterator iter(str);\n\n	std::vector<char32_t> buf;\n','	utf8_iterator iter(str);\n\n	std::vector<char32_t> buf;\n	buf.reserve(str.size());\n'))
# what(): build by helper
ed('exception.hpp',('''	stacked_exception(exception_type nesting) :
		nesting(std::move(nesting))
	{
		if (!this->nested.nested_ptr()) {
			return;
		}

		try {
			this->description =
				utki::cat(std::string_view("exception stack:\\n"), this->to_string(std::string_view("- ")));
			// failure to describe must not replace the exception being thrown
			// NOLINTNEXTLINE(bugprone-empty-catch)
		} catch (...) {
			// leave the description empty
		}
	}
''','''	std::string describe() const noexcept
	{
		if (!this->nested.nested_ptr()) {
			return {};
		}
		try {
			std::string ret = "exception stack:\\n";
			ret += this->to_string("- ");
			return ret;
		} catch (...) {
			return {};
		}
	}

	stacked_exception(exception_type nesting) :
		nesting(std::move(nesting)),
		description(this->describe())
	{}
'''))
