// C02 thread independence: a catalogue of library calls, each a function of one seed, run by several threads at once from a
// fresh process on, and compared with the same calls made by one caller alone; plus concurrent read-only use of shared objects.
#include "common.hpp"

#include <deque>
#include <list>
#include <map>
#include <memory>
#include <sstream>

#include <utki/base64.hpp>
#include <utki/debug.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/linq.hpp>
#include <utki/math.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/sort.hpp>
#include <utki/span.hpp>
#include <utki/spin_lock.hpp>
#include <utki/string.hpp>
#include <utki/time.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>
#include <utki/version.hpp>
#include <utki/views.hpp>

const char* const scenario_id = "C02";

namespace {
using std::string;
using std::string_view;

string text(rng& r, size_t max, const char* alphabet = nullptr)
{
	static const char def[] = "abcdefgh XYZ,.\t\n0123456789-+x=/";
	string_view a = alphabet ? string_view(alphabet) : string_view(def, sizeof def - 1);
	size_t n = r.below(uint32_t(max) + 1);
	string s;
	for (size_t i = 0; i < n; ++i)
		s.push_back(a[r.below(uint32_t(a.size()))]);
	return s;
}
string show(const std::vector<string>& v)
{
	string s;
	for (auto& x : v) {
		s += '[';
		s += x;
		s += ']';
	}
	return s;
}
string hexof(const void* p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	string s;
	auto b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) {
		s += d[b[i] >> 4];
		s += d[b[i] & 15];
	}
	return s;
}
string num(uint64_t v)
{
	char b[24];
	int i = 24;
	do
		b[--i] = char('0' + v % 10);
	while (v /= 10);
	return string(b + i, b + 24);
}
string u32(const std::u32string& s)
{
	string r;
	for (auto c : s)
		r += num(uint32_t(c)) + ' ';
	return r;
}

// ---- the catalogue ------------------------------------------------------------------------------
string op_make_string(rng& r)
{
	switch (r.below(5)) {
		case 0:
			return utki::make_string("%d-%s", int(r.next()), text(r, 12).c_str());
		case 1:
			return utki::make_string("%s|%s", text(r, 40).c_str(), text(r, 1200).c_str());
		case 2:
			return utki::make_string("%*d", int(1000 + r.below(60)), int(r.below(1000)));
		case 3: {
			string s = text(r, 30);
			return utki::make_string(utki::make_span(s));
		}
		default: {
			std::vector<uint8_t> v(r.below(20), uint8_t('a' + r.below(26)));
			return utki::make_string(v);
		}
	}
}
string op_split(rng& r)
{
	string s = text(r, 40, "ab ,\t\nc");
	if (r.coin())
		return show(utki::split(string_view(s)));
	return show(utki::split(string_view(s), ','));
}
string op_join(rng& r)
{
	std::vector<string> v;
	for (size_t i = r.below(5); i; --i)
		v.push_back(text(r, 12));
	return utki::join(v, char('!' + r.below(10)));
}
string op_cat(rng& r)
{
	return utki::cat(text(r, 10), int(r.next()), ' ', unsigned(r.next()), "lit", text(r, 30));
}
string op_wrap(rng& r)
{
	string s = text(r, 60, "abc   d\nef");
	return show(utki::word_wrap(s, r.below(12)));
}
string op_to_string(rng& r)
{
	static const utki::integer_base b[] = {utki::integer_base::bin, utki::integer_base::oct, utki::integer_base::dec, utki::integer_base::hex};
	uint64_t v = r.next() >> r.below(60);
	string s = utki::to_string(v, b[r.below(4)]);
	s += utki::to_string(int(r.next()));
	return s;
}
string op_from_chars(rng& r)
{
	string s = utki::cat(int(r.below(100000)) - 50000, '.', r.below(1000), 'e', int(r.below(30)) - 15);
	float f = 0;
	double d = 0;
	long double l = 0;
	auto a = utki::from_chars(s.data(), s.data() + s.size(), f);
	auto b = utki::from_chars(s.data(), s.data() + s.size(), d);
	static const utki::chars_format formats[] = {utki::chars_format::scientific, utki::chars_format::fixed, utki::chars_format::hex, utki::chars_format::general};
	auto c = utki::from_chars(s.data(), s.data() + s.size(), l, formats[r.below(4)]);
	double ld = double(l);
	return hexof(&f, 4) + hexof(&d, 8) + hexof(&ld, 8) + num(a.ptr - s.data()) + num(b.ptr - s.data()) + num(c.ptr - s.data());
}
string op_parser(rng& r)
{
	string s = text(r, 50, "0123456789 ,xbf.-e\tqz");
	utki::string_parser p(s);
	string o;
	for (int i = 0; i < 6; ++i) {
		o += '|';
		try {
			switch (r.below(12)) {
				case 0:
					p.skip_whitespaces();
					break;
				case 1:
					p.skip_whitespaces_and_comma();
					break;
				case 2:
					o += p.read_word();
					break;
				case 3:
					o += p.read_word_until(',');
					break;
				case 4:
					o += num(uint64_t(int64_t(p.read_number<int>())));
					break;
				case 5:
					o += num(p.read_number<unsigned>());
					break;
				case 6: {
					float f = p.read_number<float>();
					o += hexof(&f, 4);
				} break;
				case 7:
					o += p.read_char();
					break;
				case 8:
					o += p.peek_char(r.below(6));
					break;
				case 9:
					o += p.read_chars(r.below(8));
					break;
				case 10:
					o += p.read_chars_until(',');
					break;
				default:
					o += p.skip_inclusive_until_one_of(utki::make_span("xz", 2));
					break;
			}
		} catch (std::exception& e) {
			o += e.what();
		}
	}
	o += p.get_view();
	return o;
}
string op_trim(rng& r)
{
	string s = text(r, 24, "  \t\nab");
	string o(utki::trim(s));
	o += '|';
	o += utki::trim_front(string_view(s));
	o += '|';
	o += utki::trim_back(s.c_str());
	o += utki::trim_front(s.c_str());
	o += utki::trim(s.c_str());
	o += utki::starts_with(s, "a") ? '1' : '0';
	o += utki::ends_with(s, "b") ? '1' : '0';
	o += utki::make_indentation(r.below(5), r.below(4));
	return o;
}
string op_serialize(rng& r)
{
	uint8_t b[64];
	memset(b, 0xee, sizeof b);
	uint8_t* p = b;
	p = utki::serialize16le(uint16_t(r.next()), p);
	p = utki::serialize32le(uint32_t(r.next()), p);
	p = utki::serialize64le(r.next(), p);
	p = utki::serialize16be(uint16_t(r.next()), p);
	p = utki::serialize32be(uint32_t(r.next()), p);
	p = utki::serialize64be(r.next(), p);
	p = utki::serialize_float_le(float(r.below(10000)) / 7, p);
	p = utki::serialize_float_be(float(r.below(10000)) / 7, p);
	string o = hexof(b, size_t(p - b));
	utki::deserializer d(utki::span<const uint8_t>(b, size_t(p - b)));
	try {
		o += num(d.read_uint16_le());
		o += num(d.read_uint32_be());
		d.skip(r.below(8));
		o += num(d.read_uint64_be());
		o += num(d.read_uint8());
		auto s = d.read_span(r.below(12));
		o += hexof(s.data(), s.size());
		float f = d.read_float_be();
		o += hexof(&f, 4);
		o += hexof(d.read_string(3 + r.below(30)).data(), 3);
	} catch (std::invalid_argument& e) {
		o += e.what();
	}
	o += num(d.size());
	return o;
}
string op_unicode(rng& r)
{
	std::u32string s;
	for (size_t i = r.below(14); i; --i)
		s.push_back(char32_t(1 + (r.next() & ((2ull << r.below(30)) - 1) & 0x7ffffffe)));
	string e = utki::to_utf8(s);
	auto one = utki::to_utf8(char32_t(0x20ac + r.below(1000)));
	string o = e + one.data() + '|' + u32(utki::to_utf32(string_view(e))) + '|' + u32(utki::to_utf32(e.c_str()));
	for (utki::utf8_iterator i{string_view(e)}; !i.is_end(); ++i)
		o += num(i.character());
	return o;
}
string op_base64(rng& r)
{
	static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	string s = text(r, 40, a);
	s.resize(s.size() / 4 * 4);
	if (!s.empty() && r.coin())
		s.back() = '=';
	try {
		auto v = utki::base64_decode(s);
		return hexof(v.data(), v.size());
	} catch (std::invalid_argument& e) {
		return e.what();
	}
}
template <class t>
struct generic_exception : std::runtime_error {
	using std::runtime_error::runtime_error;
};
void rethrow_deeper(rng& r, unsigned depth)
{
	if (depth == 0) {
		switch (r.below(4)) {
			case 0:
				throw std::runtime_error(text(r, 20));
			case 1:
				throw int(r.below(100));
			case 2:
				throw generic_exception<std::vector<int>>(text(r, 20));
			default:
				throw std::logic_error(text(r, 50));
		}
	}
	try {
		rethrow_deeper(r, depth - 1);
	} catch (...) {
		switch (r.below(3)) {
			case 0:
				utki::throw_with_nested(std::runtime_error(text(r, 20)));
				break;
			case 1:
				std::throw_with_nested(std::invalid_argument(text(r, 20)));
				break;
			default:
				utki::throw_with_nested(generic_exception<string>(text(r, 20)));
				break;
		}
	}
}
string op_exception(rng& r)
{
	string o;
	try {
		rethrow_deeper(r, r.below(4));
	} catch (std::exception& e) {
		o = utki::to_string(e, "* ");
		o += '|';
		o += e.what();
		o += '|';
		o += utki::current_exception_to_string(" ");
	} catch (...) {
		o = utki::current_exception_to_string("# ");
	}
	return o;
}
string op_demangle(rng& r)
{
	switch (r.below(4)) {
		case 0:
			return utki::demangle(typeid(int));
		case 1:
			return utki::demangle(typeid(generic_exception<std::map<string, int>>));
		case 2:
			return utki::demangle(typeid(rng));
		default:
			return utki::demangle(typeid(utki::tree<string>));
	}
}
string op_ticks(rng&)
{
	return num(utki::get_ticks_ms());
}
string op_terminal(rng& r)
{
	switch (r.below(3)) {
		case 0:
			return utki::is_terminal_cout() ? "o1" : "o0";
		case 1:
			return utki::is_terminal_cerr() ? "e1" : "e0";
		default:
			return utki::is_terminal_cin() ? "i1" : "i0";
	}
}
struct person {
	string name;
	int age;
	person(string n, int a) :
		name(std::move(n)),
		age(a)
	{}
	bool operator==(const person& p) const
	{
		return name == p.name && age == p.age;
	}
};
std::vector<person> people(rng& r, uint32_t max)
{
	std::vector<person> v;
	for (uint32_t n = r.below(max + 1), i = 0; i < n; ++i)
		v.emplace_back("n" + num(i * 7 % 11) + text(r, 4, "abc"), int(i * 31 % 17));
	return v;
}
string query(const std::vector<person>& v, unsigned kind)
{
	string o;
	switch (kind % 3) {
		case 0: {
			auto x = utki::linq(v)
						 .where([](const auto& p) {
							 return p.age % 2 == 0;
						 })
						 .select([](auto p, size_t i) {
							 return std::make_pair(p.name, i);
						 })
						 .get();
			for (auto& p : x)
				o += p.first + num(p.second) + ',';
		} break;
		case 1: {
			auto x = utki::linq(v)
						 .order_by([](const auto& p) -> const auto& {
							 return p.age;
						 })
						 .get();
			for (auto& p : x)
				o += num(unsigned(p.age)) + ',';
		} break;
		default: {
			auto x = utki::linq(v)
						 .group_by([](const auto& p) {
							 return p.name.substr(0, 2);
						 })
						 .get();
			for (auto& p : x)
				o += p.first + num(p.second.size()) + ',';
		} break;
	}
	return o;
}
string op_linq(rng& r)
{
	auto v = people(r, 9);
	return query(v, r.below(3));
}
string op_sort(rng& r)
{
	std::vector<int> v;
	for (size_t i = r.below(20); i; --i)
		v.push_back(int(r.below(30)));
	if (r.coin())
		utki::sort(v.begin(), v.end());
	else
		utki::sort(v.begin(), v.end(), [](int a, int b) {
			return a > b;
		});
	string o;
	for (int i : v)
		o += num(unsigned(i)) + ',';
	return o;
}
template <class tree>
void grow(rng& r, typename tree::container_type& c, unsigned depth)
{
	for (size_t i = r.below(4); i; --i) {
		tree t(int(r.below(100)));
		if (depth)
			grow<tree>(r, t.children, depth - 1);
		c.push_back(std::move(t));
	}
}
template <class coll>
string walk(coll& c)
{
	string o;
	auto tr = utki::make_traversal(c);
	for (auto i = tr.cbegin(); i != tr.cend(); ++i) {
		o += num(unsigned(i->value)) + ':';
		for (auto x : i.index())
			o += num(x) + '.';
	}
	return o;
}
string op_tree(rng& r)
{
	using tree = utki::tree<int>;
	tree::container_type roots;
	grow<tree>(r, roots, 2);
	if (roots.empty())
		return "empty";
	auto tr = utki::make_traversal(roots);
	auto i = tr.begin();
	for (uint32_t n = r.below(4); n && i != tr.end(); --n)
		++i;
	if (i != tr.end()) {
		if (r.coin())
			tr.erase(i);
		else
			tr.insert_after(i, tree(1000));
	}
	string o = walk(roots);
	for (auto x = tr.rbegin(); x != tr.rend(); ++x)
		o += num(unsigned(x->value)) + ',';
	return o;
}
string op_signal(rng& r)
{
	utki::signal<int, const string&> s;
	string o;
	std::vector<utki::signal<int, const string&>::connection> c;
	uint32_t n = 1 + r.below(4);
	for (uint32_t i = 0; i < n; ++i)
		c.push_back(s.connect([&o, i](int a, const string& b) {
			o += num(i) + ':' + num(unsigned(a)) + b + ';';
		}));
	s.emit(int(r.below(50)), text(r, 8));
	n = r.below(n);
	s.disconnect(c[n]);
	c.erase(c.begin() + n);
	o += num(s.size());
	s.emit(1, "x");
	for (auto& x : c)
		s.disconnect(x);
	return o;
}
string op_scope_exit(rng& r)
{
	string o;
	{
		utki::scope_exit a([&] {
			o += 'a';
		});
		utki::scope_exit b([&] {
			o += 'b';
		});
		if (r.coin()) {
			auto f = b.release();
			f();
		}
		o += 's';
	}
	return o;
}
struct base : utki::shared {
	int v;
	base(int v) :
		v(v)
	{}
};
struct derived : base {
	using base::base;
};
string op_refs(rng& r)
{
	auto a = utki::make_shared<derived>(int(r.below(100)));
	utki::shared_ref<base> b = a;
	auto w = utki::make_weak_from(b.get());
	auto c = utki::dynamic_reference_cast<derived>(b);
	auto d = utki::make_shared_from(a.get());
	auto u = utki::make_unique<person>(text(r, 5), 3);
	auto v = std::move(u);
	return num(unsigned(c.get().v + d.get().v)) + num(uint64_t(w.lock().use_count())) + v.get().name;
}
enum class ab {
	a,
	b,
	c,
	enum_size
};
string op_small(rng& r)
{
	utki::flags<ab> f{ab::a};
	if (r.coin())
		f.set(ab::c);
	f.set(ab::b, r.coin());
	string o;
	o += f.get(ab::a) ? '1' : '0';
	o += f.get(ab::b) ? '1' : '0';
	o += f.is_clear() ? 'c' : 'n';
	std::ostringstream ss;
	ss << f;
	o += ss.str();
	utki::version_duplet v{uint16_t(r.below(9)), uint16_t(r.below(9))};
	std::ostringstream sv;
	sv << v;
	o += sv.str();
	std::map<int, string> m;
	for (int i = 0; i < 4; ++i)
		m[i] = num(r.below(50));
	for (auto& p : utki::flip_map(m))
		o += p.first + num(unsigned(p.second));
	std::vector<int> x{1, 2, 3, int(r.below(5))};
	o += utki::contains(x, 4) ? 'y' : 'n';
	std::vector<int> y;
	for (auto e : utki::views::reverse(x))
		y.push_back(e);
	for (auto e : utki::views::zip(x, y))
		o += num(unsigned(std::get<0>(e) * 10 + std::get<1>(e)));
	return o;
}

// what the library computes about containers and numbers
string op_containers(rng& r)
{
	std::vector<int> x;
	for (size_t i = r.below(7) + 3; i; --i)
		x.push_back(int(r.below(9)));
	auto sp = utki::make_span(x);
	auto sub = sp.subspan(1, 2 + r.below(uint32_t(x.size() - 2)));
	string o = num(sub.size()) + (sub.empty() ? "e" : "n") + num(unsigned(sub.front() + sub.back() + sub[1]));
	std::ostringstream ss;
	ss << utki::span<const int>(sub);
	std::array<uint8_t, 4> bytes{uint8_t(r.below(250)), 1, 2, 3};
	ss << utki::make_span(bytes) << utki::make_span(o);
	o += ss.str();
	utki::enum_array<int, ab> a{};
	for (auto e : utki::enum_iterable_v<ab>)
		a[e] = int(r.below(60));
	for (auto e : utki::enum_iterable_v<ab>)
		o += num(unsigned(a[e])) + '.';
	std::list<int> l(x.begin(), x.end());
	o += num(unsigned(*utki::next(l.begin(), r.below(3)))) + num(unsigned(*utki::prev(l.end(), 1 + r.below(3))));
	const auto& cx = x;
	for (auto e : utki::views::zip(cx, l))
		o += num(unsigned(std::get<0>(e) + std::get<1>(e)));
	auto f = ab::a | ab::b;
	f = r.coin() ? ~f : f ^ utki::flags<ab>{ab::b, ab::c};
	f |= utki::flags<ab>{r.coin() ? ab::a : ab::c};
	f.invert();
	utki::flags<ab> all(true);
	ss << (all & f) << (all ^ f);
	o += utki::make_string(utki::to_char(utki::make_span(bytes)));
	std::string w(1 + r.below(9), 'w');
	auto wb = utki::to_uint8_t(utki::make_span(w));
	wb[0] = 'v';
	o += w + utki::make_string(wb);
	utki::version_duplet v1{uint16_t(r.below(3)), uint16_t(r.below(3))}, v2{uint16_t(r.below(3)), uint16_t(r.below(3))};
	o += num(v1.to_uint32_t()) + (v1 >= v2 ? 'g' : 'l') + (v1 < v2 ? 'l' : 'g');
	o += f.is_set() ? 's' : 'x';
	o += (f & ab::a) == utki::flags<ab>() ? '0' : '1';
	return o;
}
string op_math(rng& r)
{
	double d = double(r.below(1000)) / 7;
	int i = int(r.below(17)) - 8;
	double v[] = {utki::deg_to_rad(d), utki::rad_to_deg(d), utki::pow2(d), utki::pow3(d), utki::pow4(d), utki::pow5(d), utki::pow6(d)};
	return hexof(v, sizeof v) + num(uint64_t(utki::sign(i) + 1)) + num(uint64_t(utki::pow3(i) + 1000));
}
// own objects and functions which are read through constants only, or report through the guards of the library
string op_checked(rng& r)
{
	string o;
	string s = text(r, 30, "ab,;xz ");
	utki::string_parser p(s);
	try {
		o += p.peek_char();
		p.skip_inclusive_until(',');
		o += p.get_view();
		o += num(p.read_number<uint64_t>());
		o += num(uint64_t(p.read_number<int64_t>()));
		double d = p.read_number<double>();
		o += hexof(&d, 8);
	} catch (std::invalid_argument& e) {
		o += e.what();
	}
	uint8_t b[40];
	for (auto& x : b)
		x = uint8_t(r.next());
	utki::deserializer d(utki::span<const uint8_t>(b, sizeof b));
	o += num(d.read_uint16_be()) + num(d.read_uint32_le()) + num(d.read_uint64_le()) + num(d.read_uint16_le());
	float f = d.read_float_le();
	o += hexof(&f, 4);
	utki::assert_always(d.size() == 20, [](auto& out) { out << "never printed"; }, utki::source_location(1, 2, "f"));
	utki::assert(d.size() == 20, [](auto& out) { out << "never printed"; }, utki::source_location(1, 2, "f"));
	ASSERT(d.size() == 20)
	auto u = utki::make_unique<person>(text(r, 5), int(r.below(9)));
	o += u.get().name;
	auto up = std::move(u).to_unique_ptr();
	o += num(unsigned(up->age));
	utki::run_debug([&] { s.clear(); });
	try {
		auto w = utki::make_weak_from(utki::make_shared<base>(1).get());
		o += w.expired() ? 'e' : 'l';
		(void)utki::dynamic_reference_cast<derived>(utki::make_shared<base>(3));
	} catch (std::bad_cast&) {
		o += "bad cast";
	}
	return o;
}

struct entry {
	const char* name;
	string (*f)(rng&);
};
const entry catalogue[] = {
	{"make_string", op_make_string}, {"split", op_split},		  {"join", op_join},
	{"cat", op_cat},				 {"word_wrap", op_wrap},	  {"to_string", op_to_string},
	{"from_chars", op_from_chars},	 {"parser", op_parser},		  {"trim", op_trim},
	{"serialize", op_serialize},	 {"unicode", op_unicode},	  {"base64", op_base64},
	{"exception", op_exception},	 {"demangle", op_demangle},	  {"ticks", op_ticks},
	{"terminal", op_terminal},		 {"linq", op_linq},			  {"sort", op_sort},
	{"tree", op_tree},				 {"signal", op_signal},		  {"scope_exit", op_scope_exit},
	{"refs", op_refs},				 {"small", op_small},		  {"containers", op_containers},
	{"math", op_math},				 {"checked", op_checked},
};
constexpr uint32_t n_ops = sizeof catalogue / sizeof catalogue[0];

// ---- concurrent read-only use of shared objects -------------------------------------------------
struct shared_objects {
	string s;
	std::vector<string> words;
	std::vector<person> v;
	utki::tree<int>::container_type roots;
	utki::tree<int, std::list>::container_type lroots;
	std::exception_ptr ex;
	std::u32string u;
	std::vector<uint8_t> bytes;
	std::map<int, string> m;
	utki::flags<ab> f;
	utki::shared_ref<derived> ref;
	utki::unique_ref<person> uref;
	utki::signal<int> sig;
	utki::signal<int>::connection con;
	std::vector<int> ints;
	// the small ones
	const utki::traversal<const utki::tree<int>::container_type> tr{roots};
	utki::traversal<const utki::tree<int>::container_type>::const_iterator at;
	utki::span<const int> ispan;
	utki::string_parser parser{""};
	utki::deserializer des{utki::span<const uint8_t>()};
	utki::utf8_iterator chars{""};
	utki::enum_array<int, ab> ea{};
	utki::version_duplet ver{};
	explicit shared_objects(rng& r) :
		s(text(r, 60)),
		v(people(r, 7)),
		f{ab::a, ab::c},
		ref(utki::make_shared<derived>(int(r.below(100)))),
		uref(utki::make_unique<person>(text(r, 9), 5)),
		con(sig.connect([](int) {}))
	{
		for (size_t i = 1 + r.below(4); i; --i)
			words.push_back(text(r, 10));
		grow<utki::tree<int>>(r, roots, 2);
		grow<utki::tree<int, std::list>>(r, lroots, 2);
		try {
			rethrow_deeper(r, r.below(4));
		} catch (...) {
			ex = std::current_exception();
		}
		for (size_t i = r.below(9); i; --i)
			u.push_back(char32_t(1 + r.below(100000)));
		for (size_t i = r.below(24); i; --i)
			bytes.push_back(uint8_t(r.next()));
		for (int i = 0; i < 5; ++i)
			m[i] = num(r.below(100) * 5 + unsigned(i));
		for (int i = 0; i < 6; ++i)
			ints.push_back(int(r.below(20)));
		at = tr.cbegin();
		for (size_t i = r.below(5); i && at != tr.cend(); --i)
			++at;
		if (at == tr.cend())
			at = tr.cbegin();
		ispan = utki::make_span(ints);
		parser = utki::string_parser(s);
		des = utki::deserializer(utki::make_span(bytes));
		chars = utki::utf8_iterator(std::string_view(s));
		for (size_t i = 0; i < ea.size(); ++i)
			ea[ab(i)] = int(r.below(50));
		ver = {uint16_t(r.below(9)), uint16_t(r.below(9))};
	}
	~shared_objects()
	{
		sig.disconnect(con);
	}
};
// one node after another, by its index
template <class coll>
string by_index(const coll& c)
{
	string o;
	const auto tr = utki::make_traversal(c);
	for (auto i = tr.cbegin(); i != tr.cend(); ++i) {
		auto x = i.index();
		if (!tr.is_valid(x))
			return "invalid";
		o += num(unsigned(tr[x].value)) + (i.is_last_child() ? "l" : "n") + num(i.depth());
		auto again = tr.make_const_iterator(x);
		o += again == i && !(again < i) ? '=' : '!';
	}
	for (auto i = tr.crbegin(); i != tr.crend(); ++i)
		o += num(unsigned(i->value)) + ',';
	return o;
}
string read_shared(const shared_objects& o, uint32_t kind, rng& r)
{
	switch (kind) {
		case 0:
			return show(utki::split(o.s)) + string(utki::trim(o.s));
		case 1:
			return utki::join(o.words, '-') + utki::cat(o.words[0], o.s);
		case 2:
			return query(o.v, r.below(3));
		case 3:
			return walk(o.roots);
		case 4:
			return walk(o.lroots);
		case 5:
			try {
				std::rethrow_exception(o.ex);
			} catch (std::exception& e) {
				string a = e.what();
				return a + utki::to_string(e, "+");
			} catch (...) {
				return utki::current_exception_to_string(">");
			}
		case 6:
			return utki::to_utf8(o.u);
		case 7: {
			utki::deserializer d(utki::make_span(o.bytes));
			string x;
			try {
				for (;;)
					x += num(d.read_uint16_be());
			} catch (std::invalid_argument& e) {
				x += e.what();
			}
			return x;
		}
		case 8: {
			string x;
			for (auto& p : utki::flip_map(o.m))
				x += p.first + num(unsigned(p.second));
			return x + (utki::contains(o.m, 3) ? "y" : "n");
		}
		case 9: {
			std::ostringstream ss;
			ss << o.f << (o.f & utki::flags<ab>{ab::a});
			return ss.str();
		}
		case 10: {
			auto a = o.ref;
			utki::shared_ref<base> b = o.ref;
			std::weak_ptr<base> w = utki::make_weak(b);
			auto l = w.lock();
			auto c = utki::make_shared_from(a.get());
			return num(unsigned(a.get().v + b.get().v + c.get().v + (l ? l->v : 0)));
		}
		case 11: {
			string x;
			utki::string_parser p(o.s);
			while (!p.empty()) {
				x += p.read_word();
				x += '|';
				p.skip_whitespaces();
			}
			return x + u32(utki::to_utf32(o.s));
		}
		default:
		case 12: {
			string x;
			for (auto e : utki::views::reverse(o.ints))
				x += num(unsigned(e));
			auto sp = utki::make_span(o.ints);
			for (auto e : utki::skip_front<1>(sp))
				x += num(unsigned(e));
			return x + (utki::contains(o.ints, 7) ? "y" : "n");
		}
		case 13:
			return by_index(o.roots) + (o.roots == o.roots ? "=" : "!");
		case 14: {
			string x = o.uref.get().name + num(o.sig.size()) + (o.sig.empty() ? "e" : "n");
			const person& p = o.uref;
			x += p == o.uref.get() ? '=' : '!';
			auto sp = utki::make_span(o.bytes);
			std::ostringstream ss;
			ss << sp << o.f;
			return x + ss.str() + string(utki::make_string_view(sp)) + utki::make_string(sp);
		}
		case 15: {
			string x;
			for (utki::utf8_iterator i(o.s.c_str()); !i.is_end(); ++i)
				x += num(i.character());
			x += show(utki::word_wrap(o.s, 7)) + show(utki::split(o.s, 'e'));
			try {
				auto b = utki::base64_decode(o.words[0]);
				x += num(b.size());
			} catch (std::invalid_argument&) {
				x += '!';
			}
			return x + utki::demangle(typeid(o.ref.get()));
		}
		case 16: {
			string x;
			if (!o.roots.empty()) {
				auto ix = o.at.index();
				x += num(ix.size()) + num(o.at.depth()) + (o.at.is_last_child() ? "l" : "n") + num(unsigned(o.at->value)) +
					num(unsigned((*o.at).value)) + num(unsigned(o.at.at_level(0).value));
				x += o.tr.is_valid(ix) ? 'v' : 'i';
				x += o.tr.make_const_iterator(ix) == o.at ? '=' : '!';
				x += num(unsigned(o.tr[ix].value));
				x += o.at != o.tr.cend() && o.at >= o.tr.cbegin() && o.at < o.tr.cend() ? '<' : '>';
				auto copy = o.at;
				++copy;
				x += copy > o.at ? '>' : '<';
			}
			x += o.tr.is_valid({size_t(r.below(3)), size_t(r.below(3))}) ? 'v' : 'i';
			for (auto i = o.tr.crbegin(); i != o.tr.crend(); ++i)
				x += num(unsigned(i->value)) + ',';
			return x;
		}
		case 17: {
			string x = num(o.ispan.size()) + num(o.ispan.size_bytes()) + (o.ispan.empty() ? "e" : "n");
			for (auto e : o.ispan)
				x += num(unsigned(e));
			x += num(unsigned(o.ispan[2])) + num(unsigned(o.ispan.front() + o.ispan.back()));
			for (auto e : o.ispan.subspan(1, 3))
				x += num(unsigned(e));
			x += o.ispan.data() + o.ispan.size() == o.ispan.end_pointer() ? '=' : '!';
			x += string(o.parser.get_view()) + num(o.parser.size()) + (o.parser.empty() ? "e" : "n");
			for (size_t i = 0; i < 3; ++i) {
				try {
					x += i ? o.parser.peek_char(i * 9) : o.parser.peek_char();
				} catch (std::invalid_argument& e) {
					x += e.what();
				}
			}
			return x + num(o.des.size()) + (o.des.empty() ? "e" : "n") + num(o.chars.character()) + (o.chars.is_end() ? "e" : "n");
		}
		case 18: {
			string x = num(o.f.size()) + (o.f[ab::a] ? "1" : "0") + (o.f.get(ab::b) ? "1" : "0") + (o.f.is_clear() ? "c" : "n") +
				(o.f.is_set() ? "s" : "n");
			std::ostringstream ss;
			ss << ~o.f << (o.f | ab::b) << (o.f ^ utki::flags<ab>{ab::b}) << (o.f == o.f) << (o.f != ~o.f) << o.ver << ' '
			   << o.ver.to_uint32_t() << (utki::version_duplet{1, 5}.to_uint32_t() < o.ver.to_uint32_t());
			x += ss.str();
			for (size_t i = 0; i < o.ea.size(); ++i)
				x += num(unsigned(o.ea[ab(i)]));
			for (auto z : o.ea.zip_with_enum())
				x += num(unsigned(std::get<0>(z))) + num(unsigned(std::get<1>(z)));
			return x;
		}
	}
}
constexpr uint32_t n_shared = 19;

struct call {
	uint32_t op; // < n_ops: catalogue, else shared read
	uint64_t seed;
	string got;
	string alone;
};
string perform(const call& c, const shared_objects* so)
{
	rng r(c.seed);
	if (c.op < n_ops)
		return catalogue[c.op].f(r);
	return read_shared(*so, c.op - n_ops, r);
}
} // namespace

void scenario_run()
{
	sim::clock_set(1700000000ull * 1000000000ull + uint64_t(sim::choose(0)) * 1000003, 77ull * 1000000000ull + uint64_t(sim::choose(0)) * 1009);
	sim::set_tty(0, sim::coin());
	sim::set_tty(1, sim::coin());
	sim::set_tty(2, sim::coin());
	int nt = int(sim::range(2, 4));
	bool alone_first = sim::chance(1, 4);
	uint32_t mode = sim::choose(4); // 0: mixed, 1: same operation everywhere, 2: two operations, 3: shared reads only
	uint32_t a = sim::choose(n_ops), b = sim::choose(n_ops);
	bool use_shared = mode == 3 || sim::coin();
	bool same_seed = sim::chance(1, 4);
	uint64_t seed0 = sim::choose(0);
	std::unique_ptr<shared_objects> so;
	rng sr(sim::choose(0));
	if (use_shared)
		so.reset(new shared_objects(sr));
	uint32_t shared_one = sim::choose(n_shared + 3); // one kind for all, or any
	std::vector<std::vector<call>> calls;
	calls.resize(size_t(nt));
	for (auto& v : calls) {
		uint32_t n = sim::range(1, 4);
		for (uint32_t i = 0; i < n; ++i) {
			call c;
			c.seed = same_seed ? seed0 : sim::choose(0);
			if (mode == 3 || (mode == 0 && use_shared && sim::chance(1, 3)))
				c.op = n_ops + (shared_one < n_shared ? shared_one : sim::choose(n_shared));
			else
				c.op = mode == 1 ? a : mode == 2 ? (sim::coin() ? a : b) : sim::choose(n_ops);
			sim::ev("call", c.op, c.seed);
			v.push_back(std::move(c));
		}
	}
	auto alone = [&] {
		// another order than that of the concurrent phase
		for (size_t t = calls.size(); t-- > 0;)
			for (size_t i = calls[t].size(); i-- > 0;)
				calls[t][i].alone = perform(calls[t][i], so.get());
	};
	if (alone_first)
		alone();
	else
		sim::probe("first-calls-of-the-process-concurrent");
	for (int t = 0; t < nt; ++t) {
		auto* mine = &calls[size_t(t)];
		const shared_objects* s = so.get();
		sim::spawn([mine, s] {
			for (auto& c : *mine)
				c.got = perform(c, s);
		});
	}
	sim::join_all();
	if (!alone_first)
		alone();
	for (auto& v : calls)
		for (auto& c : v) {
			sim::ev_bytes("result", c.alone.data(), c.alone.size());
			if (c.got != c.alone) {
				string g = c.got.substr(0, 200), w = c.alone.substr(0, 200);
				sim::fail("concurrent-result", "call %u (%s) seed %llu gave \"%s\" next to other threads, \"%s\" alone", c.op,
						  c.op < n_ops ? catalogue[c.op].name : "shared read", (unsigned long long)c.seed, g.c_str(), w.c_str());
			}
		}
	if (so)
		so->ex = nullptr;
}
