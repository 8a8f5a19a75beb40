// C15: functions that build strings and containers, with failing allocations, formatting calls and element writers.
#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdio>
#include <cxxabi.h>
#include <list>
#include <locale>
#include <map>
#include <sstream>
#include <stdexcept>
#include <unordered_map>

#include <utki/base64.hpp>
#include <utki/debug.hpp>
#include <utki/string.hpp>
#include <utki/unicode.hpp>
#include <utki/utility.hpp>

#include "common.hpp"

const char* const scenario_id = "C15";

namespace {
struct writer_failure {
	int n;
};
uint32_t writer_fail_in; // the n-th write of an element from now throws
uint32_t writers_failed;

struct streamable {
	std::string text;
};
std::ostream& operator<<(std::ostream& o, const streamable& s)
{
	if (writer_fail_in && --writer_fail_in == 0) {
		sim::fault("writer-throws");
		++writers_failed;
		throw writer_failure{1};
	}
	return o << s.text;
}

// a value whose copying may fail and that owns memory
struct owner {
	std::string s;
	bool operator<(const owner& o) const
	{
		return this->s < o.s;
	}
	bool operator==(const owner& o) const
	{
		return this->s == o.s;
	}
};
struct by_size {
	bool operator()(const std::string& a, const std::string& b) const
	{
		return a.size() < b.size();
	}
};

std::string draw_text(uint32_t max)
{
	sim::quiet q;
	std::string s;
	if (max >= 200 && sim::chance(1, 200)) {
		// a long one, from a generator of its own
		rng r(sim::choose64());
		uint32_t words = 2 + r.below(60);
		for (uint32_t n = sim::chance(1, 12) ? crowd_size() : sim::log_uniform(sim::thorough() ? 16 : 14); n; --n)
			s.push_back(r.below(words) == 0 ? " \n\t,;"[r.below(5)] : char(r.below(40) ? 'a' + r.below(26) : r.below(256)));
		sim::probe("long-text");
		return s;
	}
	uint32_t n = sim::choose(3) == 0 ? sim::choose(max + 1) : sim::choose(20);
	for (uint32_t i = 0; i < n; ++i) {
		uint32_t k = sim::choose(8);
		s.push_back(k == 0 ? ' ' : k == 1 ? "\n\t\v\f\r,;\0"[sim::choose(8)] : k == 2 ? char(sim::choose(256)) : char('a' + sim::choose(26)));
	}
	return s;
}

enum knobs : uint32_t { with_format = 1, with_demangle = 2, with_writer = 4, may_fall_back = 8 };

// One builder on one input: alone, then with a failure at one or several points, then alone again.
template <class make, class result>
void probe_builder(const char* name, uint32_t flags, make fn, const result& want, const result* fallback = nullptr)
{
	sim::ev(name);
	uint32_t allocs = 0, formats = 0, demangles = 0;
	auto once = [&](const char* when) {
		uint32_t f0 = sim::vsnprintf_calls(), d0 = sim::demangle_calls();
		sim::alloc_scope as;
		result r = fn();
		allocs = as.count();
		formats = sim::vsnprintf_calls() - f0;
		demangles = sim::demangle_calls() - d0;
		sim::quiet q;
		if (!(r == want))
			sim::fail("result", "%s gave another result than it is documented to (%s)", name, when);
	};
	once("nothing failed");
	uint32_t rounds = sim::range(1, sim::thorough() ? 12 : 5);
	uint32_t systematic = sim::chance(1, 2) ? 1 : 0; // one point after another, or points at random
	for (uint32_t i = 0; i < rounds; ++i) {
		uint32_t fail_at = 0;
		bool persist = false;
		uint32_t kind = sim::choose(6);
		writer_fail_in = 0;
		if ((flags & with_format) && formats && kind == 0)
			sim::vsnprintf_fail_at(1 + sim::choose(formats), 0);
		else if ((flags & with_demangle) && demangles && kind <= 2)
			sim::demangle_fail_at(1 + sim::choose(demangles), -1 - int(sim::choose(3)));
		else if ((flags & with_writer) && kind <= 1)
			writer_fail_in = 1 + sim::choose(6);
		else {
			if (!allocs)
				continue;
			fail_at = systematic ? 1 + i % allocs : 1 + sim::choose(allocs);
			persist = sim::coin();
		}
		uint32_t written = writers_failed;
		sim::ev("failure", fail_at, persist, writer_fail_in);
		uint32_t fired = 0;
		enum { returned, threw_memory, threw_writer, threw_other } end = returned;
		bool same = false, fell_back = false;
		try {
			sim::alloc_scope as(fail_at, persist);
			struct count {
				sim::alloc_scope& as;
				uint32_t& n;
				~count()
				{
					this->n = this->as.fired();
				}
			} c{as, fired};
			result r = fn();
			sim::quiet q;
			same = r == want;
			fell_back = fallback && r == *fallback;
		} catch (std::bad_alloc&) {
			end = threw_memory;
		} catch (writer_failure&) {
			end = threw_writer;
		} catch (std::exception&) {
			end = threw_other;
		}
		writer_fail_in = 0;
		sim::vsnprintf_fail_at(0, 0);
		sim::demangle_fail_at(0, 0);
		sim::ev("outcome", end, same, fired);
		if (end == threw_memory && !fired)
			sim::fail("wrong-exception", "%s: bad_alloc although memory did not fail", name);
		if (end == threw_writer && writers_failed == written)
			sim::fail("wrong-exception", "%s: an exception of an earlier call came up", name);
		if (end == threw_other && !(flags & (with_format | with_demangle)))
			sim::fail("wrong-exception", "%s: another exception than that of what failed", name);
		if (end == returned && writers_failed != written)
			sim::fail("exception-lost", "%s: the exception of a value's output operator did not reach the caller", name);
		if (end == returned && !same && !fell_back)
			sim::fail("partial-result", "%s returned an incomplete or wrong result when %s failed inside", name, fired ? "an allocation" : "a call");
	}
	once("after a failed call");
}

void unchanged(const char* name, bool same)
{
	if (!same)
		sim::fail("input-changed", "%s changed its input", name);
}

// ---- the builders -----------------------------------------------------------------------------------------

std::string via_va_list(const char* format, ...)
{
	va_list args;
	va_start(args, format);
	struct end {
		va_list& a;
		~end()
		{
			va_end(this->a);
		}
	} e{args};
	return utki::make_string_va_list(format, args);
}

void formatted()
{
	// the result's length is around the size of the internal buffer, or anything
	std::string s, want;
	int n = int(sim::choose(2000)) - 1000;
	char c = char(sim::choose(256));
	double d = double(int(sim::choose(20000)) - 10000) / 64;
	uint32_t form = sim::choose(5);
	bool va = sim::coin();
	{
		sim::quiet q;
		uint32_t len = sim::choose(4) == 0 ? sim::choose(40) : sim::choose(3) == 0 ? sim::choose(6000) : 1000 + sim::choose(50);
		if (form == 0 && sim::coin())
			len = 1021 + sim::choose(6);
		for (uint32_t i = 0; i < len; ++i)
			s.push_back(char('!' + (i * 7 + i / 90) % 90));
		std::vector<char> buf(8000);
		int k = 0;
		switch (form) {
			case 0:
				k = snprintf(buf.data(), buf.size(), "%s", s.c_str());
				break;
			case 1:
				k = snprintf(buf.data(), buf.size(), "%d%s%%", n, s.c_str());
				break;
			case 2:
				k = snprintf(buf.data(), buf.size(), "%s%c%.3f", s.c_str(), c, d);
				break;
			case 3:
				k = snprintf(buf.data(), buf.size(), "%s%s%x%ld", s.c_str(), s.size() < 1500 ? s.c_str() : "", unsigned(n), long(n));
				break;
			default:
				k = snprintf(buf.data(), buf.size(), "%*d|%-8.3s|", int(s.size()), n, s.c_str());
				break;
		}
		want.assign(buf.data(), size_t(k));
		if (want.size() >= 1022 && want.size() <= 1026)
			sim::probe("length-around-1024");
	}
	std::string before = s;
	probe_builder(
		"make_string(format)",
		with_format,
		[&] {
			switch (form) {
				case 0:
					return va ? via_va_list("%s", s.c_str()) : utki::make_string("%s", s.c_str());
				case 1:
					return va ? via_va_list("%d%s%%", n, s.c_str()) : utki::make_string("%d%s%%", n, s.c_str());
				case 2:
					return va ? via_va_list("%s%c%.3f", s.c_str(), c, d) : utki::make_string("%s%c%.3f", s.c_str(), c, d);
				case 3:
					return va ? via_va_list("%s%s%x%ld", s.c_str(), s.size() < 1500 ? s.c_str() : "", unsigned(n), long(n))
							  : utki::make_string("%s%s%x%ld", s.c_str(), s.size() < 1500 ? s.c_str() : "", unsigned(n), long(n));
				default:
					return va ? via_va_list("%*d|%-8.3s|", int(s.size()), n, s.c_str())
							  : utki::make_string("%*d|%-8.3s|", int(s.size()), n, s.c_str());
			}
		},
		want
	);
	unchanged("make_string(format)", s == before);
}

void of_buffers()
{
	std::string s = draw_text(400);
	exact<char> buf(s.data(), s.size());
	auto span = utki::make_span(static_cast<const char*>(buf.p), buf.n);
	auto span8 = utki::make_span(reinterpret_cast<const uint8_t*>(buf.p), buf.n);
	switch (sim::choose(8)) {
		case 6:
			{
				std::vector<char> want(s.begin(), s.end());
				probe_builder("make_vector", 0, [&] { return utki::make_vector(span); }, want);
				unchanged("make_vector", std::string_view(buf.p, buf.n) == s);
				break;
			}
		case 7:
			{
				std::vector<std::string> items;
				{
					sim::quiet q;
					for (uint32_t n = sim::choose(12); n; --n)
						items.push_back(draw_text(30));
				}
				auto want = items;
				probe_builder("make_vector(strings)", 0, [&] { return utki::make_vector(utki::make_span(items)); }, want);
				unchanged("make_vector", items == want);
				break;
			}
		case 0:
			probe_builder("make_string(span)", 0, [&] { return utki::make_string(span); }, s);
			break;
		case 1:
			probe_builder("make_string(span8)", 0, [&] { return utki::make_string(span8); }, s);
			break;
		case 2:
			{
				std::vector<char> v(s.begin(), s.end());
				probe_builder("make_string(vector)", 0, [&] { return utki::make_string(v); }, s);
				break;
			}
		case 3:
			{
				std::vector<uint8_t> v(s.begin(), s.end());
				probe_builder("make_string(vector8)", 0, [&] { return utki::make_string(v); }, s);
				break;
			}
		case 4:
			{
				std::array<char, 37> a;
				for (size_t i = 0; i < a.size(); ++i)
					a[i] = i < s.size() ? s[i] : char(i);
				probe_builder("make_string(array)", 0, [&] { return utki::make_string(a); }, std::string(a.begin(), a.end()));
				break;
			}
		default:
			{
				std::array<uint8_t, 37> a;
				for (size_t i = 0; i < a.size(); ++i)
					a[i] = i < s.size() ? uint8_t(s[i]) : uint8_t(i);
				probe_builder("make_string(array8)", 0, [&] { return utki::make_string(a); }, std::string(a.begin(), a.end()));
				break;
			}
	}
}

void splitting()
{
	std::string s = draw_text(300);
	exact<char> buf(s.data(), s.size());
	std::string_view view(buf.p, buf.n);
	std::vector<std::string> want;
	if (sim::coin()) {
		{
			sim::quiet q;
			std::string cur;
			for (char c : s) {
				if (c == ' ' || (c >= '\t' && c <= '\r')) {
					if (!cur.empty())
						want.push_back(cur);
					cur.clear();
				} else
					cur.push_back(c);
			}
			if (!cur.empty())
				want.push_back(cur);
		}
		probe_builder("split", 0, [&] { return utki::split(view); }, want);
	} else {
		char d = s.empty() || sim::chance(1, 4) ? ',' : s[sim::choose(uint32_t(s.size()))];
		{
			sim::quiet q;
			want.emplace_back();
			for (char c : s) {
				if (c == d)
					want.emplace_back();
				else
					want.back().push_back(c);
			}
		}
		switch (sim::choose(4)) {
			case 0:
				probe_builder("split(delimiter)", 0, [&] { return utki::split(view, d); }, want);
				break;
			case 1:
				probe_builder("split(delimiter)", 0, [&] { return utki::split(s, d); }, want);
				break;
			case 2:
				{
					std::u32string wide;
					std::vector<std::u32string> wwant;
					{
						sim::quiet q;
						for (char c : s)
							wide.push_back(char32_t(uint8_t(c)));
						for (auto& w : want) {
							wwant.emplace_back();
							for (char c : w)
								wwant.back().push_back(char32_t(uint8_t(c)));
						}
					}
					probe_builder("split(delimiter)", 0, [&] { return utki::split(wide, char32_t(uint8_t(d))); }, wwant);
					break;
				}
			default:
				if (s.find('\0') == std::string::npos)
					probe_builder("split(delimiter)", 0, [&] { return utki::split(s.c_str(), d); }, want);
				break;
		}
		unchanged("split", std::string_view(buf.p, buf.n) == s);
	}
}

void joining()
{
	std::vector<std::string> parts;
	std::string want;
	char d = sim::coin() ? ',' : char(sim::choose(256));
	{
		sim::quiet q;
		uint32_t n = sim::choose(3) == 0 ? sim::choose(40) : sim::choose(5);
		for (uint32_t i = 0; i < n; ++i) {
			parts.push_back(draw_text(200));
			want += (i ? std::string(1, d) : std::string()) + parts.back();
		}
	}
	auto before = parts;
	switch (sim::choose(5)) {
		case 0:
			probe_builder("join", 0, [&] { return utki::join(parts, d); }, want);
			break;
		case 4:
			{
				std::vector<std::wstring> wide;
				std::wstring w;
				{
					sim::quiet q;
					for (auto& x : parts) {
						wide.emplace_back();
						for (char c : x)
							wide.back().push_back(wchar_t(uint8_t(c)));
					}
					for (size_t i = 0; i < wide.size(); ++i)
						w += (i ? std::wstring(1, L'\x263a') : std::wstring()) + wide[i];
				}
				probe_builder("join", 0, [&] { return utki::join(wide, L'\x263a'); }, w);
				break;
			}
		case 1:
			{
				std::vector<std::string_view> v(parts.begin(), parts.end());
				probe_builder("join", 0, [&] { return utki::join(v, d); }, want);
				break;
			}
		case 2:
			{
				std::list<std::string> l(parts.begin(), parts.end());
				probe_builder("join", 0, [&] { return utki::join(l, d); }, want);
				break;
			}
		default:
			{
				std::array<std::string, 3> a;
				std::string w;
				for (size_t i = 0; i < 3; ++i) {
					if (i < parts.size())
						a[i] = parts[i];
					w += (i ? std::string(1, d) : std::string()) + a[i];
				}
				probe_builder("join", 0, [&] { return utki::join(a, d); }, w);
				break;
			}
	}
	unchanged("join", parts == before);
}

void concatenating()
{
	std::string a = draw_text(1500), b = draw_text(600);
	if (sim::chance(1, 3)) {
		// growth of the text happens inside of one piece or the other
		sim::quiet q;
		a.resize(450 + sim::choose(130), 'q');
	}
	int n = int(sim::choose(0));
	char c = char(sim::choose(256));
	streamable x{draw_text(300)}, y{draw_text(40)};
	std::string want;
	uint32_t form = sim::choose(6);
	{
		sim::quiet q;
		std::string num = std::to_string(n);
		want = form == 0 ? a + b
			: form == 1	 ? a + num + b
			: form == 2	 ? a + x.text + y.text + num
			: form == 3	 ? x.text + std::string(1, c) + a + "literal" + b
			: form == 4	 ? a
						 : x.text + a + y.text + b + x.text + num + a + y.text;
	}
	std::string a0 = a, b0 = b;
	probe_builder(
		"cat",
		with_writer,
		[&] {
			switch (form) {
				case 0:
					return utki::cat(a, std::string_view(b));
				case 1:
					return utki::cat(a, n, b);
				case 2:
					return utki::cat(a, x, y, n);
				case 3:
					return utki::cat(x, c, a, "literal", b);
				case 4:
					return utki::cat(a);
				default:
					return utki::cat(x, a, y, b, x, n, a, y);
			}
		},
		want
	);
	unchanged("cat", a == a0 && b == b0);
}

// What word_wrap does, on positions: the text is cut into spans of spaces and of other characters. A line which is full ends
// before the word that does not fit (without the spaces there), or in the middle of a word which is alone in its line;
// spaces that do not fit are dropped.
std::vector<std::string> wrapped(const std::string& s, unsigned width)
{
	std::vector<std::string> lines;
	if (!width)
		return {s};
	size_t line = 0, span = 0;
	bool word = false; // a word has ended in this line
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] != '\n' && i - line == width) {
			bool spaces = s[span] == ' ';
			if (spaces && word) {
				lines.push_back(s.substr(line, span - line));
				line = span + 1;
			} else if (spaces) {
				line = span = i;
			} else if (word) {
				lines.push_back(s.substr(line, span - 1 - line));
				line = span;
			} else {
				lines.push_back(s.substr(line, width));
				line = span = i;
			}
			word = false;
		}
		if (s[i] == '\n') {
			lines.push_back(s.substr(line, i - line));
			line = span = i + 1;
			word = false;
		} else if (s[i] == ' ' && s[span] != ' ') {
			span = i;
			word = true;
		} else if (s[i] != ' ' && s[span] == ' ')
			span = i;
	}
	if (span == s.size() || s[span] != ' ')
		lines.push_back(s.substr(line));
	else if (word)
		lines.push_back(s.substr(line, span - line));
	return lines;
}

void wrapping()
{
	std::string s;
	{
		sim::quiet q;
		uint32_t n = sim::choose(30);
		for (uint32_t i = 0; i < n; ++i) {
			s.append(sim::choose(14), char('a' + i % 26));
			s.append(sim::chance(1, 6) ? sim::choose(5) : 1, sim::chance(1, 8) ? '\n' : ' ');
		}
	}
	unsigned width = sim::chance(1, 10) ? 0 : sim::chance(1, 8) ? ~0u - sim::choose(2) : sim::range(1, 40);
	exact<char> buf(s.data(), s.size());
	std::string_view view(buf.p, buf.n);
	std::vector<std::string> want;
	{
		sim::quiet q;
		want = utki::word_wrap(view, width);
		// the text without white space is all there, in lines that are short enough
		std::string in, out;
		for (char c : s)
			if (c != ' ' && c != '\n')
				in.push_back(c);
		for (auto& l : want) {
			if (width && l.size() > width)
				sim::fail("result", "word_wrap to %u gave a line of %zu characters", width, l.size());
			if (width && l.find('\n') != std::string::npos)
				sim::fail("result", "word_wrap left a new-line character in a line");
			for (char c : l)
				if (c != ' ' && c != '\n')
					out.push_back(c);
		}
		if (in != out)
			sim::fail("result", "word_wrap to %u lost or added text", width);
		size_t blank = 0, breaks = 0;
		for (auto& l : want)
			blank += l.empty();
		for (char c : s)
			breaks += c == '\n';
		if (width && blank > breaks + 1)
			sim::fail("result", "word_wrap to %u made up %zu empty lines", width, blank);
		if (want != wrapped(s, width))
			sim::fail("result", "word_wrap to %u cut the text at other places", width);
		if (!width && (want.size() != 1 || want[0] != s))
			sim::fail("result", "word_wrap without a limit changed the text");
	}
	probe_builder("word_wrap", 0, [&] { return utki::word_wrap(view, width); }, want);
}

struct grouping : std::numpunct<char> {
	char do_thousands_sep() const override
	{
		return '\'';
	}
	std::string do_grouping() const override
	{
		return "\1";
	}
	char do_decimal_point() const override
	{
		return ',';
	}
	std::string do_truename() const override
	{
		return "oui";
	}
};

template <class t>
std::string in_base(t v, unsigned base)
{
	bool neg = std::is_signed_v<t> && v < 0;
	using u = std::make_unsigned_t<t>;
	u m = neg ? u(0) - u(v) : u(v);
	std::string r;
	do
		r.insert(r.begin(), "0123456789abcdef"[m % base]);
	while ((m = u(m / base)) != 0);
	if constexpr (std::is_unsigned_v<t>)
		r = (base == 2 ? "0b" : base == 8 ? "0" : base == 16 ? "0x" : "") + r;
	return neg ? "-" + r : r;
}
template <class t>
void number_of(uint64_t raw)
{
	static const std::pair<utki::integer_base, unsigned> bases[] = {
		{utki::integer_base::dec, 10},
		{utki::integer_base::bin, 2},
		{utki::integer_base::oct, 8},
		{utki::integer_base::hex, 16}};
	auto b = sim::pick(bases);
	t v = t(raw);
	std::string want;
	{
		sim::quiet q;
		want = in_base(v, b.second);
	}
	if (b.second == 10 && sim::coin())
		probe_builder("to_string(number)", 0, [&] { return utki::to_string(v); }, want);
	else
		probe_builder("to_string(number)", 0, [&] { return utki::to_string(v, b.first); }, want);
}
void numbers()
{
	// the global locale of the process is whatever the program made it
	bool odd = sim::coin();
	std::locale old;
	if (odd) {
		sim::quiet q;
		sim::fault("global-locale");
		old = std::locale::global(std::locale(std::locale::classic(), new grouping));
	}
	struct back {
		bool odd;
		std::locale& old;
		~back()
		{
			if (this->odd) {
				sim::quiet q;
				std::locale::global(this->old);
			}
		}
	} guard{odd, old};
	uint64_t raw = sim::coin() ? sim::choose64() : sim::choose64() >> sim::choose(64);
	if (sim::chance(1, 4))
		raw = ~raw;
	if (sim::chance(1, 6))
		raw = uint64_t(1) << sim::choose(64);
	switch (sim::choose(8)) {
		case 0:
			number_of<int8_t>(raw);
			break;
		case 1:
			number_of<uint8_t>(raw);
			break;
		case 2:
			number_of<int16_t>(raw);
			break;
		case 3:
			number_of<uint16_t>(raw);
			break;
		case 4:
			number_of<int32_t>(raw);
			break;
		case 5:
			number_of<uint32_t>(raw);
			break;
		case 6:
			number_of<int64_t>(raw);
			break;
		default:
			number_of<uint64_t>(raw);
			break;
	}
}

// what cannot fit in memory is refused, not cut
void too_big()
{
	// more than the simulated memory, with a product that does or does not fit in 32 bits
	unsigned a_bits = 1 + sim::choose(31);
	unsigned b_bits = std::max(30 - std::min(30u, a_bits), 31 - sim::choose(32));
	unsigned a = 1u << a_bits, b = 1u << b_bits;
	if (sim::coin())
		a |= sim::choose(a);
	if (sim::coin())
		b |= sim::choose(b);
	sim::ev("too-big", a, b);
	sim::fault("out-of-memory");
	bool refused = false;
	size_t got = 0;
	try {
		std::string s = utki::make_indentation(a, b);
		got = s.size();
	} catch (std::bad_alloc&) {
		refused = true;
	} catch (std::length_error&) {
		refused = true;
	}
	if (!refused)
		sim::fail("cut", "make_indentation(%u, %u) is %zu characters long", a, b, got);
}

void indentation()
{
	if (sim::chance(1, 8)) {
		too_big();
		return;
	}
	unsigned depth = sim::choose(60), size = sim::choose(9);
	std::string want(size ? depth * size : depth, size ? ' ' : '\t');
	probe_builder("make_indentation", 0, [&] { return size || sim::coin() ? utki::make_indentation(depth, size) : utki::make_indentation(depth); }, want);
}

void unicode()
{
	std::u32string text;
	std::string enc;
	{
		sim::quiet q;
		uint32_t n = sim::choose(3) == 0 ? sim::choose(400) : sim::choose(30);
		for (uint32_t i = 0; i < n; ++i) {
			char32_t c = char32_t(sim::choose(0) >> (sim::chance(1, 4) ? 1 + sim::choose(10) : 11 + sim::choose(20)));
			if (!c)
				c = 'x';
			text.push_back(c);
			if (c < 0x80)
				enc.push_back(char(c));
			else if (c < 0x800) {
				enc.push_back(char(0xc0 | c >> 6));
				enc.push_back(char(0x80 | (c & 63)));
			} else if (c < 0x10000) {
				enc.push_back(char(0xe0 | c >> 12));
				enc.push_back(char(0x80 | (c >> 6 & 63)));
				enc.push_back(char(0x80 | (c & 63)));
			} else if (c >= 0x200000) {
				bool six = c >= 0x4000000;
				enc.push_back(six ? char(0xfc | c >> 30) : char(0xf8 | c >> 24));
				for (int sh = six ? 24 : 18; sh >= 0; sh -= 6)
					enc.push_back(char(0x80 | (c >> sh & 63)));
			} else {
				enc.push_back(char(0xf0 | c >> 18));
				enc.push_back(char(0x80 | (c >> 12 & 63)));
				enc.push_back(char(0x80 | (c >> 6 & 63)));
				enc.push_back(char(0x80 | (c & 63)));
			}
		}
	}
	exact<char32_t> wide(text.data(), text.size());
	exact<char> narrow(enc.data(), enc.size());
	auto wspan = utki::make_span(static_cast<const char32_t*>(wide.p), wide.n);
	auto span = utki::make_span(static_cast<const char*>(narrow.p), narrow.n);
	switch (sim::choose(7)) {
		case 0:
			probe_builder("to_utf8(span)", 0, [&] { return utki::to_utf8(wspan); }, enc);
			break;
		case 1:
			probe_builder("to_utf8(string)", 0, [&] { return utki::to_utf8(text); }, enc);
			break;
		case 2:
			probe_builder("to_utf32(span)", 0, [&] { return utki::to_utf32(span); }, text);
			break;
		case 3:
			probe_builder("to_utf32(span8)", 0, [&] { return utki::to_utf32(utki::to_uint8_t(span)); }, text);
			break;
		case 4:
			probe_builder("to_utf32(string)", 0, [&] { return utki::to_utf32(enc); }, text);
			break;
		case 5:
			probe_builder("to_utf32(zero-terminated)", 0, [&] { return utki::to_utf32(enc.c_str()); }, text);
			break;
		default:
			probe_builder("to_utf32(iterator)", 0, [&] { return utki::to_utf32(utki::utf8_iterator(std::string_view(enc))); }, text);
			break;
	}
	unchanged("a conversion", std::u32string(wide.p, wide.n) == text && std::string(narrow.p, narrow.n) == enc);
}

void base64()
{
	static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::vector<uint8_t> bytes;
	std::string enc;
	{
		sim::quiet q;
		uint32_t n = sim::choose(3) == 0 ? sim::choose(300) : sim::choose(20);
		uint32_t acc = 0, have = 0;
		for (uint32_t i = 0; i < n; ++i) {
			bytes.push_back(uint8_t(sim::choose(256)));
			acc = acc << 8 | bytes.back();
			for (have += 8; have >= 6;) {
				have -= 6;
				enc.push_back(alphabet[acc >> have & 63]);
			}
		}
		if (have)
			enc.push_back(alphabet[acc << (6 - have) & 63]);
		if (sim::coin())
			enc.append((4 - enc.size() % 4) % 4, '=');
	}
	exact<char> buf(enc.data(), enc.size());
	probe_builder("base64_decode", 0, [&] { return utki::base64_decode(std::string_view(buf.p, buf.n)); }, bytes);
}

template <class t>
struct tagged {
	t x;
};
void type_names()
{
	static const std::type_info* const types[] = {
		&typeid(int),
		&typeid(std::string),
		&typeid(tagged<std::map<std::string, std::vector<tagged<int>>>>),
		&typeid(owner),
		&typeid(std::logic_error),
		&typeid(void (*)(const owner&, std::unordered_map<int, tagged<owner>>)),
		&typeid(const volatile char* const*)};
	auto& t = *sim::pick(types);
	std::string want, raw;
	{
		sim::quiet q;
		int st = 0;
		char* p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
		want = p ? p : t.name();
		free(p);
		raw = t.name();
	}
	probe_builder("demangle", with_demangle | may_fall_back, [&] { return utki::demangle(t); }, want, &raw);
}

void maps()
{
	std::map<owner, owner> m;
	std::map<owner, owner> want;
	{
		sim::quiet q;
		uint32_t n = sim::choose(12);
		for (uint32_t i = 0; i < n; ++i)
			m.emplace(owner{draw_text(40)}, owner{std::to_string(i) + draw_text(40)});
		for (auto& p : m)
			want.emplace(p.second, p.first);
	}
	auto before = m;
	switch (sim::choose(4)) {
		case 0:
			probe_builder("flip_map", 0, [&] { return utki::flip_map(m); }, want);
			break;
		case 1:
			{
				// values that occur twice: one of their keys is left
				std::map<int, int> dup;
				uint32_t n = sim::choose(10);
				for (uint32_t i = 0; i < n; ++i)
					dup[int(sim::choose(20))] = int(sim::choose(5));
				auto f = utki::flip_map(dup);
				for (auto& p : f)
					if (!dup.count(p.second) || dup[p.second] != p.first)
						sim::fail("result", "flip_map made up an entry");
				for (auto& p : dup)
					if (!f.count(p.second))
						sim::fail("result", "flip_map lost a value");
				break;
			}
		case 2:
			{
				std::map<std::string, std::string, std::greater<std::string>> src;
				std::map<std::string, std::string, by_size> w;
				{
					sim::quiet q;
					uint32_t n = sim::choose(10);
					for (uint32_t i = 0; i < n; ++i)
						src.emplace("key of some length " + std::to_string(i), std::string(i * 3, 'v'));
					for (auto& p : src)
						w.emplace(p.second, p.first);
				}
				probe_builder("flip_map(order)", 0, [&] { return utki::flip_map<by_size>(src); }, w);
				break;
			}
		default:
			{
				std::pair<owner, std::string> p{owner{draw_text(60)}, draw_text(60)};
				std::pair<std::string, owner> w{p.second, p.first};
				probe_builder("flip_pair", 0, [&] { return utki::flip_pair(p); }, w);
				break;
			}
	}
	unchanged("flip_map", m == before);
}
} // namespace

static void scenario()
{
	writer_fail_in = 0;
	writers_failed = 0;
	uint32_t n = sim::range(1, 3);
	for (uint32_t i = 0; i < n; ++i) {
		switch (sim::choose(12)) {
			case 0:
			case 1:
				formatted();
				break;
			case 2:
				of_buffers();
				break;
			case 3:
				splitting();
				break;
			case 4:
				joining();
				break;
			case 5:
				concatenating();
				break;
			case 6:
				wrapping();
				break;
			case 7:
				if (sim::chance(1, 4))
					indentation();
				else
					numbers();
				break;
			case 8:
				unicode();
				break;
			case 9:
				base64();
				break;
			case 10:
				type_names();
				break;
			default:
				maps();
				break;
		}
	}
}

void scenario_run()
{
	ambient(scenario);
}
