// C17: stored text is damaged and read through the string parser, against a model that has the text and a position.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <locale>
#include <stdexcept>
#include <string>

#include <utki/string.hpp>

#include "common.hpp"

const char* const scenario_id = "C17";

namespace {
bool space(char c)
{
	return c == ' ' || (c >= '\t' && c <= '\r');
}
bool digit(char c, unsigned base)
{
	return base <= 10 ? c >= '0' && c < char('0' + base) : (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
unsigned digit_value(char c)
{
	return c <= '9' ? unsigned(c - '0') : unsigned((c | 32) - 'a' + 10);
}

// What reading a number from a text gives.
template <class t>
struct number {
	size_t end; // how far the text is consumed
	bool there;
	t value;
};

// digits from p on
template <class t>
number<t> whole_number(const std::string& s, size_t p, unsigned base, bool negative)
{
	size_t i = p;
	unsigned __int128 v = 0;
	bool big = false;
	for (; i < s.size() && digit(s[i], base); ++i) {
		v = v * base + digit_value(s[i]);
		if (v >> 65)
			big = true;
		if (big)
			v &= (~(unsigned __int128)(0)) >> 8;
	}
	if (i == p)
		return {p, false, 0};
	using lim = std::numeric_limits<t>;
	unsigned __int128 most = negative ? (unsigned __int128)(uint64_t(lim::max())) + (std::is_signed_v<t> ? 1 : 0) : (unsigned __int128)(uint64_t(lim::max()));
	if (big || v > most)
		return {i, true, 0}; // out of range: documented to give zero
	t r = negative ? t(-__int128(v)) : t(v);
	return {i, true, r};
}

template <class t>
number<t> reference(const std::string& s, size_t p)
{
	while (p < s.size() && space(s[p]))
		++p;
	if constexpr (std::is_floating_point_v<t>) {
		size_t i = p;
		if (i < s.size() && s[i] == '-')
			++i;
		size_t digits = 0;
		for (; i < s.size() && digit(s[i], 10); ++i)
			++digits;
		if (i < s.size() && s[i] == '.') {
			size_t j = i + 1, more = 0;
			for (; j < s.size() && digit(s[j], 10); ++j)
				++more;
			if (digits + more)
				i = j;
			digits += more;
		}
		if (!digits)
			return {p, false, 0};
		if (i < s.size() && (s[i] | 32) == 'e') {
			size_t j = i + 1;
			if (j < s.size() && (s[j] == '-' || s[j] == '+'))
				++j;
			size_t first = j;
			while (j < s.size() && digit(s[j], 10))
				++j;
			if (j > first)
				i = j;
		}
		std::string lit = s.substr(p, i - p);
		t v;
		if constexpr (std::is_same_v<t, float>)
			v = strtof(lit.c_str(), nullptr);
		else
			v = t(strtod(lit.c_str(), nullptr)); // long double is read with the precision of double
		if (std::isinf(v))
			v = 0; // out of range
		return {i, true, v};
	} else if constexpr (std::is_signed_v<t>) {
		bool neg = p < s.size() && s[p] == '-';
		auto r = whole_number<t>(s, p + neg, 10, neg);
		if (!r.there)
			r.end = p;
		return r;
	} else {
		if (p < s.size() && s[p] == '0') {
			// a prefix tells the base
			size_t q = p + 1;
			if (q == s.size())
				return {q, true, 0};
			if (s[q] == 'x' || s[q] == 'b') {
				unsigned base = s[q] == 'x' ? 16 : 2;
				if (q + 1 < s.size() && digit(s[q + 1], base))
					return whole_number<t>(s, q + 1, base, false);
				return {q, true, 0};
			}
			if (digit(s[q], 8))
				return whole_number<t>(s, q, 8, false);
			if (!digit(s[q], 10))
				return {q, true, 0};
			return whole_number<t>(s, q, 10, false);
		}
		return whole_number<t>(s, p, 10, false);
	}
}

struct comma_point : std::numpunct<char> {
	char do_decimal_point() const override
	{
		return ',';
	}
	char do_thousands_sep() const override
	{
		return '.';
	}
	std::string do_grouping() const override
	{
		return "\3";
	}
};

struct session {
	std::string text; // of the model
	exact<char> buf; // what the parser has
	std::vector<std::pair<std::string_view, size_t>> stretches;

	explicit session(const std::string& t) :
		text(t),
		buf(t.data(), t.size())
	{}

	struct reader {
		utki::string_parser p;
		size_t pos;
	};
	reader start()
	{
		return {utki::string_parser(std::string_view(this->buf.p, this->buf.n)), 0};
	}

	void where(const reader& r, const char* what)
	{
		size_t rest = this->text.size() - r.pos;
		auto v = r.p.get_view();
		if (r.p.size() != rest || v.size() != rest)
			sim::fail("position", "after %s: %zu characters remain, %zu expected", what, v.size(), rest);
		if (r.p.empty() != (rest == 0))
			sim::fail("position", "after %s: empty() is wrong", what);
		if (rest && v.data() != this->buf.p + r.pos)
			sim::fail("position", "after %s: what remains is not the rest of the text", what);
	}
	void stretch(const reader& r, const char* what, std::string_view got, size_t from, size_t to)
	{
		(void)r;
		if (got != std::string_view(this->text).substr(from, to - from))
			sim::fail("stretch", "%s gave %zu characters, not the expected %zu", what, got.size(), to - from);
		this->stretches.emplace_back(got, from);
	}
	size_t find(size_t from, bool (*is)(char, const std::string&), const std::string& set)
	{
		while (from < this->text.size() && !is(this->text[from], set))
			++from;
		return from;
	}

	// runs f, which is to be refused or not; true if it was
	template <class fn>
	bool refused(const char* what, bool expected, fn f)
	{
		bool r = false;
		uint32_t fail_at = sim::chance(1, 5) ? sim::range(1, 5) : 0;
		try {
			sim::alloc_scope as(fail_at, sim::coin());
			f();
		} catch (std::invalid_argument& e) {
			r = true;
			if (!e.what()[0])
				sim::fail("refusal", "a refusal without a message");
		} catch (std::bad_alloc&) {
			if (!fail_at)
				sim::fail("wrong-exception", "%s: bad_alloc although memory did not fail", what);
			r = true;
			sim::probe("refused-without-memory");
		}
		sim::ev(what, r, expected);
		if (r != expected)
			sim::fail("refusal", "%s was %s", what, r ? "refused although there is something to read" : "not refused");
		if (r)
			sim::probe(what);
		return r;
	}

	template <class t>
	void read_number(reader& r, const char* what)
	{
		auto want = reference<t>(this->text, r.pos);
		t got{};
		bool no = this->refused(what, !want.there, [&] { got = r.p.template read_number<t>(); });
		r.pos = want.end;
		if (!no && !(got == want.value))
			sim::fail("number", "%s gave %Lg instead of %Lg", what, (long double)got, (long double)want.value);
		this->where(r, what);
	}

	void step(reader& r)
	{
		const std::string& t = this->text;
		auto is_in = [](char c, const std::string& set) { return set.find(c) != std::string::npos; };
		auto is_space = [](char c, const std::string&) { return space(c); };
		auto is_space_or_in = [](char c, const std::string& set) { return space(c) || set.find(c) != std::string::npos; };
		// a character to look for: one that is ahead, or any
		auto any = [&]() -> char {
			if (r.pos < t.size() && sim::coin())
				return t[r.pos + sim::choose(uint32_t(t.size() - r.pos))];
			return sim::chance(1, 4) ? char(sim::choose(256)) : ",:; \n(0"[sim::choose(7)];
		};
		size_t from = r.pos;
		switch (sim::choose(22)) {
			case 0:
				r.p.skip_whitespaces();
				while (r.pos < t.size() && space(t[r.pos]))
					++r.pos;
				this->where(r, "skip_whitespaces");
				break;
			case 1:
				{
					r.p.skip_whitespaces_and_comma();
					bool comma = false;
					for (; r.pos < t.size(); ++r.pos) {
						if (space(t[r.pos]))
							continue;
						if (t[r.pos] != ',' || comma)
							break;
						comma = true;
					}
					this->where(r, "skip_whitespaces_and_comma");
					break;
				}
			case 2:
				{
					std::string c(1, any());
					r.p.skip_inclusive_until(c[0]);
					r.pos = this->find(from, is_in, c);
					if (r.pos < t.size())
						++r.pos;
					this->where(r, "skip_inclusive_until");
					break;
				}
			case 3:
				{
					std::string set;
					for (uint32_t n = sim::choose(4); n; --n)
						set.push_back(any());
					exact<char> chars(set.data(), set.size());
					char got = r.p.skip_inclusive_until_one_of(utki::make_span(static_cast<const char*>(chars.p), chars.n));
					r.pos = this->find(from, is_in, set);
					char want = r.pos < t.size() ? t[r.pos++] : '\0';
					if (got != want)
						sim::fail("stretch", "skip_inclusive_until_one_of stopped at another character");
					this->where(r, "skip_inclusive_until_one_of");
					break;
				}
			case 4:
			case 5:
				{
					auto got = r.p.read_word();
					r.pos = this->find(from, is_space, "");
					this->stretch(r, "read_word", got, from, r.pos);
					this->where(r, "read_word");
					break;
				}
			case 6:
				{
					std::string c(1, any());
					auto got = r.p.read_word_until(c[0]);
					r.pos = this->find(from, is_space_or_in, c);
					this->stretch(r, "read_word_until", got, from, r.pos);
					this->where(r, "read_word_until");
					break;
				}
			case 7:
				{
					std::string c(1, any());
					auto got = r.p.read_chars_until(c[0]);
					r.pos = this->find(from, is_in, c);
					this->stretch(r, "read_chars_until", got, from, r.pos);
					this->where(r, "read_chars_until");
					break;
				}
			case 8:
				{
					size_t rest = t.size() - r.pos;
					size_t n = sim::coin() ? sim::choose(6) : sim::coin() ? rest + sim::choose(2) : sim::coin() ? ~size_t(0) - sim::choose(uint32_t(rest + 2)) : size_t(1) << sim::choose(64);
					auto got = r.p.read_chars(n);
					r.pos += n < rest ? n : rest;
					this->stretch(r, "read_chars", got, from, r.pos);
					this->where(r, "read_chars");
					break;
				}
			case 9:
				{
					char c = 0;
					bool no = this->refused("read_char", r.pos == t.size(), [&] { c = r.p.read_char(); });
					if (!no && c != t[r.pos++])
						sim::fail("stretch", "read_char gave another character");
					this->where(r, "read_char");
					break;
				}
			case 10:
				{
					char c = 0;
					bool no = this->refused("peek_char", r.pos == t.size(), [&] { c = static_cast<const utki::string_parser&>(r.p).peek_char(); });
					if (!no && c != t[r.pos])
						sim::fail("stretch", "peek_char gave another character");
					this->where(r, "peek_char");
					break;
				}
			case 11:
				{
					size_t rest = t.size() - r.pos;
					size_t n = sim::coin() ? sim::choose(6) : sim::coin() ? rest + sim::choose(3) - (rest ? 1 : 0) : sim::coin() ? ~size_t(0) - sim::choose(uint32_t(r.pos + 2)) : size_t(1) << sim::choose(64);
					char c = 0;
					bool no = this->refused("peek_char(n)", n >= rest, [&] { c = static_cast<const utki::string_parser&>(r.p).peek_char(n); });
					if (!no && c != t[r.pos + n])
						sim::fail("stretch", "peek_char(%zu) gave another character", n);
					this->where(r, "peek_char(n)");
					break;
				}
			case 12:
				this->read_number<int8_t>(r, "read_number<int8_t>");
				break;
			case 13:
				this->read_number<uint8_t>(r, "read_number<uint8_t>");
				break;
			case 14:
				if (sim::coin())
					this->read_number<int16_t>(r, "read_number<int16_t>");
				else
					this->read_number<uint16_t>(r, "read_number<uint16_t>");
				break;
			case 15:
				this->read_number<int32_t>(r, "read_number<int32_t>");
				break;
			case 16:
				this->read_number<uint32_t>(r, "read_number<uint32_t>");
				break;
			case 17:
				this->read_number<int64_t>(r, "read_number<int64_t>");
				break;
			case 18:
				this->read_number<uint64_t>(r, "read_number<uint64_t>");
				break;
			default:
				{
					size_t i = from;
					while (i < t.size() && space(t[i]))
						++i;
					if (i < t.size() && t[i] == '-')
						++i;
					if (i < t.size() && ((t[i] | 32) == 'i' || (t[i] | 32) == 'n'))
						break; // may be an infinity or no number: not judged
					switch (sim::choose(3)) {
						case 0:
							this->read_number<float>(r, "read_number<float>");
							break;
						case 1:
							this->read_number<double>(r, "read_number<double>");
							break;
						default:
							this->read_number<long double>(r, "read_number<long double>");
							break;
					}
					break;
				}
		}
	}
	void check_stretches()
	{
		for (auto& s : this->stretches)
			if (s.first != std::string_view(this->text).substr(s.second, s.first.size()))
				sim::fail("stretch", "a stretch that was read has changed");
		if (std::string_view(this->buf.p, this->buf.n) != this->text)
			sim::fail("text-changed", "the text was written to");
	}
};

std::string draw_number()
{
	std::string s;
	if (sim::chance(1, 4))
		s += '-';
	switch (sim::choose(8)) {
		case 0:
			s += "0x";
			for (uint32_t n = sim::choose(18); n; --n)
				s += "0123456789abcdefABCDEF"[sim::choose(22)];
			break;
		case 1:
			s += "0b";
			for (uint32_t n = sim::chance(1, 8) ? 60 + sim::choose(10) : sim::choose(10); n; --n)
				s += char('0' + sim::choose(2));
			break;
		case 2:
			s += "0";
			for (uint32_t n = sim::choose(24); n; --n)
				s += char('0' + sim::choose(sim::chance(1, 8) ? 10 : 8));
			break;
		case 3:
			{
				// around the limits of the types
				uint64_t v = (uint64_t(1) << sim::choose(64)) + sim::choose(3) - 1;
				if (sim::coin())
					v = ~uint64_t(0) - sim::choose(3);
				s += std::to_string(v);
				if (sim::chance(1, 6))
					s += char('0' + sim::choose(10));
				break;
			}
		case 4:
		case 5:
			for (uint32_t n = sim::choose(sim::chance(1, 6) ? 40 : 6); n; --n)
				s += char('0' + sim::choose(10));
			if (sim::chance(3, 4))
				s += '.';
			for (uint32_t n = sim::choose(sim::chance(1, 6) ? 40 : 6); n; --n)
				s += char('0' + sim::choose(10));
			if (sim::coin()) {
				s += sim::coin() ? 'e' : 'E';
				if (sim::coin())
					s += sim::coin() ? '-' : '+';
				if (sim::chance(7, 8))
					s += std::to_string(sim::choose(sim::chance(1, 8) ? 100000 : sim::coin() ? 400 : 12));
			}
			break;
		default:
			for (uint32_t n = sim::range(1, sim::chance(1, 8) ? 25 : 6); n; --n)
				s += char('0' + sim::choose(10));
			break;
	}
	return s;
}
std::string draw_text()
{
	std::string s;
	for (uint32_t n = sim::range(0, sim::thorough() ? 30 : 14); n; --n) {
		switch (sim::choose(5)) {
			case 0:
				for (uint32_t k = sim::choose(8); k; --k)
					s += char('a' + sim::choose(26));
				break;
			case 1:
			case 2:
				s += draw_number();
				break;
			case 3:
				for (uint32_t k = sim::choose(4); k; --k)
					s += " \t\n\r\v\f,,"[sim::choose(8)];
				break;
			default:
				if (sim::chance(1, 6)) {
					static const char* const marks[] = {"\xef\xbb\xbf", "\xc2\xa0", "\xff\xfe", "inf", "nan", "-inf", "Infinity", "0x", "0b", "1e", ".", "-", "+7", "\r\n", "\x1a", "//", "\"a b\""};
					s += sim::pick(marks);
					break;
				}
				s += sim::chance(1, 4) ? char(sim::choose(256)) : ",:;()=+-.\0"[sim::choose(10)];
				break;
		}
		if (sim::chance(2, 3))
			s += sim::chance(1, 4) ? ',' : ' ';
	}
	return s;
}

// few stretches, but long ones
std::string long_text()
{
	sim::probe("long-text");
	std::string s;
	rng r(sim::choose64());
	for (uint32_t n = sim::range(1, 5); n; --n) {
		uint32_t len = sim::chance(1, 20) ? crowd_size() : sim::log_uniform(sim::thorough() ? 15 : 13);
		switch (sim::choose(5)) {
			case 0:
				for (; len; --len)
					s += " \t\n\r\v\f"[r.below(6)];
				break;
			case 1:
				for (; len; --len)
					s += char('0' + r.below(10));
				if (sim::coin())
					s += "." + std::to_string(r.below(1000));
				break;
			case 2:
				s += '0';
				s += std::string(len, '0') + std::to_string(r.below(8));
				break;
			default:
				for (; len; --len)
					s += char(33 + r.below(94));
				break;
		}
		s += ",; x="[sim::choose(5)];
	}
	if (sim::chance(1, 8)) {
		// a round length
		static const size_t round[] = {256, 1024, 4096, 65536};
		size_t n = sim::pick(round) + sim::choose(3);
		if (s.size() < n)
			s.insert(0, n - s.size(), '+');
		else
			s.erase(0, s.size() - n);
	}
	return s;
}

// a text of more characters than fit 32 bits, of which some are looked at
void huge()
{
	size_t size;
	auto* mem = reinterpret_cast<char*>(huge_region(&size));
	if (!mem)
		return;
	sim::probe("text-beyond-4-gigabytes");
	const size_t over = size_t(1) << 32;
	size_t n = size - sim::choose(64);
	size_t pos = over - 32 + sim::choose(64);
	std::string mark;
	for (int i = 0; i < 40; ++i)
		mark += char('a' + sim::choose(26));
	memcpy(mem + pos, mark.data(), mark.size());
	utki::string_parser p(std::string_view(mem, n));
	auto where = [&](size_t at) {
		auto v = p.get_view();
		if (v.data() != mem + at || v.size() != n - at || p.size() != n - at || p.empty())
			sim::fail("remaining", "%zu characters remain of %zu after %zu were read", v.size(), n, at);
	};
	where(0);
	size_t off = sim::choose(40);
	if (p.peek_char(pos + off) != mark[off])
		sim::fail("character", "the character at %zu is wrong", pos + off);
	bool refused = false;
	try {
		p.peek_char(n + (size_t(sim::choose(2)) << 32));
	} catch (std::invalid_argument&) {
		refused = true;
	}
	if (!refused)
		sim::fail("refusal", "a character where none is was given");
	auto s = p.read_chars(pos);
	if (s.data() != mem || s.size() != pos)
		sim::fail("stretch", "reading %zu characters gave %zu", pos, s.size());
	where(pos);
	if (p.read_char() != mark[0] || p.peek_char() != mark[1] || p.read_chars_until(mark[7]) != std::string_view(mark).substr(1, mark.find(mark[7], 1) - 1))
		sim::fail("stretch", "characters beyond 4 gigabytes are wrong");
	memset(mem + pos, 0, mark.size());
}
} // namespace

static void scenario()
{
	if (sim::chance(1, 400)) {
		huge();
		return;
	}
	bool odd_locale = sim::chance(1, 4);
	std::locale old;
	if (odd_locale) {
		sim::quiet q;
		sim::fault("global-locale");
		old = std::locale::global(std::locale(std::locale::classic(), new comma_point));
	}
	struct back {
		bool odd;
		std::locale& old;
		~back()
		{
			if (this->odd) {
				sim::quiet q;
				std::locale::global(this->old);
			}
		}
	} guard{odd_locale, old};

	std::string text = sim::chance(1, 200) ? long_text() : draw_text();
	if (!sim::chance(1, 4)) {
		image stale;
		for (uint32_t n = sim::choose(40); n; --n)
			stale.push_back(uint8_t(sim::coin() ? sim::choose(256) : uint32_t("0123456789 ,.ex-"[sim::choose(16)])));
		image d = damaged(image(text.begin(), text.end()), stale);
		text.assign(d.begin(), d.end());
	}
	if (sim::chance(1, 6)) {
		// the text was cut within a number
		static const char* const ends[] = {"0x", "0b", "0", "-", "00", "0x1", "0b1", "-0", ".", "1.", "1e", "1e-", "1e+", ",", " ", "0xg", "0b2", "08"};
		text += ends[sim::choose(18)];
	}
	sim::ev_bytes("text", text.data(), text.size());
	for (int c = 0; c < 256; ++c)
		if (utki::string_parser::is_space(char(c)) != space(char(c)))
			sim::fail("is-space", "is_space(%d) is wrong", c);

	session s(text);
	auto r = s.start();
	s.where(r, "construction");
	if (sim::chance(1, 4)) {
		size_t n = text.size() - std::min(text.size(), size_t(sim::choose(6)));
		r.p.read_chars(n);
		r.pos = n;
		s.where(r, "read_chars");
	}
	uint32_t steps = sim::range(1, sim::thorough() ? 60 : 25);
	for (uint32_t i = 0; i < steps; ++i) {
		if (sim::chance(1, 8)) {
			auto ahead = r;
			for (uint32_t k = sim::range(1, 3); k; --k)
				s.step(ahead);
			s.where(r, "reads from a copy");
		}
		s.step(r);
		if (r.pos == s.text.size() && sim::coin())
			break;
	}
	s.check_stretches();
}

void scenario_run()
{
	ambient(scenario);
}
