// C14: stored text is damaged and decoded through every input form.
#include <algorithm>
#include <stdexcept>
#include <string>

#include <utki/base64.hpp>
#include <utki/unicode.hpp>

#include "common.hpp"

const char* const scenario_id = "C14";

namespace {
// ---- UTF-8 as the library defines it: up to six bytes, 31 bits -------------------------------------------

void encode(char32_t c, image& out)
{
	unsigned n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
	if (n == 1) {
		out.push_back(uint8_t(c));
		return;
	}
	out.push_back(uint8_t(0xff << (8 - n) | c >> 6 * (n - 1)));
	while (--n)
		out.push_back(uint8_t(0x80 | (c >> 6 * (n - 1) & 0x3f)));
}

// the characters of the longest well-formed leading part; whole: nothing follows it
std::u32string decode(const image& in, bool* whole)
{
	std::u32string r;
	size_t i = 0;
	*whole = false;
	while (i < in.size()) {
		uint8_t b = in[i];
		if (b == 0)
			return r; // a text ends at the zero character
		if (b < 0x80) {
			r.push_back(b);
			++i;
			continue;
		}
		unsigned n = b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : b < 0xfc ? 5 : b < 0xfe ? 6 : 0;
		if (!n || in.size() - i < n)
			return r;
		char32_t c = b & (0x7f >> n);
		for (unsigned j = 1; j < n; ++j) {
			if ((in[i + j] & 0xc0) != 0x80)
				return r;
			c = c << 6 | (in[i + j] & 0x3f);
		}
		image again;
		encode(c, again);
		if (again.size() != n) // not in its shortest form
			return r;
		r.push_back(c);
		i += n;
	}
	*whole = true;
	return r;
}

char32_t draw_char()
{
	static const char32_t edges[] = {'a',	  1,		0x7f,	  0x80,		 0xff,		0x7ff,		0x800,		0xd7ff,
									 0xd800,  0xdfff,	0xfffd,	  0xfffe,	 0xffff,	0x10000,	0x10ffff,	0x110000,
									 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x3fffffff, 0x40000000, 0x7fffffff, ' ',
									 0xfeff,  0xe9,		0xa0,	  0x2028,	 0x301,		0x1f600,	0x200d,		'\n'};
	switch (sim::choose(4)) {
		case 0:
			return char32_t(sim::range(1, 0x7f));
		case 1:
			return sim::pick(edges);
		case 2:
			return char32_t(sim::range(0x80, 0xffff));
		default:
			{
				char32_t c = char32_t(sim::choose(0) >> (1 + sim::choose(24)));
				return c ? c : 1;
			}
	}
}

// long texts are drawn from a generator of their own, seeded once per text
struct quick_random {
	uint64_t x = uint64_t(sim::choose(0)) << 1 | 1;
	uint32_t operator()(uint32_t n)
	{
		this->x = this->x * 6364136223846793005ull + 1442695040888963407ull;
		return uint32_t(this->x >> 33) % n;
	}
};
bool draw_long()
{
	if (!sim::chance(1, 100))
		return false;
	sim::probe("long-text");
	return true;
}
uint32_t long_size()
{
	return sim::chance(1, 16) ? crowd_size() : sim::log_uniform(sim::thorough() ? 18 : 15);
}

// all characters an iterator gives
std::u32string drain(utki::utf8_iterator it, size_t bytes)
{
	std::u32string r;
	for (; !it.is_end(); ++it) {
		if (it.character() == 0)
			sim::fail("iterator", "is_end() is false at the zero character");
		r.push_back(it.character());
		if (r.size() > bytes)
			sim::fail("does-not-end", "%zu bytes of text were decoded to more characters than there are bytes", bytes);
		if (bytes < 2000 && sim::chance(1, 16)) {
			// a copy goes its own way
			utki::utf8_iterator c(it);
			char32_t was = it.character();
			++c;
			if (it.character() != was)
				sim::fail("iterator", "stepping a copy of an iterator moved the original");
		}
	}
	return r;
}

enum form : uint32_t { f_iter_span, f_iter_view, f_iter_zero, f_span8, f_span, f_view, f_zero, f_string, f_iter, num_forms };
const char* const form_names[] = {
	"utf8_iterator(span)",
	"utf8_iterator(string_view)",
	"utf8_iterator(const char*)",
	"to_utf32(span<uint8_t>)",
	"to_utf32(span<char>)",
	"to_utf32(string_view)",
	"to_utf32(const char*)",
	"to_utf32(string)",
	"to_utf32(utf8_iterator)"};

std::u32string through(form f, const image& data)
{
	size_t n = data.size();
	if (f == f_iter_zero || f == f_zero) {
		// the text ends at its first zero
		image z(data.begin(), std::find(data.begin(), data.end(), uint8_t(0)));
		z.push_back(0);
		exact<uint8_t> buf(z.data(), z.size());
		auto* s = reinterpret_cast<const char*>(buf.p);
		return f == f_zero ? utki::to_utf32(s) : drain(utki::utf8_iterator(s), n);
	}
	exact<uint8_t> buf(data.data(), n);
	auto* s = reinterpret_cast<const char*>(buf.p);
	auto span8 = utki::make_span(static_cast<const uint8_t*>(buf.p), n);
	auto span = utki::make_span(s, n);
	switch (f) {
		case f_iter_span:
			return drain(utki::utf8_iterator(span8), n);
		case f_iter_view:
			return drain(utki::utf8_iterator(std::string_view(s, n)), n);
		case f_span8:
			return utki::to_utf32(span8);
		case f_span:
			return utki::to_utf32(span);
		case f_view:
			return utki::to_utf32(std::string_view(s, n));
		case f_string:
			return utki::to_utf32(std::string(s, n));
		default:
			return utki::to_utf32(utki::utf8_iterator(span8));
	}
}

void utf8()
{
	std::u32string text;
	image stored, stale;
	uint32_t n = sim::coin() ? sim::range(0, 8) : sim::range(0, sim::thorough() ? 200 : 40);
	if (draw_long()) {
		n = long_size();
		quick_random r;
		uint32_t ascii = r(3); // mostly, half, little
		for (uint32_t i = 0; i < n; ++i)
			text.push_back(r(ascii + 2) == 0 ? char32_t(1 + r(0x7ffffffe >> r(25))) : char32_t(1 + r(127)));
	} else
		for (uint32_t i = 0; i < n; ++i)
			text.push_back(draw_char());
	{
		exact<char32_t> chars(text.data(), text.size());
		std::string enc = sim::coin() ? utki::to_utf8(utki::make_span(static_cast<const char32_t*>(chars.p), chars.n)) : utki::to_utf8(text);
		std::string one;
		for (char32_t c : text) {
			auto a = utki::to_utf8(c);
			one += a.data();
			encode(c, stored);
		}
		if (enc != one || enc != std::string(stored.begin(), stored.end()))
			sim::fail("encode", "a text of %zu characters was not encoded as UTF-8", text.size());
	}
	for (uint32_t i = sim::choose(40); i; --i)
		stale.push_back(uint8_t(sim::choose(256)));

	bool intact = sim::chance(1, 5);
	image data = intact ? stored : damaged(stored, stale);
	bool whole = false;
	std::u32string want = decode(data, &whole);
	// of a text that was merely cut the characters before the cut are all there is
	bool cut = data.size() <= stored.size() && std::equal(data.begin(), data.end(), stored.begin());
	if (intact && (!whole || want != text))
		sim::fail("harness", "the reference does not decode an intact text");
	sim::ev_bytes("text", data.data(), data.size());

	for (uint32_t i = sim::range(1, 4); i; --i) {
		form f = form(sim::choose(num_forms));
		std::u32string got = through(f, data);
		sim::ev(form_names[f], got.size(), want.size(), whole);
		if (got.size() > data.size())
			sim::fail("decoded", "%s made %zu characters of %zu bytes", form_names[f], got.size(), data.size());
		if (whole || cut ? got != want : got.compare(0, want.size(), want) != 0)
			sim::fail(
				"decoded",
				"%s did not give the %zu characters of the intact %s",
				form_names[f],
				want.size(),
				whole ? "text" : cut ? "part (and only them) of a cut text" : "part before the damage"
			);
		if (!whole)
			sim::probe("damaged-utf8");
	}
}

// ---- base64 -------------------------------------------------------------------------------------------

const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

int value(uint8_t c)
{
	auto* p = c ? strchr(alphabet, c) : nullptr;
	return p ? int(p - alphabet) : -1;
}

void base64()
{
	image bytes, stored, stale;
	uint32_t n = sim::coin() ? sim::range(0, 7) : sim::range(0, sim::thorough() ? 300 : 60);
	if (draw_long()) {
		n = long_size();
		quick_random r;
		for (uint32_t i = 0; i < n; ++i)
			bytes.push_back(uint8_t(r(256)));
	} else
		for (uint32_t i = 0; i < n; ++i)
			bytes.push_back(uint8_t(sim::choose(256)));
	uint32_t acc = 0, have = 0;
	for (uint8_t b : bytes) {
		acc = acc << 8 | b;
		have += 8;
		while (have >= 6) {
			have -= 6;
			stored.push_back(uint8_t(alphabet[acc >> have & 63]));
		}
	}
	if (have)
		stored.push_back(uint8_t(alphabet[acc << (6 - have) & 63]));
	if (sim::coin())
		while (stored.size() % 4)
			stored.push_back('=');
	for (uint32_t i = sim::choose(40); i; --i)
		stale.push_back(sim::coin() ? uint8_t(alphabet[sim::choose(64)]) : uint8_t(sim::choose(256)));

	bool intact = sim::chance(1, 5);
	image data = stored;
	if (!intact) {
		if (sim::chance(1, 10)) {
			// a few characters of the kinds that matter
			static const uint8_t few[] = {'=', '=', '=', 'A', 'A', '/', 'B', '\n', 0, 0xff};
			sim::fault("tiny-rubbish");
			data.clear();
			uint8_t same = sim::coin() ? sim::pick(few) : 0;
			for (uint32_t i = sim::choose(10); i; --i)
				data.push_back(same && !sim::chance(1, 8) ? same : sim::pick(few));
		} else if (!data.empty() && sim::chance(1, 3)) {
			// characters that other encodings or transports put in, and such that are next to those of the alphabet
			static const uint8_t odd[] = {'-', '_', ' ', '\n', '\r', '\t', '.', ',', '=', 0, '*', ':', '@', '[', '`', '{', '~', 0x7f, 0x80, 0xff};
			for (uint32_t i = sim::range(1, 2); i; --i) {
				uint8_t& b = data[sim::choose(uint32_t(data.size()))];
				sim::fault("character-replaced");
				b = sim::chance(1, 4) ? uint8_t(b | 0x80) : sim::pick(odd);
			}
		} else
			data = damaged(stored, stale);
	}
	sim::ev_bytes("base64", data.data(), data.size());

	// the leading part that is base64, and what it encodes
	size_t k = 0;
	image want;
	acc = have = 0;
	while (k < data.size() && value(data[k]) >= 0) {
		acc = acc << 6 | uint32_t(value(data[k]));
		have += 6;
		if (have >= 8) {
			have -= 8;
			want.push_back(uint8_t(acc >> have));
		}
		++k;
	}
	bool stray_bits = k % 4 != 0 && (acc & ((1u << have) - 1)) != 0;
	size_t rest = data.size() - k;
	size_t padding = 0;
	while (padding < rest && data[k + padding] == '=')
		++padding;
	bool valid = padding == rest && (rest == 0 ? k % 4 != 1 : rest <= 2 && k % 4 >= 2 && (k + rest) % 4 == 0);
	if (intact && (!valid || stray_bits || want != bytes))
		sim::fail("harness", "the reference does not decode an intact text");

	exact<uint8_t> buf(data.data(), data.size());
	image got;
	bool refused = false;
	try {
		got = utki::base64_decode(std::string_view(reinterpret_cast<const char*>(buf.p), buf.n));
	} catch (std::invalid_argument&) {
		refused = true;
	}
	sim::ev("base64", valid, refused, got.size());
	if (refused) {
		sim::probe("base64-refused");
		if (valid && !stray_bits)
			sim::fail("refusal", "an intact base64 text of %zu characters was refused", data.size());
	} else if (valid) {
		if (got != want)
			sim::fail("decoded", "an intact base64 text of %zu characters was decoded to %zu bytes other than the %zu it encodes", data.size(), got.size(), want.size());
	} else {
		image quads(want.begin(), want.begin() + long(k / 4 * 3));
		if (got != want && got != quads)
			sim::fail("decoded", "a damaged base64 text with an intact part of %zu characters was decoded to %zu bytes that it does not encode", k, got.size());
	}
}
} // namespace

static void scenario()
{
	if (sim::chance(2, 5))
		base64();
	else
		utf8();
}

void scenario_run()
{
	ambient(scenario);
}
