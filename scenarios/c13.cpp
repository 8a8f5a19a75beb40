// C13: records are serialised into a storage image, the image is damaged as storage does it, and read back.
#include <stdexcept>
#include <string>

#include <utki/deserializer.hpp>
#include <utki/string.hpp>
#include <utki/utility.hpp>

#include "common.hpp"

const char* const scenario_id = "C13";

namespace {
enum kind : uint32_t {
	k_u8,
	k_u16le,
	k_u32le,
	k_u64le,
	k_fle,
	k_u16be,
	k_u32be,
	k_u64be,
	k_fbe,
	k_string, // bytes as a string; length given by the reader
	k_span,
	k_skip,
	num_kinds
};
const char* const names[] = {
	"u8", "u16le", "u32le", "u64le", "float_le", "u16be", "u32be", "u64be", "float_be", "string", "span", "skip"};

size_t width(uint32_t k)
{
	static const size_t w[] = {1, 2, 4, 8, 4, 2, 4, 8, 4};
	return w[k];
}
bool big(uint32_t k)
{
	return k >= k_u16be && k <= k_fbe;
}

// the reference encoding
void encode(uint32_t k, uint64_t v, uint8_t* out)
{
	size_t n = width(k);
	for (size_t i = 0; i < n; ++i)
		out[i] = uint8_t(v >> 8 * (big(k) ? n - 1 - i : i));
}
uint64_t decode(uint32_t k, const uint8_t* in)
{
	uint64_t v = 0;
	size_t n = width(k);
	for (size_t i = 0; i < n; ++i)
		v = v << 8 | in[big(k) ? i : n - 1 - i];
	return v;
}

uint64_t draw_value(uint32_t k)
{
	static const uint64_t edges[] = {0,
									 1,
									 0x7f,
									 0x80,
									 0xff,
									 0x100,
									 0x7fff,
									 0x8000,
									 0xffff,
									 0x10000,
									 0x7fffffff,
									 0x80000000,
									 0xffffffff,
									 0x100000000ull,
									 0x7fffffffffffffffull,
									 0x8000000000000000ull,
									 0xffffffffffffffffull,
									 0x0102030405060708ull,
									 0x3f800000, // 1.0f
									 0x7f800000, // infinities, not-a-numbers, a denormal
									 0xff800000,
									 0x7fc00001,
									 0x7f800001,
									 0xffa5a5a5,
									 1,
									 0x807fffff};
	uint64_t v = 0;
	switch (sim::choose(3)) {
		case 0:
			v = sim::pick(edges);
			break;
		case 1:
			v = sim::choose64();
			break;
		default:
			v = sim::choose64() >> sim::choose(64);
			break;
	}
	size_t w = width(k);
	return w == 8 ? v : v & ((uint64_t(1) << 8 * w) - 1);
}

uint32_t bits(float f)
{
	uint32_t r;
	memcpy(&r, &f, 4);
	return r;
}
float unbits(uint32_t v)
{
	float f;
	memcpy(&f, &v, 4);
	return f;
}

// writes v through the library, at out, which has exactly room bytes left
uint8_t* write(uint32_t k, uint64_t v, uint8_t* out)
{
	bool generic = sim::coin();
	switch (k) {
		case k_u8:
			return sim::coin() ? utki::serialize_le<uint8_t>(uint8_t(v), out) : utki::serialize_be<uint8_t>(uint8_t(v), out);
		case k_u16le:
			return generic ? utki::serialize_le<uint16_t>(uint16_t(v), out) : utki::serialize16le(uint16_t(v), out);
		case k_u32le:
			return generic ? utki::serialize_le<uint32_t>(uint32_t(v), out) : utki::serialize32le(uint32_t(v), out);
		case k_u64le:
			return generic ? utki::serialize_le<uint64_t>(v, out) : utki::serialize64le(v, out);
		case k_fle:
			return utki::serialize_float_le(unbits(uint32_t(v)), out);
		case k_u16be:
			return generic ? utki::serialize_be<uint16_t>(uint16_t(v), out) : utki::serialize16be(uint16_t(v), out);
		case k_u32be:
			return generic ? utki::serialize_be<uint32_t>(uint32_t(v), out) : utki::serialize32be(uint32_t(v), out);
		case k_u64be:
			return generic ? utki::serialize_be<uint64_t>(v, out) : utki::serialize64be(v, out);
		default:
			return utki::serialize_float_be(unbits(uint32_t(v)), out);
	}
}
uint64_t read_raw(uint32_t k, const uint8_t* in)
{
	bool generic = sim::coin();
	switch (k) {
		case k_u8:
			return sim::coin() ? utki::deserialize_le<uint8_t>(in) : utki::deserialize_be<uint8_t>(in);
		case k_u16le:
			return generic ? utki::deserialize_le<uint16_t>(in) : utki::deserialize16le(in);
		case k_u32le:
			return generic ? utki::deserialize_le<uint32_t>(in) : utki::deserialize32le(in);
		case k_u64le:
			return generic ? utki::deserialize_le<uint64_t>(in) : utki::deserialize64le(in);
		case k_fle:
			return bits(utki::deserialize_float_le(in));
		case k_u16be:
			return generic ? utki::deserialize_be<uint16_t>(in) : utki::deserialize16be(in);
		case k_u32be:
			return generic ? utki::deserialize_be<uint32_t>(in) : utki::deserialize32be(in);
		case k_u64be:
			return generic ? utki::deserialize_be<uint64_t>(in) : utki::deserialize64be(in);
		default:
			return bits(utki::deserialize_float_be(in));
	}
}
uint64_t read(utki::deserializer& d, uint32_t k)
{
	switch (k) {
		case k_u8:
			return d.read_uint8();
		case k_u16le:
			return d.read_uint16_le();
		case k_u32le:
			return d.read_uint32_le();
		case k_u64le:
			return d.read_uint64_le();
		case k_fle:
			return bits(d.read_float_le());
		case k_u16be:
			return d.read_uint16_be();
		case k_u32be:
			return d.read_uint32_be();
		case k_u64be:
			return d.read_uint64_be();
		default:
			return bits(d.read_float_be());
	}
}

struct record {
	uint32_t k;
	uint64_t v;
	std::string s; // strings and spans
};

// one reader and where it should be
struct reader {
	utki::deserializer d;
	size_t pos;
};

struct session {
	const exact<uint8_t>& img;
	const uint8_t* copy; // of the image
	std::vector<std::pair<std::string_view, size_t>> views; // what was returned, and where it comes from

	void where(reader& r, const char* what)
	{
		sim::quiet q;
		size_t rest = this->img.n - r.pos;
		if (r.d.size() != rest)
			sim::fail("position", "after %s: %zu bytes remain, %zu expected", what, r.d.size(), rest);
		if (r.d.empty() != (rest == 0))
			sim::fail("position", "after %s: empty() is wrong", what);
		utki::deserializer c(r.d);
		auto all = c.read_span(rest);
		if (all.size() != rest || (rest && memcmp(all.data(), this->copy + r.pos, rest)))
			sim::fail("position", "after %s: what remains is not the rest of the data", what);
		if (memcmp(this->img.p, this->copy, this->img.n))
			sim::fail("data-changed", "after %s: the data was written to", what);
	}

	// one read of a number; true if it was there
	bool number(reader& r, uint32_t k, uint64_t* out = nullptr)
	{
		size_t rest = this->img.n - r.pos;
		uint64_t v = 0;
		bool refused = false;
		uint32_t fail_at = sim::chance(1, 6) ? sim::range(1, 3) : 0;
		bool oom = false;
		try {
			sim::alloc_scope as(fail_at, sim::coin());
			v = read(r.d, k);
		} catch (std::invalid_argument&) {
			refused = true;
		} catch (std::bad_alloc&) {
			if (!fail_at)
				sim::fail("wrong-exception", "reading %s: bad_alloc although memory did not fail", names[k]);
			refused = oom = true;
		}
		sim::ev(names[k], refused, v);
		if (refused != (rest < width(k)))
			sim::fail("refusal", "reading %s from %zu bytes was %s", names[k], rest, refused ? "refused" : "not refused");
		if (refused)
			sim::probe(oom ? "refused-without-memory" : "refused");
		else {
			uint64_t want = decode(k, this->copy + r.pos);
			if (v != want)
				sim::fail("value", "%s is read as 0x%llx instead of 0x%llx", names[k], (unsigned long long)v, (unsigned long long)want);
			r.pos += width(k);
		}
		this->where(r, names[k]);
		if (out)
			*out = v;
		return !refused;
	}
	bool bytes(reader& r, uint32_t k, size_t len)
	{
		size_t rest = this->img.n - r.pos;
		bool refused = false;
		uint32_t fail_at = sim::chance(1, 6) ? sim::range(1, 6) : 0;
		std::string_view got;
		try {
			sim::alloc_scope as(fail_at, sim::coin());
			if (k == k_string)
				got = r.d.read_string(len);
			else if (k == k_span) {
				auto s = r.d.read_span(len);
				got = std::string_view(reinterpret_cast<const char*>(s.data()), s.size());
			} else
				r.d.skip(len);
		} catch (std::invalid_argument& e) {
			refused = true;
			sim::quiet q;
			if (!e.what()[0])
				sim::fail("refusal", "a refusal without a message");
		} catch (std::bad_alloc&) {
			if (!fail_at)
				sim::fail("wrong-exception", "reading %s: bad_alloc although memory did not fail", names[k]);
			refused = true;
			sim::probe("refused-without-memory");
		}
		sim::ev(names[k], refused, len, rest);
		if (refused != (rest < len))
			sim::fail("refusal", "%s of %zu bytes out of %zu was %s", names[k], len, rest, refused ? "refused" : "not refused");
		if (!refused) {
			if (k != k_skip) {
				sim::quiet q;
				if (got.size() != len)
					sim::fail("value", "%s of %zu bytes gave %zu bytes", names[k], len, got.size());
				this->views.emplace_back(got, r.pos);
			}
			r.pos += len;
		} else
			sim::probe(len > ~size_t(0) / 2 ? "refused-huge-length" : "refused");
		this->where(r, names[k]);
		return !refused;
	}
	void check_views()
	{
		sim::quiet q;
		for (auto& v : this->views)
			if (memcmp(v.first.data(), this->copy + v.second, v.first.size()))
				sim::fail("value", "a stretch that was read is not the one at its position");
	}
};

size_t draw_length(size_t rest)
{
	switch (sim::choose(6)) {
		case 0:
			return rest;
		case 1:
			return rest + 1;
		case 2:
			return sim::choose(uint32_t(rest + 1));
		case 3:
			return ~size_t(0) - sim::choose(uint32_t(rest + 2)); // position plus length overflows
		case 4:
			return size_t(1) << sim::choose(64);
		default:
			return sim::choose(6);
	}
}
// data of more bytes than fit 32 bits, of which some are looked at
void huge()
{
	size_t size;
	uint8_t* mem = huge_region(&size);
	if (!mem)
		return;
	sim::probe("data-beyond-4-gigabytes");
	const size_t over = size_t(1) << 32;
	size_t n = size - sim::choose(64);
	size_t pos = over - 32 + sim::choose(64); // where the data of interest is
	uint8_t mark[64];
	for (auto& b : mark)
		b = uint8_t(sim::choose(256));
	memcpy(mem + pos, mark, sizeof mark);
	utki::deserializer d(utki::make_span(static_cast<const uint8_t*>(mem), n));
	auto where = [&](size_t at) {
		if (d.size() != n - at || d.empty())
			sim::fail("position", "%zu bytes remain of %zu after %zu were read", d.size(), n, at);
	};
	where(0);
	size_t at = 0;
	if (sim::coin()) {
		if (d.read_uint8() != mem[0])
			sim::fail("value", "the first byte of large data is wrong");
		at = 1;
	}
	switch (sim::choose(3)) {
		case 0:
			d.skip(pos - at);
			break;
		case 1:
			{
				auto s = d.read_string(pos - at);
				if (s.size() != pos - at || s.data() != reinterpret_cast<const char*>(mem + at))
					sim::fail("value", "a string of %zu bytes is %zu bytes", pos - at, s.size());
				break;
			}
		default:
			{
				auto s = d.read_span(pos - at);
				if (s.size() != pos - at || s.data() != mem + at)
					sim::fail("value", "a span of %zu bytes is %zu bytes", pos - at, s.size());
				break;
			}
	}
	where(pos);
	// too much by all measures but the 32-bit one
	bool refused = false;
	size_t much = n - pos + 1 + (size_t(sim::choose(3)) << 32);
	try {
		switch (sim::choose(3)) {
			case 0:
				d.skip(much);
				break;
			case 1:
				d.read_string(much);
				break;
			default:
				d.read_span(much);
				break;
		}
	} catch (std::invalid_argument&) {
		refused = true;
	}
	if (!refused)
		sim::fail("refusal", "%zu bytes were read where %zu remain", much, n - pos);
	where(pos);
	uint64_t v = d.read_uint64_be();
	if (v != decode(k_u64be, mark))
		sim::fail("value", "a number beyond 4 gigabytes is wrong");
	where(pos + 8);
	auto s = d.read_string(20);
	if (s != std::string_view(reinterpret_cast<char*>(mark) + 8, 20))
		sim::fail("value", "a string beyond 4 gigabytes is wrong");
	where(pos + 28);
	memset(mem + pos, 0, sizeof mark);
}
} // namespace

static void scenario()
{
	if (sim::chance(1, 400)) {
		huge();
		return;
	}
	std::vector<record> recs;
	image fresh, stale;
	uint32_t n = sim::range(1, sim::thorough() ? 24 : 12);
	size_t shift = sim::choose(9); // the records start at any alignment
	{
		sim::quiet q;
		for (uint32_t i = 0; i < n; ++i) {
			record r{sim::choose(k_span + 1), 0, {}};
			if (r.k >= k_string) {
				// stored with its length in front
				uint32_t len = sim::choose(4) ? sim::choose(12) : sim::choose(300);
				if (sim::chance(1, 300)) {
					sim::probe("long-string");
					rng g(sim::choose64());
					for (len = sim::log_uniform(16); len; --len)
						r.s.push_back(char(g.below(256)));
				}
				static const char* const marks[] = {"\xff\xfe", "\xfe\xff", "\xef\xbb\xbf", "\r\n", "  ", "%s", "\xff\xff\xff\xff"};
				if (sim::chance(1, 24))
					r.s = sim::pick(marks); // bytes that mean something elsewhere
				uint8_t kind = uint8_t(sim::choose(8));
				for (uint32_t j = 0; j < len; ++j)
					r.s.push_back(char(kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? 'a' + sim::choose(26) : sim::choose(256)));
			} else
				r.v = draw_value(r.k);
			recs.push_back(r);
		}
		uint32_t m = sim::choose(120);
		for (uint32_t i = 0; i < m; ++i)
			stale.push_back(uint8_t(sim::choose(256)));
	}

	// the writer
	{
		size_t total = shift;
		for (auto& r : recs)
			total += r.k >= k_string ? 2 + r.s.size() : width(r.k);
		image canvas(total, 0xa5);
		exact<uint8_t> buf(canvas.data(), canvas.size());
		image want = canvas;
		size_t pos = shift;
		for (auto& r : recs) {
			uint32_t k = r.k < k_string ? r.k : uint32_t(k_u16le);
			uint64_t v = r.k < k_string ? r.v : r.s.size();
			uint8_t* next = write(k, v, buf.p + pos);
			if (next != buf.p + pos + width(k))
				sim::fail("write", "writing %s does not end right after it", names[k]);
			encode(k, v, want.data() + pos);
			if (memcmp(buf.p, want.data(), total))
				sim::fail("write", "writing %s as 0x%llx gives other bytes, or elsewhere", names[k], (unsigned long long)v);
			if (read_raw(k, buf.p + pos) != v)
				sim::fail("value", "%s 0x%llx is not read back as it was written", names[k], (unsigned long long)v);
			pos += width(k);
			sim::ev("write", k, v);
			if (r.k >= k_string) {
				memcpy(buf.p + pos, r.s.data(), r.s.size());
				memcpy(want.data() + pos, r.s.data(), r.s.size());
				pos += r.s.size();
			}
		}
		fresh.assign(buf.p + shift, buf.p + total);
	}

	bool intact = sim::chance(1, 4);
	image stored;
	{
		sim::quiet q;
		stored = intact ? fresh : damaged(fresh, stale);
	}
	exact<uint8_t> img(stored.data(), stored.size());
	sim::ev_bytes("image", stored.data(), stored.size());
	session s{img, stored.data(), {}};

	reader r{utki::deserializer(utki::make_span(static_cast<const uint8_t*>(img.p), img.n)), 0};
	s.where(r, "construction");
	// reading as the writer wrote; after a refusal, arbitrary reads of what is left
	bool ok = true;
	for (auto& rec : recs) {
		if (sim::chance(1, 8)) {
			// look ahead with a copy
			reader c = r;
			for (uint32_t i = sim::range(1, 4); i; --i) {
				uint32_t k = sim::choose(num_kinds);
				if (k < k_string)
					s.number(c, k);
				else
					s.bytes(c, k, draw_length(img.n - c.pos));
			}
			s.where(r, "reads from a copy");
		}
		uint64_t v = 0;
		if (rec.k < k_string) {
			ok = s.number(r, rec.k, &v);
			if (ok && intact && v != rec.v)
				sim::fail("value", "%s is not read back as it was written", names[rec.k]);
		} else {
			ok = s.number(r, k_u16le, &v);
			if (ok && intact && v != rec.s.size())
				sim::fail("value", "a length is not read back as it was written");
			if (ok)
				ok = s.bytes(r, sim::chance(1, 6) ? uint32_t(k_skip) : rec.k, size_t(v));
		}
		if (!ok)
			break;
	}
	if (intact && (!ok || r.pos != img.n))
		sim::fail("refusal", "intact data was not read back to its end");
	uint32_t more = sim::choose(8);
	for (uint32_t i = 0; i < more; ++i) {
		uint32_t k = sim::choose(num_kinds);
		if (k < k_string)
			s.number(r, k);
		else
			s.bytes(r, k, draw_length(img.n - r.pos));
	}
	s.check_views();
}

void scenario_run()
{
	ambient(scenario);
}
