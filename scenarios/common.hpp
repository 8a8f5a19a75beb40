#pragma once
#include <sys/mman.h>

#include <cerrno>
#include <cstring>
#include <exception>
#include <string>
#include <string_view>
#include <vector>

#include "../sim/sim.hpp"

// Private generator of one operation's data: what an operation does is a function of one seed, so that it can be
// repeated exactly, alone or next to others.
struct rng {
	uint64_t s;
	explicit rng(uint64_t seed) :
		s(seed * 0x9e3779b97f4a7c15ull + 0x1234567)
	{}
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n)
	{
		return uint32_t(next() % n);
	}
	bool coin()
	{
		return next() & 1;
	}
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 14695981039346656037ull)
{
	auto* b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i)
		h = (h ^ b[i]) * 1099511628211ull;
	return h;
}

// An exactly sized copy on the heap: the byte after the last one is out of bounds.
template <class t>
struct exact {
	t* p = nullptr;
	size_t n = 0;
	exact() = default;
	exact(const t* src, size_t count) :
		p(static_cast<t*>(::operator new(count * sizeof(t) + (count == 0)))),
		n(count)
	{
		if (count)
			memcpy(p, src, count * sizeof(t));
	}
	explicit exact(std::string_view v) :
		exact(reinterpret_cast<const t*>(v.data()), v.size() / sizeof(t))
	{}
	exact(const exact&) = delete;
	exact& operator=(const exact&) = delete;
	~exact()
	{
		::operator delete(p);
	}
	const t* end() const
	{
		return p + n;
	}
};

using image = std::vector<uint8_t>;

// what storage holds after the writer crashed, or after it rotted
// Readable bytes whose number does not fit 32 bits; zeros, but for what the caller writes and puts back. Null if the
// system does not give that much address space.
inline uint8_t* huge_region(size_t* size)
{
	static uint8_t* p = [] {
		void* m = mmap(nullptr, (size_t(1) << 32) + (size_t(1) << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		return m == MAP_FAILED ? nullptr : static_cast<uint8_t*>(m);
	}();
	*size = (size_t(1) << 32) + (size_t(1) << 20);
	return p;
}

inline image damaged(const image& fresh, const image& stale)
{
	image r = fresh;
	uint32_t n = sim::range(1, 3);
	for (uint32_t i = 0; i < n; ++i) {
		size_t sz = r.size();
		switch (sim::choose(8)) {
			case 0:
				sim::fault("truncated");
				r.resize(sim::choose(uint32_t(sz + 1)));
				break;
			case 1:
				{
					// from here on the previous contents
					sim::fault("torn-write");
					size_t at = sim::choose(uint32_t(sz + 1));
					for (size_t j = at; j < sz; ++j)
						r[j] = j < stale.size() ? stale[j] : 0;
					break;
				}
			case 2:
				{
					// a sector that never got written
					size_t sector = size_t(1) << sim::choose(6);
					size_t at = sz ? sim::choose(uint32_t(sz)) / sector * sector : 0;
					sim::fault("lost-sector");
					for (size_t j = at; j < sz && j < at + sector; ++j)
						r[j] = j < stale.size() ? stale[j] : 0;
					break;
				}
			case 3:
				if (sz) {
					sim::fault("bit-flip");
					r[sim::choose(uint32_t(sz))] ^= uint8_t(1u << sim::choose(8));
				}
				break;
			case 6:
				if (sz) {
					sim::fault("byte-overwritten");
					r[sim::choose(uint32_t(sz))] = uint8_t(sim::choose(256));
				}
				break;
			case 4:
				if (sz) {
					sim::fault("byte-lost");
					r.erase(r.begin() + long(sim::choose(uint32_t(sz))));
				}
				break;
			case 5:
				if (sz) {
					sim::fault("byte-duplicated");
					size_t at = sim::choose(uint32_t(sz));
					uint8_t b = r[at];
					r.insert(r.begin() + long(at), b);
				}
				break;
			default:
				{
					sim::fault("garbage-tail");
					uint32_t m = sim::range(1, 9);
					for (uint32_t j = 0; j < m; ++j)
						r.push_back(uint8_t(sim::choose(256)));
					break;
				}
		}
	}
	return r;
}

// A count that may not fit 8 or 16 bits.
inline uint32_t crowd_size()
{
	return sim::coin() ? 65530 + sim::log_uniform(sim::thorough() ? 18 : 16) : 1 + sim::log_uniform(16);
}

// What else goes on while the library is used: nothing, an exception being handled, or the stack being unwound. Makes no
// difference to any property. f lets no exception out.
template <class fn>
void ambient(fn f)
{
	struct unwinding {
		fn& f;
		~unwinding()
		{
			this->f();
		}
	};
	errno = sim::chance(1, 4) ? int(sim::choose(134)) : 0;
	switch (sim::choose(8)) {
		default:
			f();
			break;
		case 5:
			sim::probe("exception-being-handled");
			try {
				throw std::string("of no concern");
			} catch (std::string&) {
				f();
			}
			break;
		case 6:
			sim::probe("stack-being-unwound");
			try {
				unwinding u{f};
				throw 13;
			} catch (int) {
			}
			break;
		case 7:
			sim::probe("stack-being-unwound-in-handler");
			try {
				throw std::string("of no concern");
			} catch (std::string&) {
				try {
					unwinding u{f};
					throw 13L;
				} catch (long) {
				}
			}
			break;
	}
}
