// C21: values of the library written to a stream whose device, elements or memory fail.
#include <array>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

#include <utki/flags.hpp>
#include <utki/span.hpp>
#include <utki/version.hpp>

#include "common.hpp"

const char* const scenario_id = "C21";

namespace {
struct device_error {
	int serial;
};
struct element_error {
	int serial;
};

// What has been accepted is final. The fault is met at one position: from there on nothing is accepted, or just one operation fails.
struct device : std::streambuf {
	std::string got;
	std::vector<char> room; // put area, if any
	uint64_t fail_at = ~uint64_t(0); // characters accepted before the fault
	uint32_t kind = 0; // 0: refuses, 1: throws
	bool persistent = false;
	bool tells = false; // where it is
	uint32_t failed = 0;

	size_t held() const
	{
		return this->room.empty() ? 0 : size_t(this->pptr() - this->pbase());
	}
	void buffered(size_t n)
	{
		this->room.resize(n);
		this->setp(this->room.data(), this->room.data() + n);
	}
	bool put(char c)
	{
		if (this->got.size() >= this->fail_at) {
			++this->failed;
			sim::fault(this->kind ? "device-throws" : "device-refuses");
			if (!this->persistent)
				this->fail_at = ~uint64_t(0);
			if (this->kind)
				throw device_error{int(this->failed)};
			return false;
		}
		sim::quiet q;
		this->got.push_back(c);
		return true;
	}
	// hands over what is in the put area; what could not be stays there
	bool drain()
	{
		char* p = this->pbase();
		char* e = this->pptr();
		bool ok = true;
		while (p != e && ok) {
			struct on_exit {
				device& d;
				char*& p;
				char* e;
				bool done = false;
				~on_exit()
				{
					if (!this->done)
						this->d.keep(this->p, this->e);
				}
			} x{*this, p, e};
			ok = this->put(*p);
			x.done = true;
			if (ok)
				++p;
		}
		this->keep(p, e);
		return ok;
	}
	void keep(char* p, char* e)
	{
		size_t n = size_t(e - p);
		memmove(this->room.data(), p, n);
		this->setp(this->room.data(), this->room.data() + this->room.size());
		this->pbump(int(n));
	}
	int_type overflow(int_type c) override
	{
		if (!this->room.empty()) {
			if (!this->drain())
				return traits_type::eof();
			if (c != traits_type::eof())
				return this->sputc(char(c));
			return 0;
		}
		if (c == traits_type::eof())
			return 0;
		return this->put(char(c)) ? c : traits_type::eof();
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
	{
		if (!this->tells || off != 0 || dir == std::ios_base::beg)
			return pos_type(off_type(-1));
		return pos_type(off_type(this->got.size() + this->held()));
	}
	int sync() override
	{
		if (this->room.empty())
			return 0;
		return this->drain() ? 0 : -1;
	}
};

// an element whose output operator can throw, and which is written in several pieces
uint64_t element_countdown;
int element_serial;
uint32_t element_mode; // 0: throws, 1: throws something else, 2: sets the failed state
bool element_failed; // set the failed state in the current operation
struct element {
	uint16_t v;
	friend std::ostream& operator<<(std::ostream& o, const element& e)
	{
		o << '[';
		if (element_countdown && !--element_countdown) {
			if (element_mode == 2) {
				sim::fault("element-sets-failbit");
				element_failed = true;
				o.setstate(std::ios_base::failbit);
				return o;
			}
			sim::fault("element-throws");
			++element_serial;
			if (element_mode == 1)
				throw element_serial;
			throw element_error{element_serial};
		}
		if (e.v % 3)
			return o << e.v << ']';
		std::string with_memory(40, char('0' + e.v % 10));
		with_memory.resize(1);
		return o << e.v << (with_memory[0] == char('0' + e.v % 10) ? "]" : "?");
	}
};
std::string text(const element& e)
{
	return "[" + std::to_string(e.v) + "]";
}
std::string text(char c)
{
	return std::string(1, c);
}
std::string text(const std::string& s)
{
	return s;
}
template <class t>
std::string text(const t& v)
{
	return std::to_string(v);
}

template <class e>
std::string bits(const utki::flags<e>& f)
{
	std::string r;
	for (size_t i = f.size(); i-- > 0;)
		r.push_back(f.get(e(i)) ? '1' : '0');
	return r;
}

enum class one { a, enum_size };
enum class three { a, b, c, enum_size };
enum class word { a, enum_size = 64 };
enum class wide { a, enum_size = 65 };
enum class huge { a, enum_size = 700 };

struct run_state {
	device dev;
	std::ostream o{&dev};
	std::string want; // all of the values so far
	bool failed = false; // something failed, and it showed
};

// Writes one value; `full` is its text.
template <class fn>
void put(run_state& r, const char* what, const std::string& full, fn write)
{
	bool threw = false;
	auto before = r.o.flags();
	auto mask = r.o.exceptions();
	auto precision = r.o.precision();
	auto fill = r.o.fill();
	bool was_good = r.o.good();
	std::string start;
	uint32_t alloc_fail = sim::chance(1, 10) ? 1 + sim::choose(5) : 0;
	uint32_t fired = 0;
	int serial = element_serial;
	element_failed = false;
	{
		sim::quiet q;
		start = r.want;
		r.want += full;
	}
	try {
		sim::alloc_scope as(alloc_fail);
		struct count {
			sim::alloc_scope& as;
			uint32_t& fired;
			~count()
			{
				this->fired = this->as.fired();
			}
		} c{as, fired};
		std::ostream& same = write(r.o);
		if (&same != &r.o)
			sim::fail("stream", "%s: the operator returned another stream", what);
	} catch (std::bad_alloc&) {
		threw = true;
		if (!fired)
			sim::fail("exception", "%s: out of memory without being so", what);
	} catch (element_error& e) {
		threw = true;
		if (e.serial != element_serial)
			sim::fail("exception", "%s: another exception than the one thrown", what);
	} catch (int e) {
		threw = true;
		if (e != element_serial)
			sim::fail("exception", "%s: another exception than the one thrown", what);
	} catch (device_error&) {
		threw = true;
		if (!(r.o.exceptions() & std::ios_base::badbit))
			sim::fail("exception", "%s: an exception of the device that the stream does not let out", what);
	} catch (std::ios_base::failure&) {
		threw = true;
		if (!r.o.exceptions())
			sim::fail("exception", "%s: an exception that the stream does not throw", what);
	}
	if (element_serial != serial && !threw)
		sim::fail("swallowed", "%s: the exception of an element did not reach the caller", what);
	if (element_failed && !r.o.fail())
		sim::fail("swallowed", "%s: the failure of an element does not show in the stream", what);
	if (r.o.flags() != before || r.o.exceptions() != mask || r.o.width() != 0 || r.o.precision() != precision || r.o.fill() != fill)
		sim::fail("format", "%s: the stream's formatting has changed", what);
	if (!was_good && r.o.good())
		sim::fail("state", "%s: the stream's failed state was cleared", what);
	sim::quiet q;
	std::string have = r.dev.got;
	have.append(r.dev.room.data(), r.dev.held());
	if (have.size() > r.want.size() || r.want.compare(0, have.size(), have) != 0)
		sim::fail("text", "%s: of %zu characters %zu were written which are not the value's text", what, full.size(), have.size());
	if (!was_good || threw || !r.o.good()) {
		if (r.o.good())
			r.want = have; // what comes later is written after the part of this value that got through
		else
			r.failed = true;
		return;
	}
	if (have != r.want)
		sim::fail("cut", "%s: %zu of %zu characters were written and nothing shows it", what, have.size() - std::min(start.size(), have.size()), full.size());
}

template <class t, class mk>
void write_span(run_state& r, const char* what, uint32_t n, mk make)
{
	std::vector<t> v;
	std::string full;
	{
		sim::quiet q;
		for (uint32_t i = 0; i < n; ++i) {
			v.push_back(make(i));
			full += text(v.back());
		}
	}
	if constexpr (std::is_trivially_copyable_v<t>) {
		exact<t> e(v.data(), v.size());
		if (sim::coin()) {
			utki::span<t> s(e.p, e.n);
			put(r, what, full, [&](std::ostream& o) -> std::ostream& { return o << s; });
			if (s.data() != e.p || s.size() != e.n)
				sim::fail("value", "%s: the span has changed", what);
		} else {
			const utki::span<const t> s(e.p, e.n);
			put(r, what, full, [&](std::ostream& o) -> std::ostream& { return o << s; });
		}
		if (v.size() && memcmp(e.p, v.data(), n * sizeof(t)) != 0)
			sim::fail("value", "%s: the elements have changed", what);
	} else {
		const std::vector<t>& c = v;
		put(r, what, full, [&](std::ostream& o) -> std::ostream& { return o << utki::make_span(c); });
		std::string after;
		sim::quiet q;
		for (auto& x : v)
			after += text(x);
		if (after != full)
			sim::fail("value", "%s: the elements have changed", what);
	}
	sim::quiet q;
	v.clear();
	v.shrink_to_fit();
	full.clear();
	full.shrink_to_fit();
}

template <class e>
void write_flags(run_state& r)
{
	utki::flags<e> f(sim::chance(1, 4));
	uint32_t n = sim::choose(6);
	for (uint32_t i = 0; i < n; ++i)
		f.set(e(sim::choose(uint32_t(e::enum_size))), sim::coin());
	const auto copy = f;
	std::string full;
	{
		sim::quiet q;
		full = bits(f);
	}
	put(r, "flags", full, [&](std::ostream& o) -> std::ostream& { return o << f; });
	if (!(f == copy))
		sim::fail("value", "the flags have changed");
	sim::quiet q;
	full.clear();
	full.shrink_to_fit();
}

void scenario()
{
	element_countdown = sim::chance(2, 5) ? 1 + sim::log_uniform(5) : 0;
	element_serial = 0;
	element_mode = sim::choose(3);
	run_state r;
	bool crowd = sim::chance(1, 2000);
	if (sim::coin()) {
		sim::quiet q;
		r.dev.buffered(1 + sim::log_uniform(8));
	}
	if (sim::chance(3, 5)) {
		r.dev.fail_at = sim::log_uniform(crowd ? 17 : 8);
		r.dev.kind = sim::choose(2);
		r.dev.persistent = sim::coin();
	}
	r.dev.tells = sim::coin();
	switch (sim::choose(4)) {
		case 1:
			r.o.exceptions(std::ios_base::badbit);
			break;
		case 2:
			r.o.exceptions(std::ios_base::badbit | std::ios_base::failbit);
			break;
		default:
			break;
	}
	if (sim::coin()) {
		r.o.setf(std::ios_base::left, std::ios_base::adjustfield);
		r.o.precision(3);
		r.o.fill('*');
	}
	// with unitbuf the standard stream flushes in a destructor, which must not throw
	if (sim::chance(1, 4) && r.o.exceptions() == std::ios_base::goodbit && r.dev.kind == 0)
		r.o.setf(std::ios_base::unitbuf);
	uint32_t values = sim::range(1, sim::thorough() ? 10 : 5);
	for (uint32_t i = 0; i < values; ++i) {
		uint32_t n = crowd ? crowd_size() : sim::chance(1, 8) ? sim::log_uniform(10) : sim::choose(9);
		uint32_t what = sim::choose(8);
		sim::ev("put", what, n);
		switch (what) {
			case 0:
				write_span<char>(r, "span of characters", n, [](uint32_t) { return char(sim::choose(256)); });
				break;
			case 1:
				write_span<int>(r, "span of numbers", n, [](uint32_t k) { return sim::coin() ? int(k) : int(sim::choose(0)); });
				break;
			case 2:
				write_span<std::string>(r, "span of strings", n, [](uint32_t k) { return std::string(sim::choose(k % 8 ? 4 : 40), char('a' + k % 26)); });
				break;
			case 3:
				write_span<element>(r, "span of elements", n, [](uint32_t k) { return element{uint16_t(k)}; });
				break;
			case 4:
				{
					utki::version_duplet v{uint16_t(sim::log_uniform(16)), uint16_t(sim::log_uniform(16))};
					const auto copy = v;
					std::string full;
					{
						sim::quiet q;
						full = std::to_string(v.major) + "." + std::to_string(v.minor);
					}
					put(r, "version", full, [&](std::ostream& o) -> std::ostream& { return o << v; });
					if (v.major != copy.major || v.minor != copy.minor)
						sim::fail("value", "the version has changed");
					break;
				}
			case 5:
				if (sim::coin())
					write_flags<three>(r);
				else
					write_flags<one>(r);
				break;
			case 6:
				if (sim::coin())
					write_flags<wide>(r);
				else
					write_flags<word>(r);
				break;
			default:
				write_flags<huge>(r);
				break;
		}
	}
	// what is held back arrives when the stream is flushed, or the failure shows
	bool refused = false;
	try {
		r.o.flush();
	} catch (device_error&) {
		refused = true;
	} catch (std::ios_base::failure&) {
		refused = true;
	}
	sim::quiet q;
	if (r.want.compare(0, r.dev.got.size(), r.dev.got) != 0)
		sim::fail("text", "what reached the device is not the beginning of what was written");
	if (!refused && !r.failed && r.o.good() && r.dev.got != r.want)
		sim::fail("cut", "%zu of %zu characters reached the device and nothing shows it", r.dev.got.size(), r.want.size());
	sim::ev("end", r.dev.got.size(), r.failed);
	r.dev.got.clear();
	r.dev.got.shrink_to_fit();
	r.want.clear();
	r.want.shrink_to_fit();
	r.dev.room.clear();
	r.dev.room.shrink_to_fit();
}
} // namespace

void scenario_run()
{
	ambient(scenario);
}
