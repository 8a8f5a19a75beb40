// C09: log output over a simulated standard output that holds text back until flushed, can fail, and is lost on a crash.
#include <iostream>
#include <optional>
#include <stdexcept>

#include <utki/debug.hpp>
#include <utki/log.hpp>

#include "common.hpp"

const char* const scenario_id = "C09";

namespace {
#ifdef DEBUG
constexpr bool debug_build = true;
#else
constexpr bool debug_build = false;
#endif

constexpr uint32_t max_threads = 4;
// every thread writes characters of its own; the special ones may or may not arrive
constexpr std::string_view alphabet[max_threads + 1] = {{"abcdef \n0123.-\0%", 17}, "ghijkl", "mnopqr", "stuvwx", "ABCDEF"};
constexpr char partial = '~'; // written by a callback that then throws
constexpr char lost = '|'; // written while the device fails

std::string expected[max_threads + 1]; // by thread: what has been logged by calls that returned; [max_threads]: nested

bool in(std::string_view set, char c)
{
	return set.find(c) != std::string_view::npos;
}

std::string filtered(uint32_t t)
{
	size_t n;
	const char* p = sim::out_durable(1, &n);
	std::string r;
	for (size_t i = 0; i < n; ++i)
		if (in(alphabet[t], p[i]))
			r += p[i];
	return r;
}

void verify(uint32_t t, const char* when)
{
	sim::quiet q;
	std::string got = filtered(t);
	if (got == expected[t])
		return;
	const std::string& want = expected[t];
	if (got.size() < want.size() && want.compare(0, got.size(), got) == 0) {
		size_t pend = sim::out_pending(1);
		sim::fail(
			pend ? "not-flushed" : "text-lost",
			"%s: %zu of %zu characters logged by thread %u have reached the operating system, %zu are held back in the process",
			when,
			got.size(),
			want.size(),
			t,
			pend
		);
	}
	if (got.size() > want.size() && got.compare(0, want.size(), want) == 0)
		sim::fail("text-extra", "%s: %zu characters more than logged by thread %u came out", when, got.size() - want.size(), t);
	sim::fail("text-wrong", "%s: the text of thread %u came out different: lost, repeated or reordered", when, t);
}

std::string text(uint32_t t, uint32_t max_bits)
{
	sim::quiet q;
	uint32_t n = sim::log_uniform(max_bits);
	std::string s;
	size_t k = alphabet[t].size();
	uint32_t x = sim::choose(997);
	for (uint32_t i = 0; i < n; ++i) {
		x = x * 1103515245u + 12345u;
		s += alphabet[t][(x >> 16) % k];
	}
	return s;
}

struct callback_error {
	uint64_t id;
};
struct standard_callback_error : callback_error, std::runtime_error {
	standard_callback_error(uint64_t id) :
		callback_error{id},
		std::runtime_error("callback")
	{}
};
struct memory_callback_error : callback_error, std::bad_alloc {
	memory_callback_error(uint64_t id) :
		callback_error{id}
	{}
};
struct stream_callback_error : callback_error, std::ios_base::failure {
	stream_callback_error(uint64_t id) :
		callback_error{id},
		std::ios_base::failure("callback")
	{}
};
[[noreturn]] void raise(uint64_t id, uint32_t kind)
{
	switch (kind) {
		case 0:
			throw callback_error{id};
		case 1:
			throw standard_callback_error(id);
		case 2:
			throw memory_callback_error(id);
		default:
			throw stream_callback_error(id);
	}
}

struct counted {
	const std::string* s;
	mutable uint32_t n = 0;
};
std::ostream& operator<<(std::ostream& o, const counted& c)
{
	++c.n;
	return o << *c.s;
}

uint32_t evaluated;
size_t lost_logged;
template <class f>
f&& evaluate(f&& x)
{
	sim::quiet q;
	++evaluated;
	return std::forward<f>(x);
}

// std::cout with a buffer of its own, as after sync_with_stdio(false): what it holds is handed on when it is flushed
struct unsynced : std::streambuf {
	std::string held;
	std::streambuf* before;
	unsynced() :
		before(std::cout.rdbuf(this))
	{}
	~unsynced() override
	{
		std::cout.rdbuf(this->before);
	}
	int_type overflow(int_type c) override
	{
		if (c != traits_type::eof())
			this->held.push_back(char(c));
		return traits_type::not_eof(c);
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override
	{
		this->held.append(s, size_t(n));
		return n;
	}
	int sync() override
	{
		std::string out;
		out.swap(this->held);
		return this->before->sputn(out.data(), std::streamsize(out.size())) == std::streamsize(out.size()) ? this->before->pubsync() : -1;
	}
};

void emit(uint32_t t, const std::string& s)
{
	sim::quiet q;
	expected[t] += s;
	sim::ev_bytes("logged", s.data(), s.size());
}

// one call; s is what it has to write
void call(uint32_t t, bool multi)
{
	bool much = !multi && sim::chance(1, 80);
	if (much)
		sim::probe("long-text");
	std::string s = text(t, multi ? 7 : much ? 17 : sim::thorough() ? 14 : 12);
	size_t cut = s.empty() ? 0 : sim::choose(uint32_t(s.size()));
	std::string head = s.substr(0, cut), tail = s.substr(cut);
	bool debug_only = false;
	uint32_t runs = 0;
	uint32_t what = sim::choose(12);
	sim::ev("call", t, what, s.size());
	switch (what) {
		case 0:
			utki::logcat(s);
			emit(t, s);
			break;
		case 1:
			utki::logcat(head, std::string_view(tail));
			emit(t, s);
			break;
		case 2:
			utki::log([&](std::ostream& o) {
				++runs;
				o << s;
			});
			emit(t, s);
			if (runs != 1)
				sim::fail("evaluated", "the printing callback ran %u times", runs);
			break;
		case 3:
			utki::log([&](std::ostream& o) {
				++runs;
				o << head;
				sim::yield();
				for (char c : tail)
					o << c;
			});
			emit(t, s);
			if (runs != 1)
				sim::fail("evaluated", "the printing callback ran %u times", runs);
			break;
		case 4:
			{
				debug_only = true;
				counted c{&s};
				utki::logcat_debug(c);
				runs = c.n;
				if (debug_build)
					emit(t, s);
			}
			break;
		case 5:
			debug_only = true;
			utki::log_debug([&](std::ostream& o) {
				++runs;
				o << head << tail;
			});
			if (debug_build)
				emit(t, s);
			break;
		case 6:
			{
				debug_only = true;
				uint32_t before;
				{
					sim::quiet q;
					before = evaluated;
				}
				auto print = [&](std::ostream& o) {
					++runs;
					o << s;
				};
				LOG(evaluate(print))
				(void)print;
				if (!multi && evaluated - before != (debug_build ? 1 : 0))
					sim::fail("evaluated", "the argument of LOG() was evaluated %u times", evaluated - before);
				if (debug_build)
					emit(t, s);
			}
			break;
		case 7:
			debug_only = true;
			utki::run_debug([&] {
				++runs;
				utki::logcat(s);
				emit(t, s);
			});
			break;
		case 8:
			// no callback: nothing happens
			switch (sim::choose(3)) {
				case 0:
					utki::log(nullptr);
					break;
				case 1:
					utki::log_debug(nullptr);
					break;
				default:
					utki::run_debug(nullptr);
					break;
			}
			break;
		case 9:
			{
				// a callback that throws half-way
				sim::fault("callback-throws");
				uint64_t id = sim::now_seq();
				uint32_t len = sim::choose(20);
				bool reached = false;
				uint32_t form = sim::choose(3), kind = sim::choose(4);
				auto print = [&](std::ostream& o) {
					o << std::string(len, partial);
					raise(id, kind);
				};
				try {
					if (form == 0)
						utki::log(print);
					else if (form == 1)
						utki::log_debug(print);
					else
						utki::run_debug([&] { raise(id, kind); });
				} catch (callback_error& e) {
					reached = true;
					if (e.id != id)
						sim::fail("wrong-exception", "another exception arrived");
				}
				if (reached != (form == 0 || debug_build))
					sim::fail("exception-lost", "the exception of the callback did not reach the caller");
			}
			break;
		case 10:
			{
				// a log call from inside the callback of another
				if (multi)
					break;
				sim::probe("nested-log");
				std::string inner = text(max_threads, 6);
				utki::log([&](std::ostream& o) {
					o << head;
					for (uint32_t k = sim::range(1, 3); k; --k) {
						switch (sim::choose(3)) {
							case 0:
								utki::logcat(inner);
								break;
							case 1:
								utki::log([&](std::ostream& o) { o << inner; });
								break;
							default:
								try {
									utki::log([&](std::ostream& o) { throw callback_error{7}; });
									sim::fail("exception-lost", "the exception of a nested callback did not reach the caller");
								} catch (callback_error&) {
								}
								continue;
						}
						emit(max_threads, inner);
						verify(max_threads, "when a nested call returned");
					}
					o << tail;
				});
				emit(t, s);
				verify(max_threads, "after the outer call");
			}
			break;
		default:
			{
				if (multi) {
					utki::logcat(s, s);
					emit(t, s + s);
					break;
				}
				int v = int(sim::choose(4)) * 10 - 20;
				utki::logcat(s, v, ' ', 1.5, '\n');
				char buf[40];
				snprintf(buf, sizeof buf, "%d 1.5\n", v);
				// the alphabet has just these characters
				sim::quiet q;
				std::string all = s + buf;
				std::string known;
				for (char c : all)
					if (in(alphabet[t], c))
						known += c;
				emit(t, known);
			}
			break;
	}
	if (debug_only && runs != (debug_build ? 1 : 0))
		sim::fail("evaluated", "debug-only code ran %u times in a %s build", runs, debug_build ? "debug" : "release");
	verify(t, "after a log call returned");
}

void reset_stream()
{
	std::cout.exceptions(std::ios_base::goodbit);
	std::cout.clear();
	std::cout.flags(std::ios_base::skipws | std::ios_base::dec);
	std::cout.width(0);
	std::cout.precision(6);
	std::cout.fill(' ');
}

// the device fails during a call; afterwards logging works as before
void failing_call()
{
	uint32_t n = sim::range(1, 40);
	lost_logged += n;
	std::string s(n, lost);
	bool throwing = sim::coin();
	reset_stream(); // the standard library terminates when a stream with unitbuf set throws
	if (throwing)
		std::cout.exceptions(std::ios_base::badbit | std::ios_base::failbit);
	auto kind = sim::out_fault(sim::choose(3));
	bool persistent = sim::coin();
	sim::out_fail_at(1 + (persistent ? 0 : sim::choose(3)), kind, persistent);
	sim::ev("failing-call", n, uint64_t(kind), persistent);
	bool threw = false;
	try {
		switch (sim::choose(3)) {
			case 0:
				utki::logcat(s);
				break;
			case 1:
				utki::log([&](std::ostream& o) {
					for (char c : s)
						o << c;
				});
				break;
			default:
				utki::logcat(s.substr(0, n / 2), s.substr(n / 2));
				break;
		}
	} catch (std::ios_base::failure&) {
		threw = true;
		if (!throwing)
			sim::fail("wrong-exception", "a stream exception that was not asked for");
	}
	(void)threw;
	sim::out_fail_at(0, kind, false);
	std::cout.exceptions(std::ios_base::goodbit);
	std::cout.clear();
	verify(0, "after a failure of the device");
	// at most what was logged came out, once
	size_t now;
	const char* p = sim::out_durable(1, &now);
	size_t k = 0;
	for (size_t i = 0; i < now; ++i)
		k += p[i] == lost;
	if (k > lost_logged)
		sim::fail("text-extra", "%zu characters came out of calls that logged %zu", k, lost_logged);
}

struct finish {
	~finish()
	{
		sim::out_capture(false);
		sim::quiet q;
		for (auto& e : expected)
			e = std::string();
	}
};
} // namespace

static void scenario()
{
	{
		sim::quiet q;
		for (auto& e : expected)
			e.clear();
		reset_stream();
	}
	evaluated = 0;
	lost_logged = 0;
	sim::set_tty(1, sim::coin());
	sim::set_tty(2, sim::coin());
	sim::out_capture(true);
	finish fin;
	if (sim::chance(1, 1500)) {
		// more calls than fit a small count
		const uint32_t n = crowd_size();
		sim::ev("marathon", n);
		if (n > 65536)
			sim::probe("more-than-65536-calls");
		const uint32_t every = sim::range(2, 7);
		for (uint32_t i = 0; i < n; ++i) {
			const char c = "abcdef"[i % 6];
			if (i % every == 0)
				utki::log([c](std::ostream& o) { o << c; });
			else
				utki::logcat(c);
			{
				sim::quiet q;
				expected[0] += c;
				if (sim::out_pending(1))
					sim::fail("not-flushed", "after call %u text is held back in the process", i + 1);
			}
			if (i % every == 1) {
				try {
					utki::log([](std::ostream&) { throw callback_error{5}; });
				} catch (callback_error&) {
				}
			}
		}
		verify(0, "after many calls");
	}
	if (sim::chance(1, 2)) {
		uint32_t n = sim::range(1, sim::thorough() ? 30 : 16);
		bool faults = sim::chance(1, 3);
		std::optional<unsynced> own;
		if (sim::chance(1, 4)) {
			sim::quiet q;
			own.emplace();
			sim::probe("stream-with-its-own-buffer");
		}
		for (uint32_t i = 0; i < n; ++i) {
			if (faults && sim::chance(1, 4))
				failing_call();
			else if (sim::chance(1, 4))
				ambient([] { call(0, false); });
			else {
				if (sim::chance(1, 10)) {
					// what the stream was left with by other output does not matter
					std::cout.width(sim::choose(30));
					std::cout.fill('#');
					if (sim::coin())
						std::cout.setf(std::ios_base::unitbuf | std::ios_base::left | std::ios_base::uppercase);
					if (sim::coin())
						std::cout.exceptions(std::ios_base::badbit | std::ios_base::failbit);
				}
				call(0, false);
				if (sim::coin())
					reset_stream();
			}
			if (sim::chance(1, 20)) {
				// the process crashes here: what was logged is what the operating system has
				sim::fault("crash-after-call");
				break;
			}
		}
	} else {
		uint32_t nt = sim::range(2, max_threads);
		for (uint32_t t = 1; t < nt; ++t) {
			uint32_t calls = sim::range(1, 5);
			sim::spawn([t, calls] {
				for (uint32_t i = 0; i < calls; ++i)
					call(t, true);
			});
		}
		uint32_t calls = sim::range(1, 5);
		for (uint32_t i = 0; i < calls; ++i)
			call(0, true);
		sim::join_all();
		for (uint32_t t = 0; t < nt; ++t)
			verify(t, "at the end");
	}
	verify(0, "at the end");
	// nothing but what was logged
	sim::quiet q;
	size_t n;
	const char* p = sim::out_durable(1, &n);
	for (size_t i = 0; i < n; ++i) {
		bool known = p[i] == partial || p[i] == lost || !(p[i] >= 'a' && p[i] <= 'z');
		for (uint32_t t = 0; t <= max_threads; ++t)
			known = known || in(alphabet[t], p[i]);
		if (!known)
			sim::fail("text-extra", "output that nobody logged");
	}
	sim::out_durable(2, &n);
	if (n)
		sim::fail("text-extra", "log output on standard error");
}

void scenario_run()
{
	ambient(scenario);
}
