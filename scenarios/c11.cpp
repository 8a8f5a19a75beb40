// C11: failing and passing assertions with simulated terminals, standard error, memory and message callbacks.
#include <errno.h>

#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>

#include <utki/debug.hpp>
#include <utki/utility.hpp>

#include "common.hpp"

const char* const scenario_id = "C11";

namespace {
#ifdef DEBUG
constexpr bool debug_build = true;
#else
constexpr bool debug_build = false;
#endif

struct message_error {
	uint64_t id;
};
struct standard_message_error : message_error, std::runtime_error {
	standard_message_error(uint64_t id) :
		message_error{id},
		std::runtime_error("message")
	{}
};

struct request {
	uint32_t form; // which of the ways to assert
	bool holds; // the condition
	bool with_message;
	std::string message;
	uint32_t pieces; // the message is printed in that many pieces
	int thrown = 0; // 1, 2: the message callback throws half-way
	const char* file;
	uint32_t line;
};

struct outcome {
	bool continued = false;
	bool threw = false;
	uint32_t evaluated = 0; // condition
	uint32_t printed = 0; // message callback
};

constexpr uint32_t num_forms = 18;
bool debug_only(uint32_t form)
{
	return form < 13 || form >= 15;
}
bool macro(uint32_t form)
{
	return (form >= 9 && form <= 12) || form >= 16;
}

void print_message(std::ostream& o, const request& r, outcome& out)
{
	++out.printed;
	size_t n = r.message.size(), done = 0;
	for (uint32_t i = 0; i < r.pieces; ++i) {
		size_t k = i + 1 == r.pieces ? n - done : (n - done) / 2;
		o << std::string_view(r.message).substr(done, k);
		done += k;
		if (r.thrown && i == 0) {
			if (r.thrown == 1)
				throw message_error{r.line};
			throw standard_message_error(r.line);
		}
		sim::yield();
	}
}

bool condition(const request& r, outcome& out)
{
	++out.evaluated;
	return r.holds;
}

void do_assert(const request& r, outcome& out)
{
	utki::source_location sl(r.line, 0, r.file);
	auto print = [&](std::ostream& o) { print_message(o, r, out); };
	int dummy = 0;
	switch (r.form) {
		case 0:
			if (r.with_message)
				utki::assert(condition(r, out), print, sl);
			else
				utki::assert(condition(r, out), sl);
			break;
		case 1:
			{
				auto check = [&]() { return condition(r, out); };
				if (r.with_message)
					utki::assert(std::function<bool()>(check), print, sl);
				else {
					std::function<void(std::ostream&)> none;
					utki::assert(std::function<bool()>(check), none, sl);
				}
			}
			break;
		case 2:
			{
				int* p = condition(r, out) ? &dummy : nullptr;
				if (r.with_message)
					utki::assert(p, print, sl);
				else
					utki::assert(p, sl);
			}
			break;
		case 3:
			{
				std::shared_ptr<int> p;
				if (condition(r, out))
					p = std::make_shared<int>(1);
				if (r.with_message)
					utki::assert(p, print, sl);
				else
					utki::assert(p, sl);
			}
			break;
		case 4:
			{
				std::unique_ptr<int> p;
				if (condition(r, out))
					p = std::make_unique<int>(1);
				if (r.with_message)
					utki::assert(p, print, sl);
				else
					utki::assert(p, sl);
			}
			break;
		case 5:
			{
				std::function<void(int)> f;
				if (condition(r, out))
					f = [](int) {};
				if (r.with_message)
					utki::assert(f, print, sl);
				else
					utki::assert(f, sl);
			}
			break;
		case 6:
			{
				const int* p = condition(r, out) ? &dummy : nullptr;
				utki::assert(p, print, sl);
			}
			break;
		case 7:
			utki::assert(condition(r, out), nullptr, sl);
			break;
		case 8:
			{
				// the condition given as something to call, without a message
				auto check = [&]() { return condition(r, out); };
				utki::assert(check, nullptr, sl);
			}
			break;
		case 9:
			ASSERT(condition(r, out))
			break;
		case 10:
			ASSERT(condition(r, out), [&](auto& o) { print_message(o, r, out); })
			break;
		case 11:
			{
				std::shared_ptr<int> p;
				if (r.holds)
					p = std::make_shared<int>(1);
				ASSERT((++out.evaluated, p), [&](auto& o) { print_message(o, r, out); })
				(void)p;
			}
			break;
		case 12:
			ASSERT([&]() { return condition(r, out); }, [&](auto& o) { print_message(o, r, out); })
			break;
		case 13:
			if (r.with_message)
				utki::assert_always(condition(r, out), print, sl);
			else
				utki::assert_always(condition(r, out), sl);
			break;
		case 15:
			{
				auto check = [&]() { return condition(r, out); };
				utki::assert(std::function<bool()>(check), sl);
			}
			break;
		case 16:
			ASSERT([&]() { return condition(r, out); })
			break;
		case 17:
			{
				std::unique_ptr<int> p;
				if (r.holds)
					p = std::make_unique<int>(1);
				ASSERT((++out.evaluated, p))
			}
			break;
		default:
			utki::assert_always(condition(r, out), r.with_message ? std::function<void(std::ostream&)>(print) : nullptr, sl);
			break;
	}
	(void)print;
	out.continued = true;
}
bool takes_message(const request& r)
{
	switch (r.form) {
		case 6:
		case 10:
		case 11:
		case 12:
			return true;
		case 7:
		case 8:
		case 9:
		case 15:
		case 16:
		case 17:
			return false;
		default:
			return r.with_message;
	}
}

// file names of any length: parts of one long path
const char* file_name()
{
	static const char* const files[] = {"app/source.cpp", "x.c", "/a/rather/long/path/to/a/source file with spaces/in/its/name.cpp", "f%s%n.cpp"};
	static const std::string path = [] {
		std::string s;
		for (int i = 0; s.size() < 70000; ++i)
			s += "/directory" + std::to_string(i);
		return s + "/file.cpp";
	}();
	if (sim::chance(1, 8))
		return path.c_str() + path.size() - 8 - sim::log_uniform(sim::chance(1, 20) ? 16 : 10);
	return sim::pick(files);
}

request draw(uint32_t max_bits)
{
	sim::quiet q;
	request r;
	r.form = sim::chance(1, 4) ? 13 + sim::choose(2) : sim::choose(num_forms);
	r.holds = sim::coin();
	r.with_message = sim::chance(2, 3);
	uint32_t n = sim::log_uniform(sim::chance(1, 100) ? 17 : max_bits);
	uint32_t x = sim::choose(9973);
	for (uint32_t i = 0; i < n; ++i) {
		x = x * 1103515245u + 12345u;
		char c = "ABCDEFGHIJKLMN %\n\0"[(x >> 16) % 18];
		r.message += c;
	}
	r.pieces = 1 + sim::choose(3);
	// a default-constructed location has no file name
	r.file = sim::chance(1, 12) ? nullptr : file_name();
	r.line = sim::chance(1, 10) ? sim::log_uniform(31) * 2u + sim::choose(2) : 100000 + sim::choose(800000);
	return r;
}

std::string error_output()
{
	size_t n;
	const char* p = sim::out_durable(2, &n);
	return std::string(p, n);
}

bool effective(const request& r)
{
	return debug_build || !debug_only(r.form);
}

void check_passing(const request& r, const outcome& o, bool aborted)
{
	if (aborted)
		sim::fail("aborted", "an assertion that holds%s ended the program (form %u)", effective(r) ? "" : " not in this build", r.form);
	if (o.threw)
		sim::fail("wrong-exception", "an assertion that passes threw");
	if (o.printed)
		sim::fail("evaluated", "an assertion that passes evaluated its message");
}

// debug-only assertions in release builds, and their conditions
void check_evaluated(const request& r, const outcome& o)
{
	uint32_t want = 1;
	if (!debug_build && (macro(r.form) || r.form == 1 || r.form == 8 || r.form == 15))
		want = 0; // passed unevaluated, or as something that is not to be called
	if (o.evaluated != want)
		sim::fail("evaluated", "the condition was evaluated %u times, %u expected (form %u)", o.evaluated, want, r.form);
}

void check_report(const std::string& got, const request& r, bool terminal)
{
	if (!macro(r.form)) {
		if ((r.file && got.find(r.file) == std::string::npos) || got.find(std::to_string(r.line)) == std::string::npos)
			sim::fail("report", "the report does not have the location of the assertion");
	} else if (got.find("c11.cpp") == std::string::npos)
		sim::fail("report", "the report does not have the location of the assertion");
	if (takes_message(r) && got.find(r.message) == std::string::npos)
		sim::fail("report", "the report does not have the whole message (%zu characters of output, message of %zu)", got.size(), r.message.size());
	if ((got.find('\033') != std::string::npos) != terminal)
		sim::fail("colour", "the report is %s although standard error is %s terminal", terminal ? "not coloured" : "coloured", terminal ? "a" : "no");
	if (got.empty() || got.back() != '\n')
		sim::fail("report", "the report does not end its line");
}

void no_output(const char* when)
{
	size_t n;
	sim::out_durable(1, &n);
	if (n || sim::out_pending(1))
		sim::fail("output", "%s wrote to standard output", when);
}

void alone()
{
	bool tty[3];
	for (int i = 0; i < 3; ++i) {
		tty[i] = sim::coin();
		sim::set_tty(i, tty[i]);
	}
	static const int errors[] = {ENOTTY, EINVAL, EBADF};
	sim::set_tty_errno(sim::pick(errors));
	uint32_t n = sim::range(1, 6);
	for (uint32_t i = 0; i < n; ++i) {
		if (sim::chance(1, 6)) {
			// the terminal queries, each about its own stream
			bool got[3] = {utki::is_terminal_cin(), utki::is_terminal_cout(), utki::is_terminal_cerr()};
			if (sim::coin()) { // by their former names
				got[0] = utki::is_cin_terminal();
				got[1] = utki::is_cout_terminal();
				got[2] = utki::is_cerr_terminal();
			}
			for (int k = 0; k < 3; ++k)
				if (got[k] != tty[k])
					sim::fail("terminal", "the query about descriptor %d says %d", k, got[k]);
			continue;
		}
		request r = draw(sim::thorough() ? 14 : 12);
		if (i + 1 < n)
			r.holds = r.holds || sim::coin();
		sim::ev("assert", r.form, r.holds, r.message.size());
		bool fails = effective(r) && !r.holds;
		outcome o;
		uint32_t fault = fails ? sim::choose(6) : 0;
		std::string before;
		{
			sim::quiet q;
			before = error_output();
		}
		uint32_t fail_at = 0;
		bool persist = false;
		if (fault == 1 && takes_message(r))
			r.thrown = 1 + int(sim::choose(2));
		else if (fault == 2) {
			fail_at = 1 + sim::choose(12);
			persist = sim::coin();
		} else if (fault == 3)
			sim::out_fail_at(1 + sim::choose(3), sim::out_fault(sim::choose(3)), sim::coin());
		else
			fault = 0;
		if (r.thrown)
			sim::fault("message-callback-throws");
		bool aborted = sim::catch_abort([&] {
			try {
				if (fail_at) {
					sim::alloc_scope as(fail_at, persist);
					do_assert(r, o);
				} else
					do_assert(r, o);
			} catch (message_error& e) {
				o.threw = true;
			} catch (std::bad_alloc&) {
				o.threw = true;
			} catch (std::ios_base::failure&) {
				o.threw = true;
			}
		});
		sim::out_fail_at(0, sim::out_short, false);
		sim::quiet q;
		sim::ev("outcome", aborted, o.threw, o.continued);
		if (!fails) {
			check_passing(r, o, aborted);
			check_evaluated(r, o);
			if (error_output() != before)
				sim::fail("output", "an assertion that passes wrote to standard error");
			no_output("an assertion that passes");
			continue;
		}
		if (o.continued)
			sim::fail("continued", "execution continued past a failing assertion (form %u)", r.form);
		if (!aborted && !o.threw)
			sim::fail("continued", "a failing assertion neither aborted nor threw");
		if (o.threw && fault == 0)
			sim::fail("wrong-exception", "a failing assertion left by an exception although nothing failed");
		if (fault == 0) {
			check_evaluated(r, o);
			if (o.printed != (takes_message(r) ? 1 : 0))
				sim::fail("evaluated", "the message was evaluated %u times", o.printed);
			check_report(error_output().substr(before.size()), r, tty[2]);
			no_output("a failing assertion");
		}
		if (aborted)
			return; // the end of the process
		std::cerr.clear();
	}
}

#if CFG_CPP >= 20
// the location given by default is that of the caller
void default_location()
{
	uint32_t line = 0;
	bool aborted = sim::catch_abort([&] {
		line = __LINE__ + 1;
		utki::assert_always(false, [](std::ostream& o) { o << "THE MESSAGE"; });
	});
	sim::quiet q;
	if (!aborted)
		sim::fail("continued", "execution continued past a failing assertion");
	std::string got = error_output();
	if (got.find("c11.cpp") == std::string::npos || got.find(std::to_string(line)) == std::string::npos || got.find("THE MESSAGE") == std::string::npos)
		sim::fail("report", "the report does not have the caller's location and message");
}
#endif

// several threads assert; one fails


void together()
{

	static bool failed[3];
	uint32_t nt = sim::range(2, 3);
	uint32_t failing = sim::choose(nt + 1);
	for (uint32_t t = 0; t < nt; ++t) {
		failed[t] = false;
		uint32_t n = sim::range(1, 4);
		sim::spawn([t, n, failing] {
			for (uint32_t i = 0; i < n; ++i) {
				request r = draw(7);
				r.holds = true;
				outcome o;
				do_assert(r, o);
				if (!o.continued)
					sim::fail("aborted", "an assertion that holds did not let execution continue");
				check_passing(r, o, false);
				check_evaluated(r, o);
			}
			if (t == failing) {
				request r = draw(6);
				r.form = 13;
				r.holds = false;
				r.with_message = true;
				outcome o;
				bool aborted = sim::catch_abort([&] { do_assert(r, o); });
				sim::quiet q;
				if (o.continued || !aborted)
					sim::fail("continued", "execution continued past a failing assertion");
				check_report(error_output(), r, false);
				failed[t] = true;
			}
		});
	}
	sim::join_all();
	no_output("an assertion");
	bool any = false;
	for (bool f : failed)
		any = any || f;
	if (!any && !error_output().empty())
		sim::fail("output", "an assertion that passes wrote to standard error");
}
} // namespace

static void scenario()
{
	std::cerr.exceptions(std::ios_base::goodbit);
	std::cerr.clear();
	sim::out_capture(true);
	struct finish {
		~finish()
		{
			sim::out_capture(false);
		}
	} fin;
#if CFG_CPP >= 20
	if (sim::chance(1, 50))
		return default_location();
#endif
	if (sim::chance(1, 1500)) {
		// more assertions than fit a small count, all of which hold
		const uint32_t n = crowd_size();
		sim::ev("marathon", n);
		if (n > 65536)
			sim::probe("more-than-65536-assertions");
		uint32_t evaluated = 0, messages = 0;
		for (uint32_t i = 0; i < n; ++i)
			switch (i % 3) {
				case 0:
					utki::assert_always(i % 3 == 0, [&](std::ostream& o) { o << "no report " << ++messages; }, SL);
					break;
				case 1:
					utki::assert(
						[&] {
							++evaluated;
							return true;
						},
						[&](std::ostream& o) { o << "no report " << ++messages; },
						SL
					);
					break;
				default:
					ASSERT(++evaluated, [&](std::ostream& o) { o << "no report " << ++messages; })
					break;
			}
#ifdef DEBUG
		const uint32_t want = n - (n + 2) / 3;
#else
		const uint32_t want = 0;
#endif
		if (evaluated != want || messages)
			sim::fail("evaluated", "%u conditions were evaluated instead of %u, and %u messages of assertions that hold", evaluated, want, messages);
		sim::quiet q;
		if (!error_output().empty())
			sim::fail("output", "an assertion that passes wrote to standard error");
	}
	if (sim::scheduling_build() && sim::chance(1, 4))
		together();
	else
		alone();
}

void scenario_run()
{
	ambient(scenario);
}
