// C08: descriptions of chains of nested exceptions, with failing memory and type-name lookup, and from several threads.
#include <cxxabi.h>

#include <memory>
#include <stdexcept>

#include <utki/exception.hpp>

#include "common.hpp"

const char* const scenario_id = "C08";

namespace app {
template <class t>
struct error : std::exception {
	std::string text;
	explicit error(const std::string& s) :
		text(s)
	{}
	const char* what() const noexcept override
	{
		return this->text.c_str();
	}
};
struct library_error : utki::exception {
	std::string text;
	explicit library_error(const std::string& s) :
		text(s)
	{}
	const char* what() const noexcept override
	{
		return this->text.c_str();
	}
};
struct shared_text : std::exception {
	std::shared_ptr<std::string> text;
	explicit shared_text(const std::string& s) :
		text(std::make_shared<std::string>(s))
	{}
	const char* what() const noexcept override
	{
		return this->text->c_str();
	}
};
struct plain {
	long data[3];
};
template <class a, class b>
struct odd {
	a x;
	b y;
};
struct lonely : std::nested_exception {};
} // namespace app

namespace {
enum how_t { base, utki_nest, std_nest };
enum type_t { t_runtime, t_logic, t_invalid, t_error_long, t_error_vector, t_library, t_shared, t_std_end, t_plain = t_std_end, t_odd, t_integer, t_cstr, t_string, t_lonely, t_end };

struct level {
	how_t how;
	type_t type;
	std::string msg; // of the standard types
	bool decoy;
};
using chain = std::vector<level>; // innermost first

std::string name_of(const std::type_info& ti)
{
	sim::quiet q;
	int status = 0;
	char* n = abi::__cxa_demangle(ti.name(), nullptr, nullptr, &status);
	std::string r = status == 0 ? n : ti.name();
	free(n);
	return r;
}
const std::type_info& type_of(type_t t)
{
	switch (t) {
		case t_runtime:
			return typeid(std::runtime_error);
		case t_logic:
			return typeid(std::logic_error);
		case t_invalid:
			return typeid(std::invalid_argument);
		case t_error_long:
			return typeid(app::error<long>);
		case t_error_vector:
			return typeid(app::error<std::vector<app::plain>>);
		case t_library:
			return typeid(app::library_error);
		case t_shared:
			return typeid(app::shared_text);
		case t_plain:
			return typeid(app::plain);
		case t_odd:
			return typeid(app::odd<app::plain, char>);
		case t_integer:
			return typeid(int);
		case t_cstr:
			return typeid(const char*);
		case t_string:
			return typeid(std::string);
		default:
			return typeid(app::lonely);
	}
}

struct decoy_error : std::runtime_error {
	using std::runtime_error::runtime_error;
};

template <class t>
[[noreturn]] void wrap(how_t how, t&& e)
{
	using type = std::remove_cv_t<std::remove_reference_t<t>>;
	if (how == utki_nest) {
		if constexpr (std::is_base_of_v<std::exception, type>)
			utki::throw_with_nested(type(std::forward<t>(e)));
		sim::fail("harness", "not a standard type");
	}
	if (how == std_nest) {
		if constexpr (std::is_class_v<type> && !std::is_same_v<type, app::lonely>)
			std::throw_with_nested(type(std::forward<t>(e)));
	}
	throw type(std::forward<t>(e));
}

// called with the exceptions inside it being handled
[[noreturn]] void raise(const level& l)
{
	if (l.decoy) {
		// another exception, thrown and handled in between, is not part of the chain
		try {
			throw decoy_error("DECOY");
		} catch (decoy_error&) {
		}
	}
	switch (l.type) {
		case t_runtime:
			wrap(l.how, std::runtime_error(l.msg));
		case t_logic:
			wrap(l.how, std::logic_error(l.msg));
		case t_invalid:
			wrap(l.how, std::invalid_argument(l.msg));
		case t_error_long:
			wrap(l.how, app::error<long>(l.msg));
		case t_error_vector:
			wrap(l.how, app::error<std::vector<app::plain>>(l.msg));
		case t_library:
			wrap(l.how, app::library_error(l.msg));
		case t_shared:
			wrap(l.how, app::shared_text(l.msg));
		case t_plain:
			wrap(l.how, app::plain{});
		case t_odd:
			wrap(l.how, app::odd<app::plain, char>{});
		case t_integer:
			wrap(l.how, 42);
		case t_cstr:
			throw static_cast<const char*>("a literal");
		case t_string:
			wrap(l.how, std::string("a string that is long enough to be on the heap, thrown as it is"));
		default:
			throw app::lonely();
	}
}

std::exception_ptr make(const chain& c, size_t n)
{
	std::exception_ptr p;
	for (size_t i = 0; i < n; ++i) {
		try {
			if (!p)
				raise(c[i]);
			try {
				std::rethrow_exception(p);
			} catch (...) {
				raise(c[i]);
			}
		} catch (...) {
			p = std::current_exception();
		}
	}
	return p;
}

chain draw(uint32_t max_depth, uint32_t tag)
{
	sim::quiet q;
	chain c;
	uint32_t depth = 1 + (sim::chance(1, 16) ? sim::choose(max_depth) : sim::choose(6));
	if (depth > max_depth)
		depth = max_depth;
	uint32_t mix = sim::choose(3); // library nesting only, standard nesting only, both
	for (uint32_t i = 0; i < depth; ++i) {
		level l;
		if (i == 0) {
			// std::throw_with_nested() while nothing is handled makes an exception that nests nothing
			l.how = sim::chance(1, 6) ? std_nest : base;
			l.type = sim::chance(1, 3) ? type_t(t_std_end + sim::choose(t_end - t_std_end)) : type_t(sim::choose(t_std_end));
		} else {
			l.how = mix == 0 ? utki_nest : mix == 1 ? std_nest : sim::coin() ? utki_nest : std_nest;
			l.type = type_t(sim::choose(t_std_end));
			if (l.how == std_nest && sim::chance(1, 4)) {
				static const type_t odd_types[] = {t_plain, t_odd, t_string};
				l.type = sim::pick(odd_types);
			}
		}
		l.decoy = sim::chance(1, 8);
		uint32_t id = tag * 1000 + i;
		std::string body;
		switch (sim::choose(5)) {
			case 0:
				break;
			case 1:
				body = "SHORT";
				break;
			case 2:
				body = "WITH \n TWO LINES: %S %N";
				break;
			case 3:
				body = std::string(20 + sim::choose(60), 'X');
				break;
			default:
				body = std::string(sim::chance(1, 1000) ? crowd_size() : sim::log_uniform(sim::thorough() ? 13 : 11), 'Y');
				break;
		}
		l.msg = "<" + std::to_string(id) + ":" + body + ":" + std::to_string(id) + ">";
		if (sim::chance(1, 12))
			l.msg.clear();
		c.push_back(std::move(l));
	}
	return c;
}

// checks that `text` names types and messages of levels [0, n) of c, outermost first. `lookup_fails`: mangled names are
// as good. `first_by_name`: the outermost one is named by its type only.
void verify(const char* what, const std::string& text, const chain& c, size_t n, bool lookup_fails, bool first_by_name, size_t down_to = 0)
{
	sim::quiet q;
	size_t pos = 0;
	for (size_t i = n; i-- != down_to;) {
		const level& l = c[i];
		const std::type_info& ti = type_of(l.type);
		size_t at = text.find(name_of(ti), pos);
		if (at == std::string::npos && lookup_fails)
			at = text.find(ti.name(), pos);
		if (at == std::string::npos)
			sim::fail("type-missing", "%s of a chain of %zu does not name the type of level %zu (%s)", what, n, i, name_of(ti).c_str());
		pos = at + 1;
		if (l.type < t_std_end && !l.msg.empty() && !(first_by_name && i + 1 == n)) {
			at = text.find(l.msg, pos);
			if (at == std::string::npos)
				sim::fail("message-missing", "%s of a chain of %zu does not have the message of level %zu", what, n, i);
			pos = at + l.msg.size();
			if (text.find(l.msg) + l.msg.size() != pos || text.find(l.msg, pos) != std::string::npos)
				sim::fail("message-repeated", "%s of a chain of %zu has the message of level %zu more than once", what, n, i);
		}
	}
	if (text.find("DECOY") != std::string::npos)
		sim::fail("wrong-chain", "%s has an exception that was not in the chain", what);
}

// a text given when something failed: complete, or recognisably not the description
void verify_degraded(const char* what, const std::string& text, const std::string& full, const chain& c, size_t n)
{
	sim::quiet q;
	if (text == full)
		return;
	sim::probe("degraded-text");
	if (text.empty())
		sim::fail("text-cut", "%s is empty after a failure", what);
	size_t whole = 0, messages = 0;
	for (size_t i = 0; i < n; ++i) {
		if (c[i].type >= t_std_end || c[i].msg.empty())
			continue;
		++messages;
		std::string open = c[i].msg.substr(0, c[i].msg.find(':') + 1);
		if (text.find(c[i].msg) != std::string::npos)
			++whole;
		else if (text.find(open) != std::string::npos)
			sim::fail("text-cut", "%s was silently cut inside the message of level %zu", what, i);
	}
	bool says_so = false;
	for (const char* w : {"error", "could not", "failed", "...", "out of memory"})
		if (text.find(w) != std::string::npos)
			says_so = true;
	if (whole != messages && !says_so)
		sim::fail("text-cut", "%s was silently cut: %zu of %zu messages", what, whole, messages);
	if (full.compare(0, text.size(), text) == 0)
		sim::fail("text-cut", "%s was silently cut to %zu of %zu characters", what, text.size(), full.size());
}

struct faults {
	uint32_t alloc = 0;
	bool persistent = false;
	uint32_t demangle = 0;
	int status = 0;
};

std::string describe(uint32_t form, const std::exception& e, const utki::exception* u, std::string_view indent)
{
	switch (form) {
		case 0:
			return e.what();
		case 1:
			return utki::to_string(e, indent);
		default:
			return u ? u->to_string(indent) : utki::to_string(e, indent);
	}
}

// inspects the exception p, made of levels [0, n) of c
void inspect(const std::exception_ptr& p, const chain& c, size_t n, bool with_faults, uint32_t rounds)
{
	const level& top = c[n - 1];
	try {
		std::rethrow_exception(p);
	} catch (std::exception& e) {
		auto* u = dynamic_cast<utki::exception*>(&e);
		if (top.type >= t_std_end)
			sim::fail("wrong-exception", "an exception of another type arrived");
		if (top.how == utki_nest && !u)
			sim::fail("wrong-exception", "the exception is not catchable as the library's exception");
		const char* what = e.what();
		std::string before = what;
		for (uint32_t i = 0; i < rounds; ++i) {
			uint32_t form = sim::choose(3);
			std::string padding;
			std::string_view indent = sim::coin() ? std::string_view("  * ") : std::string_view();
			if (n < 20 && sim::chance(1, 20)) {
				padding.assign(sim::log_uniform(sim::chance(1, 50) ? 17 : 11), sim::coin() ? ' ' : '\t');
				indent = padding;
			}
			if (form == 0) {
				// the message of a plain exception is not a description of the chain
				std::string t = describe(0, e, u, indent);
				if (top.how == utki_nest)
					verify("what()", t, c, n, false, false);
				else if (t != top.msg)
					sim::fail("message-missing", "what() of the outermost exception changed");
				continue;
			}
			std::string full = describe(form, e, u, indent);
			verify(form == 1 ? "to_string(e)" : "e.to_string()", full, c, n, false, false);
			if (!with_faults)
				continue;
			if (sim::coin()) {
				uint32_t count;
				{
					sim::alloc_scope as;
					std::string t = describe(form, e, u, indent);
					count = as.count();
				}
				if (count == 0)
					continue;
				uint32_t k = 1 + sim::choose(count);
				bool persist = sim::coin();
				sim::ev("describe-alloc", form, k, count);
				try {
					std::string t;
					{
						sim::alloc_scope as(k, persist);
						t = describe(form, e, u, indent);
					}
					if (t != full)
						sim::fail("text-cut", "the text is silently wrong (%zu of %zu characters) after memory failed", t.size(), full.size());
				} catch (std::bad_alloc&) {
				} catch (std::ios_base::failure&) {
				}
			} else {
				uint32_t d0 = sim::demangle_calls();
				std::string t = describe(form, e, u, indent);
				uint32_t count = sim::demangle_calls() - d0;
				if (!count)
					continue;
				int status = -1 - int(sim::choose(3));
				sim::demangle_fail_at(sim::demangle_calls() + 1 + sim::choose(count), status);
				sim::ev("describe-demangle", form, count);
				try {
					t = describe(form, e, u, indent);
					verify("to_string()", t, c, n, true, false);
				} catch (std::exception&) {
				}
				sim::demangle_fail_at(0, 0);
			}
		}
		if (before != what)
			sim::fail("text-changed", "the text obtained from the exception changed while the exception was alive");
		if (strcmp(e.what(), before.c_str()) != 0)
			sim::fail("text-changed", "what() gives another text the second time");
	} catch (...) {
		if (top.type < t_std_end)
			sim::fail("wrong-exception", "an exception of another type arrived");
		for (uint32_t i = 0; i < rounds; ++i) {
			std::string full = utki::current_exception_to_string("# ");
			verify("current_exception_to_string()", full, c, n, false, true);
			if (!with_faults)
				continue;
			uint32_t count;
			{
				sim::alloc_scope as;
				std::string t = utki::current_exception_to_string("# ");
				count = as.count();
			}
			if (!count)
				continue;
			uint32_t k = 1 + sim::choose(count);
			bool persist = sim::coin();
			sim::ev("describe-current-alloc", k, count);
			try {
				std::string t;
				{
					sim::alloc_scope as(k, persist);
					t = utki::current_exception_to_string("# ");
				}
				if (t != full)
					sim::fail("text-cut", "the text is silently wrong (%zu of %zu characters) after memory failed", t.size(), full.size());
			} catch (std::bad_alloc&) {
			} catch (std::ios_base::failure&) {
			}
		}
		if (!std::current_exception())
			sim::fail("wrong-exception", "the exception is no longer the one being handled");
	}
}

// throws level n - 1 of c on top of the chain under it, with faults while it is being thrown
void throw_with_faults(const std::exception_ptr& under, const chain& c, size_t n)
{
	const level& top = c[n - 1];
	if (top.how != utki_nest)
		return;
	std::string full;
	{
		std::exception_ptr p = make(c, n);
		try {
			std::rethrow_exception(p);
		} catch (std::exception& e) {
			full = e.what();
		}
	}
	uint32_t allocs = 0, lookups = 0;
	try {
		std::rethrow_exception(under);
	} catch (...) {
		uint32_t d0 = sim::demangle_calls();
		sim::alloc_scope as;
		try {
			raise(top);
		} catch (utki::exception&) {
			allocs = as.count();
		}
		lookups = sim::demangle_calls() - d0;
	}
	bool memory = sim::chance(2, 3);
	if (!memory && !lookups)
		return;
	uint32_t k = 1 + sim::choose(allocs + 1);
	bool persist = sim::coin();
	std::exception_ptr made;
	try {
		try {
			std::rethrow_exception(under);
		} catch (...) {
			if (memory) {
				sim::ev("throw-alloc", k, allocs);
				try {
					sim::alloc_scope as(k, persist);
					raise(top);
				} catch (...) {
					made = std::current_exception();
				}
			} else {
				sim::ev("throw-demangle", lookups);
				sim::demangle_fail_at(sim::demangle_calls() + 1 + sim::choose(lookups), -1 - int(sim::choose(3)));
				try {
					raise(top);
				} catch (...) {
					made = std::current_exception();
				}
				sim::demangle_fail_at(0, 0);
			}
			std::rethrow_exception(made);
		}
	} catch (utki::exception& e) {
		std::string t = e.what();
		if (memory)
			verify_degraded("what()", t, full, c, n);
		else
			verify("what()", t, c, n, true, false);
		// memory is back: the whole chain is still there
		verify("to_string() after a failure", e.to_string(), c, n, false, false);
		if (t != e.what())
			sim::fail("text-changed", "what() gives another text the second time");
	} catch (std::bad_alloc&) {
		// making the exception object itself needs memory
		if (!memory)
			sim::fail("wrong-exception", "bad_alloc out of a failing type-name lookup");
	} catch (...) {
		sim::fail("wrong-exception", "an exception of another type came out");
	}
}

// a chain much deeper than those the other runs look at
void deep()
{
	uint32_t cap = sim::thorough() ? 800 : 400;
	chain c;
	{
		sim::quiet q;
		c = draw(2, 1);
		uint32_t mix = sim::choose(3);
		// the library describes the chain at every level it adds
		uint32_t n = sim::range(50, mix == 1 ? cap : cap / 2);
		for (uint32_t i = uint32_t(c.size()); i < n; ++i) {
			level l;
			l.how = mix == 0 ? utki_nest : mix == 1 ? std_nest : sim::chance(1, 8) ? utki_nest : std_nest;
			l.type = l.how == std_nest && sim::chance(1, 6) ? t_plain : type_t(sim::choose(t_std_end));
			l.decoy = false;
			l.msg = "<" + std::to_string(1000 + i) + ":DEEP:" + std::to_string(1000 + i) + ">";
			c.push_back(std::move(l));
		}
	}
	size_t n = c.size();
	sim::ev("deep-chain", n);
	std::exception_ptr p = make(c, n);
	inspect(p, c, n, false, 2);
	if (n > 256)
		sim::probe("more-than-256-levels");
}

void alone()
{
	if (!sim::scheduling_build() && sim::chance(1, 128)) {
		deep();
		return;
	}
	chain c = draw(sim::scheduling_build() ? 24 : sim::thorough() ? 150 : 60, 1);
	size_t n = c.size();
	sim::ev("chain", n);
	std::exception_ptr p = make(c, n);
	inspect(p, c, n, false, sim::range(1, 3));
	bool with_faults = sim::chance(3, 4);
	if (with_faults) {
		uint32_t r = sim::range(1, n > 12 ? 2 : 5);
		for (uint32_t i = 0; i < r; ++i) {
			if (n > 1 && c[n - 1].how == utki_nest && sim::coin())
				throw_with_faults(make(c, n - 1), c, n);
			else
				inspect(p, c, n, true, 1);
		}
		inspect(p, c, n, false, 2); // and everything works again
	}
	// a copy outlives the original
	if (c[n - 1].how == utki_nest && sim::coin()) {
		try {
			std::rethrow_exception(p);
		} catch (utki::stacked_exception<std::runtime_error>& e) {
			utki::stacked_exception<std::runtime_error> copy(e);
			p = nullptr;
			{
				chain other = draw(3, 9);
				make(other, other.size());
			}
			verify("what() of a copy", copy.what(), c, n, false, false);
			verify("to_string() of a copy", copy.to_string(), c, n, false, false);
		} catch (utki::exception&) {
		}
	}
	if (sim::chance(1, 8) && !std::current_exception()) {
		try {
			auto s = utki::current_exception_to_string();
			sim::fail("no-exception", "there is no exception, yet it was described");
		} catch (std::logic_error&) {
		}
	}
}

void together()
{
	static chain shared;
	static std::exception_ptr p;
	{
		sim::quiet q;
		shared = draw(8, 1);
	}
	bool wrap_it = sim::coin();
	{
		sim::quiet q;
		if (wrap_it && shared.back().how != utki_nest) {
			level l{utki_nest, t_error_long, "<1999:SHARED:1999>", false};
			shared.push_back(l);
		}
	}
	p = make(shared, shared.size());
	uint32_t nt = sim::range(2, sim::thorough() ? 4 : 3);
	for (uint32_t i = 0; i < nt; ++i) {
		chain own;
		bool with_own;
		uint32_t rounds;
		{
			sim::quiet q;
			with_own = sim::chance(1, 3);
			if (with_own)
				own = draw(4, 2 + i);
			rounds = sim::range(1, 2);
		}
		// each thread has its own reference to the one exception
		std::exception_ptr mine = p;
		sim::spawn([own, with_own, rounds, mine] {
			if (with_own) {
				std::exception_ptr o = make(own, own.size());
				inspect(o, own, own.size(), false, 1);
			}
			inspect(mine, shared, shared.size(), false, rounds);
		});
	}
	// (the count of references is kept by the run-time library, outside what is instrumented: the last one is dropped
	// after the threads are joined)
	sim::join_all();
	p = nullptr;
	sim::quiet q;
	shared = {};
}
} // namespace

void scenario_run()
{
	if (sim::scheduling_build() && sim::chance(2, 3))
		together();
	else
		alone();
}
