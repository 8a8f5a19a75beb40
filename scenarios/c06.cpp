// C06 signals: who is called, how often, in which order, with what; under callbacks that throw, connect, disconnect others and
// emit again, and failing allocations.
#include "common.hpp"

#include <functional>
#include <map>
#include <memory>
#include <stdexcept>

#include <utki/signal.hpp>

const char* const scenario_id = "C06";

namespace {
struct callback_failure {
	int cb;
	uint64_t serial;
};
struct standard_callback_failure : callback_failure, std::runtime_error {
	standard_callback_failure(int cb, uint64_t serial) :
		callback_failure{cb, serial},
		std::runtime_error("callback")
	{}
};
struct call_callback_failure : callback_failure, std::bad_function_call {
	call_callback_failure(int cb, uint64_t serial) :
		callback_failure{cb, serial}
	{}
};

std::string long_text(uint64_t v)
{
	std::string s = "argument text longer than any small-string buffer #";
	s += std::to_string(v);
	return s;
}

// ---- argument kinds -----------------------------------------------------------------------------
struct k_none {
	using sig = utki::signal<>;
	template <class f>
	static void emit(f&& e, uint64_t)
	{
		e();
	}
	static bool ok(uint64_t)
	{
		return true;
	}
	static constexpr bool single = false;
};
struct k_values {
	using sig = utki::signal<int, std::string, std::vector<int>>;
	template <class f>
	static void emit(f&& e, uint64_t v)
	{
		e(int(v), long_text(v), std::vector<int>(3, int(v)));
	}
	// takes its own copies and empties them
	static bool ok(uint64_t v, int a, std::string b, std::vector<int> c)
	{
		std::string taken = std::move(b);
		std::vector<int> t2 = std::move(c);
		return a == int(v) && taken == long_text(v) && t2 == std::vector<int>(3, int(v));
	}
	static constexpr bool single = false;
};
struct k_const_ref {
	using sig = utki::signal<const std::string&, std::string>;
	template <class f>
	static void emit(f&& e, uint64_t v)
	{
		std::string s = long_text(v);
		e(s, long_text(v + 1));
		if (s != long_text(v))
			sim::fail("argument-changed", "the emitter's own object was changed");
	}
	static bool ok(uint64_t v, const std::string& a, std::string b)
	{
		std::string taken = std::move(b);
		return a == long_text(v) && taken == long_text(v + 1);
	}
	static constexpr bool single = false;
};
struct k_ref {
	using sig = utki::signal<std::string&>;
	static std::string* obj;
	template <class f>
	static void emit(f&& e, uint64_t v)
	{
		std::string s = long_text(v);
		std::string* saved = obj;
		obj = &s;
		struct restore {
			std::string* s;
			~restore()
			{
				obj = s;
			}
		} r{saved};
		e(s);
	}
	static bool ok(uint64_t v, std::string& a)
	{
		return &a == obj && a == long_text(v);
	}
	static constexpr bool single = false;
};
std::string* k_ref::obj;
struct k_shared {
	using sig = utki::signal<std::shared_ptr<int>, char>;
	template <class f>
	static void emit(f&& e, uint64_t v)
	{
		auto p = std::make_shared<int>(int(v));
		e(p, char(v));
	}
	static bool ok(uint64_t v, std::shared_ptr<int> p, char c)
	{
		auto q = std::move(p);
		return q && *q == int(v) && c == char(v);
	}
	static constexpr bool single = false;
};
struct k_move_only {
	using sig = utki::signal<std::unique_ptr<int>>;
	template <class f>
	static void emit(f&& e, uint64_t v)
	{
		e(std::make_unique<int>(int(v)));
	}
	static bool ok(uint64_t v, std::unique_ptr<int> p)
	{
		auto q = std::move(p);
		return q && *q == int(v);
	}
	static constexpr bool single = true; // a move-only value can reach one callback only
};

template <class k>
struct world {
	typename k::sig s;

	struct entry {
		int id;
		typename k::sig::connection conn;
		bool connected = true;
		int running = 0; // emissions in which it is being called right now
	};
	std::vector<entry> all; // index = id
	std::vector<int> order; // ids connected, in connection order

	struct frame {
		uint64_t serial;
		std::vector<int> expected; // connected when the emission began
		std::vector<int> called;
		int threw = -1; // callback that left by exception
	};
	std::vector<frame*> stack;
	uint64_t serial = 0;
	uint32_t budget = 0; // of changes made from inside callbacks
	bool faults = false;
	size_t limit = 60;
	size_t max_depth = 3; // of emissions inside emissions

	void check_size()
	{
		sim::quiet q;
		if (s.size() != order.size() || s.empty() != order.empty())
			sim::fail("size", "size() is %zu with %zu connections", s.size(), order.size());
	}

	struct cb {
		world* w;
		int id;
		std::string ballast; // makes some callbacks need memory

		template <class... a>
		void operator()(a&&... args) const
		{
			w->called(id, std::forward<a>(args)...);
		}
	};

	template <class... a>
	void called(int id, a&&... args)
	{
		frame& f = *stack.back();
		{
			sim::quiet q;
			sim::ev("called", uint64_t(id), f.serial);
			if (!all[size_t(id)].connected)
				sim::fail("disconnected-called", "callback %d was called after it was disconnected", id);
			for (int c : f.called)
				if (c == id)
					sim::fail("called-twice", "callback %d was called twice in one emission", id);
			f.called.push_back(id);
			++all[size_t(id)].running;
		}
		struct leave {
			int& n;
			~leave()
			{
				--n;
			}
		};
		size_t depth;
		{
			sim::quiet q;
			depth = stack.size();
		}
		struct unrun {
			world* w;
			int id;
			~unrun()
			{
				--w->all[size_t(id)].running;
			}
		} u{this, id};
		bool good = k::ok(f.serial, std::forward<a>(args)...);
		if (!good)
			sim::fail("wrong-arguments", "callback %d (call number %zu of the emission) did not get the emitted values", id, f.called.size());
		uint32_t what;
		{
			sim::quiet q;
			what = budget ? sim::choose(12) : 0;
		}
		switch (what) {
			case 1:
			case 2:
				--budget;
				connect();
				break;
			case 3:
			case 4:
				--budget;
				disconnect_some();
				break;
			case 8:
				if (max_depth == 3)
					break;
				[[fallthrough]];
			case 5:
				if (depth < max_depth) {
					--budget;
					sim::probe("emission-inside-emission");
					try {
						emit();
					} catch (callback_failure& e) {
						f.threw = e.cb;
						throw;
					}
				}
				break;
			case 6:
				if (faults) {
					--budget;
					sim::fault("callback-throws");
					f.threw = id;
					switch (sim::choose(3)) {
						case 0:
							throw callback_failure{id, f.serial};
						case 1:
							throw standard_callback_failure(id, f.serial);
						default:
							throw call_callback_failure(id, f.serial);
					}
				}
				break;
			case 7:
				if (depth < max_depth && faults) {
					--budget;
					try {
						emit();
					} catch (callback_failure&) {
					} catch (std::bad_alloc&) {
					}
				}
				break;
			default:
				break;
		}
	}

	void connect()
	{
		int id;
		uint32_t fail_at = 0;
		size_t ballast;
		{
			sim::quiet q;
			if (k::single && !order.empty())
				return;
			if (all.size() > limit)
				return;
			id = int(all.size());
			ballast = sim::coin() ? 100 : 0;
			if (faults && sim::chance(1, 4))
				fail_at = 1 + sim::choose(4);
			// known to the model before the call, in case it is called right away by mistake
			all.push_back(entry{id, {}, true, 0});
			sim::ev("connect", uint64_t(id), fail_at);
		}
		try {
			sim::alloc_scope as(fail_at);
			auto c = s.connect(cb{this, id, std::string(ballast, 'b')});
			sim::quiet q;
			all[size_t(id)].conn = c;
			order.push_back(id);
		} catch (std::bad_alloc&) {
			sim::quiet q;
			sim::fault("alloc-fail-in-connect");
			all[size_t(id)].connected = false;
			if (!fail_at)
				sim::fail("wrong-exception", "connect() threw bad_alloc by itself");
		}
		check_size();
	}
	void disconnect_some()
	{
		int id;
		{
			sim::quiet q;
			std::vector<int> can;
			for (int i : order)
				if (!all[size_t(i)].running)
					can.push_back(i);
			if (can.empty())
				return;
			id = can[sim::choose(uint32_t(can.size()))];
			all[size_t(id)].connected = false;
			for (size_t i = 0; i < order.size(); ++i)
				if (order[i] == id) {
					order.erase(order.begin() + long(i));
					break;
				}
			sim::ev("disconnect", uint64_t(id));
			if (!stack.empty())
				sim::probe("disconnect-during-emission");
		}
		{
			sim::alloc_scope as(1, true); // disconnecting needs no memory
			s.disconnect(all[size_t(id)].conn);
		}
		check_size();
	}
	void emit()
	{
		frame f;
		uint32_t fail_at = 0;
		{
			sim::quiet q;
			f.serial = ++serial * 1000;
			f.expected = order;
			stack.push_back(&f);
			if (faults && stack.size() == 1 && sim::chance(1, 6))
				fail_at = 1 + sim::choose(12);
			sim::ev("emit", f.serial, order.size());
		}
		bool complete = false;
		size_t depth = stack.size();
		struct pop {
			world* w;
			size_t depth;
			~pop()
			{
				sim::quiet q;
				if (w->stack.size() != depth)
					sim::fail("harness", "emission stack");
				w->stack.pop_back();
			}
		};
		{
			pop p{this, depth};
			try {
				k::emit(
					[&](auto&&... a) {
						sim::alloc_scope as(fail_at);
						s.emit(std::forward<decltype(a)>(a)...);
					},
					f.serial
				);
				complete = true;
				if (f.threw >= 0)
					sim::fail("exception-lost", "the exception of callback %d did not reach the emitter", f.threw);
			} catch (callback_failure& e) {
				if (e.cb != f.threw)
					sim::fail("wrong-exception", "the exception of callback %d arrived as that of %d", f.threw, e.cb);
				verify(f, false);
				throw;
			} catch (std::bad_alloc&) {
				sim::fault("alloc-fail-in-emission");
				verify(f, false);
				throw;
			}
			verify(f, complete);
		}
		check_size();
	}
	void verify(frame& f, bool complete)
	{
		sim::quiet q;
		// callbacks connected at the start and still connected: in order, and all of them unless an exception cut the emission
		std::vector<int> must, did;
		for (int i : f.expected)
			if (all[size_t(i)].connected)
				must.push_back(i);
		for (int i : f.called) {
			for (int m : must)
				if (m == i)
					did.push_back(i);
		}
		// order among everything called: connection order is id order
		for (size_t i = 1; i < f.called.size(); ++i)
			if (f.called[i - 1] >= f.called[i])
				sim::fail("order", "callback %d was called before callback %d", f.called[i - 1], f.called[i]);
		if (complete) {
			if (did != must)
				sim::fail("missed-callback", "%zu of %zu connected callbacks were called", did.size(), must.size());
		} else {
			for (size_t i = 0; i < did.size(); ++i)
				if (did[i] != must[i])
					sim::fail("missed-callback", "callback %d was skipped", must[i]);
		}
	}
	void run()
	{
		faults = sim::chance(2, 3);
		uint32_t n = sim::range(2, sim::thorough() ? 40 : 24);
		bool quiet_callbacks = sim::chance(1, 3);
		uint32_t most_changes = 8;
		if (sim::chance(1, 100)) {
			// emissions nested deeply in callbacks, and a long history of them
			sim::probe("deep-or-long");
			if (sim::coin()) {
				max_depth = sim::range(4, sim::thorough() ? 400 : 150);
				most_changes = uint32_t(max_depth) * 3;
			} else
				n = sim::range(100, sim::thorough() ? 1000 : 300);
			limit = 1000;
		}
		if (!k::single && sim::chance(1, 200)) {
			// a crowd
			sim::probe("more-than-64-connections");
			bool fs = faults;
			faults = false;
			limit = 1000;
			for (uint32_t i = sim::range(65, sim::thorough() ? 900 : 400); i; --i)
				connect();
			faults = fs;
		}
		for (uint32_t i = 0; i < n; ++i) {
			switch (sim::choose(6)) {
				case 0:
				case 1:
				case 2:
					connect();
					break;
				case 3:
					disconnect_some();
					break;
				default:
					budget = quiet_callbacks ? 0 : sim::choose(most_changes);
					try {
						emit();
					} catch (callback_failure& e) {
						sim::ev("failure-reached-emitter", uint64_t(e.cb));
					} catch (std::bad_alloc&) {
					}
					budget = 0;
					// whatever happened, the connections are intact: all are called by a quiet emission
					if (sim::coin()) {
						bool fs = faults;
						faults = false;
						emit();
						faults = fs;
					}
					break;
			}
		}
		while (!order.empty())
			disconnect_some();
		check_size();
	}
};
// more connections, or more emissions, than fit a small count
void crowd()
{
	const uint32_t n = crowd_size();
	sim::ev("crowd", n);
	if (n > 65536)
		sim::probe("more-than-65536-connections-or-emissions");
	utki::signal<uint32_t> s;
	using con = utki::signal<uint32_t>::connection;
	uint32_t last = 0, calls = 0;
	bool in_order = true;
	if (sim::coin()) {
		auto* cons = new con[n];
		for (uint32_t i = 0; i < n; ++i)
			cons[i] = s.connect([&, i](uint32_t v) {
				in_order = in_order && v == 7 && (calls == 0 || last < i);
				last = i;
				++calls;
			});
		if (s.size() != n)
			sim::fail("size", "size() is %zu with %u connections", s.size(), n);
		uint32_t left = n;
		const uint32_t each = sim::range(2, 5), rest = sim::choose(each);
		for (int round = 0; round < 3; ++round) {
			calls = 0;
			s.emit(7);
			if (calls != left || !in_order)
				sim::fail("missed-callback", "%u of %u callbacks were called%s", calls, left, in_order ? "" : ", not in order");
			if (round == 2)
				break;
			// some go; then all but a few
			for (uint32_t i = 0; i < n; ++i)
				if (round == 0 ? i % each == rest : i % each != rest && i % 1000 != 3) {
					s.disconnect(cons[i]);
					--left;
				}
			if (s.size() != left)
				sim::fail("size", "size() is %zu with %u connections", s.size(), left);
		}
		for (uint32_t i = 0; i < n; ++i)
			if (i % each != rest && i % 1000 == 3)
				s.disconnect(cons[i]);
		delete[] cons;
	} else {
		uint32_t want = 0;
		auto a = s.connect([&](uint32_t v) {
			++calls;
			in_order = in_order && v == want;
		});
		con b;
		bool has_b = false;
		for (; want < n; ++want) {
			if (want % 16 == 5) {
				// some come and go
				if (has_b)
					s.disconnect(b);
				else
					b = s.connect([&](uint32_t v) {
						in_order = in_order && v == want;
						++calls;
					});
				has_b = !has_b;
			}
			calls = 0;
			s.emit(want);
			if (calls != 1u + has_b || !in_order)
				sim::fail("missed-callback", "emission %u made %u calls instead of %u, or with other values", want, calls, 1u + has_b);
		}
		if (has_b)
			s.disconnect(b);
		s.disconnect(a);
	}
	if (!s.empty())
		sim::fail("size", "size() is %zu without connections", s.size());
}

template <class k>
void go()
{
	world<k> w;
	w.run();
}
} // namespace

static void scenario()
{
	if (sim::chance(1, 2000)) {
		crowd();
		return;
	}
	switch (sim::choose(6)) {
		case 0:
			go<k_none>();
			break;
		case 1:
			go<k_values>();
			break;
		case 2:
			go<k_const_ref>();
			break;
		case 3:
			go<k_ref>();
			break;
		case 4:
			go<k_shared>();
			break;
		default:
			go<k_move_only>();
			break;
	}
}

void scenario_run()
{
	ambient(scenario);
}
