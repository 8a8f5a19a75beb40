// C07: scope guards on every way out of randomly nested scopes.
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>

#include <utki/utility.hpp>

#include "common.hpp"

const char* const scenario_id = "C07";

namespace {
struct plain {
	int id;
};
struct derived_error : std::runtime_error {
	int id;
	derived_error(int id) :
		std::runtime_error("derived error"),
		id(id)
	{}
};

int captures_alive = 0;
int copies = 0;

// what a guard's action captures
template <size_t size>
struct token {
	uint8_t pad[size];
	int id;
	explicit token(int id) :
		id(id)
	{
		memset(this->pad, uint8_t(id), size);
		++captures_alive;
	}
	token(const token& o) :
		id(o.id)
	{
		memcpy(this->pad, o.pad, size);
		++captures_alive;
	}
	~token()
	{
		memset(this->pad, 0xee, size);
		id = -1;
		--captures_alive;
	}
	void check(int want) const
	{
		for (uint8_t b : this->pad)
			if (b != uint8_t(want))
				sim::fail("capture-damaged", "the action's captured data changed");
		if (this->id != want)
			sim::fail("capture-damaged", "the action's captured data changed");
	}
};

struct guard_state {
	int id;
	bool armed = false; // its action has to run at scope exit
	bool released = false;
	bool running = false;
	int runs = 0;
	bool via_owner = false; // the released function is being called by its new owner
	uint32_t behaviour = 0;
	utki::scope_exit* guard = nullptr;
	std::optional<std::function<void()>> handed_back;
};

// from just before a guard is destroyed until its action starts, no memory can be had
std::optional<sim::alloc_scope> starved;

std::vector<guard_state>* guards;
std::vector<int>* live; // things alive in the scopes, innermost last: guard id, or -1-id of an object
uint32_t budget;
int next_id;

void step(uint32_t depth);

guard_state& G(int id)
{
	return (*guards)[size_t(id)];
}

void release_one()
{
	std::vector<int> can;
	{
		sim::quiet q;
		for (auto& g : *guards)
			if (g.guard && !g.released && !g.running)
				can.push_back(g.id);
		if (can.empty())
			return;
	}
	int id;
	{
		sim::quiet q;
		id = can[sim::choose(uint32_t(can.size()))];
		can = {};
		sim::ev("release", uint64_t(id), G(id).armed);
	}
	bool was_armed = G(id).armed;
	bool former_name = sim::chance(1, 4);
	std::function<void()> f;
	{
		sim::alloc_scope as(1, true); // a release needs no memory
		std::function<void()> r = former_name ? G(id).guard->reset() : G(id).guard->release();
		f.swap(r);
	}
	G(id).released = true;
	G(id).armed = false;
	if (bool(f) != was_armed)
		sim::fail("release", "release() of %s action handed back %s function", was_armed ? "an armed guard's" : "an empty", f ? "a" : "an empty");
	if (G(id).runs)
		sim::fail("release", "the action ran while it was being released");
	switch (sim::choose(3)) {
		case 0:
			break; // dropped without being called
		case 1:
			if (f) {
				G(id).via_owner = true;
				try {
					f();
				} catch (...) {
				}
				G(id).via_owner = false;
				if (G(id).runs != 1)
					sim::fail("release", "the function handed back is not the action that was given");
				G(id).runs = 0;
			}
			break;
		default:
			{
				// released twice: the second time there is nothing to hand back
				auto again = G(id).guard->release();
				if (again)
					sim::fail("release", "a released guard handed back a function again");
				sim::quiet q;
				G(id).handed_back = std::move(f); // kept until after the scope
			}
			break;
	}
}

void behave(int id)
{
	switch (G(id).behaviour) {
		case 1:
			sim::fault("action-throws");
			throw plain{id};
		case 2:
			sim::fault("action-throws");
			throw id;
		case 3:
			sim::fault("action-throws");
			throw derived_error(id);
		case 4:
			sim::fault("action-throws");
			throw std::string("a string as exception, long enough to need memory of its own");
		case 5:
			{
				sim::alloc_scope as(1);
				std::vector<int> v(10); // throws bad_alloc
				sim::fail("harness", "allocation did not fail");
			}
		case 6:
			if (budget) {
				// an action with scopes of its own, which may throw out of it
				sim::probe("scopes-inside-action");
				step(8);
			}
			break;
		case 7:
			release_one();
			break;
		case 8:
			{
				// an exception thrown and handled inside the action
				try {
					throw plain{-1};
				} catch (plain&) {
				}
			}
			break;
		default:
			break;
	}
}

template <size_t size>
struct action {
	token<size> t;
	explicit action(int id) :
		t(id)
	{}
	void operator()()
	{
		int id = this->t.id;
		if (id < 0 || size_t(id) >= guards->size())
			sim::fail("capture-damaged", "the action was called on destroyed data");
		this->t.check(id);
		guard_state& g = G(id);
		{
			sim::quiet q;
			starved.reset();
			sim::ev("action", uint64_t(id), uint64_t(g.behaviour), uint64_t(std::uncaught_exceptions() > 0));
			if (g.running)
				sim::fail("action-repeated", "action %d was entered again while running", id);
			++g.runs;
			if (g.runs > 1)
				sim::fail("action-repeated", "action %d ran twice", id);
			if (!g.via_owner) {
				if (g.released)
					sim::fail("released-ran", "action %d ran although its guard was released", id);
				// everything constructed later in the scope is gone
				for (size_t i = live->size(); i-- != 0;) {
					int x = (*live)[i];
					if (x == id)
						break;
					if (x < 0 || G(x).armed)
						sim::fail("order", "action %d ran before something constructed later was gone", id);
				}
			}
		}
		struct running {
			int id;
			running(int id) :
				id(id)
			{
				G(id).running = true;
			}
			~running()
			{
				G(id).running = false;
			}
		} r(id);
		behave(id);
		this->t.check(id);
	}
};

// declared before a guard: looks at what the guard did after it is gone
struct after {
	int id;
	~after()
	{
		sim::quiet q;
		guard_state& g = G(this->id);
		starved.reset();
		g.guard = nullptr;
		if (live->empty() || live->back() != this->id)
			sim::fail("harness", "scope stack");
		live->pop_back();
		sim::ev("scope-left", uint64_t(this->id), uint64_t(g.runs));
		int want = g.armed && !g.released ? 1 : 0;
		if (g.runs != want)
			sim::fail(g.runs ? "action-repeated" : "action-missed", "the action of guard %d ran %d times, %d expected", this->id, g.runs, want);
		g.armed = false;
	}
};

// declared after a guard: memory may run out while the guard does its work
struct before {
	int id;
	~before()
	{
		sim::quiet q;
		guard_state& g = G(this->id);
		if (!g.armed || g.released || starved || !sim::chance(1, 3))
			return;
		sim::fault("no-memory-at-scope-exit");
		starved.emplace(1, true);
	}
};

struct object {
	int id;
	std::unique_ptr<int> p;
	explicit object(int id) :
		id(id),
		p(new int(id))
	{
		sim::quiet q;
		live->push_back(-1 - id);
	}
	~object()
	{
		sim::quiet q;
		if (live->back() != -1 - this->id || *p != this->id)
			sim::fail("order", "object destroyed out of order");
		live->pop_back();
	}
	object(const object&) = delete;
};

struct scope_exception {
	uint64_t serial;
};
uint64_t exception_serial;

int new_guard()
{
	sim::quiet q;
	int id = int(guards->size());
	guards->emplace_back();
	G(id).id = id;
	G(id).behaviour = sim::choose(14);
	return id;
}

void step(uint32_t depth)
{
	if (budget == 0 || depth >= 12)
		return;
	--budget;
	switch (sim::choose(12)) {
		case 0:
			return; // normal exit
		case 1:
			{
				++exception_serial;
				sim::ev("throw", exception_serial);
				sim::fault("exception-leaves-scope");
				throw scope_exception{exception_serial};
			}
		case 2:
			{
				// a scope whose exception is caught here, then the enclosing scope goes on
				uint64_t before = exception_serial;
				bool threw = true;
				try {
					step(depth + 1);
					threw = false;
				} catch (scope_exception& e) {
					if (e.serial <= before || e.serial > exception_serial)
						sim::fail("exception-replaced", "a different exception arrived than the one that left the scope");
				} catch (plain&) {
					sim::fail("exception-replaced", "an action's exception left the guard");
				} catch (int) {
					sim::fail("exception-replaced", "an action's exception left the guard");
				} catch (std::bad_alloc&) {
					// from making an action or an object
				} catch (...) {
					sim::fail("exception-replaced", "an exception of another kind left the scope");
				}
				(void)threw;
				step(depth + 1);
				return;
			}
		case 3:
			{
				object o(next_id++);
				step(depth + 1);
				return;
			}
		case 4:
			release_one();
			step(depth + 1);
			return;
		case 5:
			{
				// a guard with an empty action
				int id = new_guard();
				{
					sim::quiet q;
					live->push_back(id);
				}
				after a{id};
				utki::scope_exit g(std::function<void()>(nullptr));
				G(id).guard = &g;
				step(depth + 1);
				return;
			}
		case 6:
			{
				// guard on the heap, ended by its owner
				int id = new_guard();
				{
					sim::quiet q;
					live->push_back(id);
				}
				after a{id};
				auto g = std::make_unique<utki::scope_exit>(action<200>(id));
				G(id).guard = g.get();
				G(id).armed = true;
				before b{id};
				step(depth + 1);
				return;
			}
		case 7:
			{
				// making the action fails: no guard, nothing runs
				int id = new_guard();
				{
					sim::quiet q;
					live->push_back(id);
				}
				after a{id};
				std::optional<utki::scope_exit> g;
				{
					sim::alloc_scope as(1);
					g.emplace(action<200>(id)); // needs memory: throws
				}
				sim::fail("harness", "allocation did not fail");
			}
		case 8:
		case 9:
			{
				int id = new_guard();
				{
					sim::quiet q;
					live->push_back(id);
				}
				after a{id};
				std::function<void()> f = action<300>(id);
				utki::scope_exit g(std::move(f));
				G(id).guard = &g;
				G(id).armed = true;
				before b{id};
				step(depth + 1);
				return;
			}
		default:
			{
				int id = new_guard();
				{
					sim::quiet q;
					live->push_back(id);
				}
				after a{id};
				utki::scope_exit g([id] {
					action<4> x(id);
					x();
				});
				G(id).guard = &g;
				G(id).armed = true;
				before b{id};
				step(depth + 1);
				return;
			}
	}
}

// more scopes than fit a small count, one after another or inside each other
void nested_scopes(uint32_t depth, uint32_t n, uint32_t throw_at, uint32_t& ran, bool& in_order)
{
	utki::scope_exit g([&ran, &in_order, depth, n] {
		in_order = in_order && ran == n - 1 - depth;
		++ran;
	});
	if (depth == throw_at)
		throw plain{int(depth)};
	if (depth + 1 < n)
		nested_scopes(depth + 1, n, throw_at, ran, in_order);
}
void many()
{
	if (sim::chance(1, 3)) {
		const uint32_t n = sim::range(100, 3000);
		uint32_t ran = 0;
		bool in_order = true, threw = false, throws = sim::coin();
		sim::ev("nested", n, throws);
		try {
			nested_scopes(0, n, throws ? n - 1 : n, ran, in_order);
		} catch (plain& p) {
			threw = p.id == int(n - 1);
		}
		if (ran != n || !in_order || threw != throws)
			sim::fail("run", "%u of %u nested actions ran%s", ran, n, in_order ? "" : ", not in order");
		return;
	}
	const uint32_t n = crowd_size();
	sim::ev("many", n);
	if (n > 65536)
		sim::probe("more-than-65536-scopes");
	const uint32_t every = sim::range(2, 9);
	uint32_t ran = 0, want = 0;
	for (uint32_t i = 0; i < n; ++i) {
		const bool release = i % every == 0, throws = i % 64 == 3;
		try {
			utki::scope_exit g([&ran] {
				++ran;
			});
			if (release)
				g.release();
			if (throws)
				throw plain{int(i)};
		} catch (plain& p) {
			if (p.id != int(i))
				sim::fail("exception-replaced", "another exception left scope %u", i);
		}
		want += !release;
		if (ran != want)
			sim::fail("run", "of %u scopes' actions %u ran instead of %u", i + 1, ran, want);
	}
}
} // namespace

static void scenario()
{
	if (sim::chance(1, 2000)) {
		many();
		return;
	}
	std::vector<guard_state> gs;
	std::vector<int> lv;
	{
		sim::quiet q;
		gs.reserve(400);
	}
	guards = &gs;
	live = &lv;
	starved.reset();
	captures_alive = 0;
	next_id = 0;
	exception_serial = 0;
	uint32_t rounds = sim::range(1, sim::thorough() ? 6 : 3);
	const int in_flight = std::uncaught_exceptions();
	for (uint32_t i = 0; i < rounds; ++i) {
		budget = sim::range(1, sim::thorough() ? 40 : 20);
		try {
			step(0);
		} catch (scope_exception& e) {
			if (e.serial > exception_serial)
				sim::fail("exception-replaced", "unknown exception");
		} catch (std::bad_alloc&) {
		} catch (...) {
			sim::fail("exception-replaced", "an exception of another kind left the scope");
		}
		if (std::uncaught_exceptions() != in_flight)
			sim::fail("exception-in-flight", "an exception is still in flight after its handler");
		if (!lv.empty())
			sim::fail("harness", "scope stack not empty");
	}
	{
		// functions handed back stay callable after their guards are gone
		for (auto& g : gs)
			if (g.handed_back && *g.handed_back) {
				g.via_owner = true;
				g.released = true;
				g.behaviour = 0;
				(*g.handed_back)();
				if (g.runs != 1)
					sim::fail("release", "the function handed back is not the action that was given");
				sim::quiet q;
				g.handed_back.reset();
			}
	}
	if (captures_alive != 0)
		sim::fail("capture-leaked", "%d of the actions' captured objects were not destroyed exactly once", captures_alive);
	guards = nullptr;
	live = nullptr;
	sim::quiet q;
	gs.clear();
	gs.shrink_to_fit();
	lv.clear();
	lv.shrink_to_fit();
}

void scenario_run()
{
	ambient(scenario);
}
