// C05 singletons: one instance, found by all; failed and second creations; re-creation; concurrent readers.
#include "common.hpp"

#include <cstring>
#include <memory>
#include <stdexcept>

#include <utki/singleton.hpp>

const char* const scenario_id = "C05";

namespace {
struct ctor_failure {};

// what the history says about one singleton type
struct model {
	void* inst = nullptr; // address of the registered instance while one exists
	int payload = 0;
	int constructions = 0;
	int destructions = 0;
};
model M[4];
int g_mode; // how the next construction goes
int g_payload;

template <class t>
void expect_this(t* self, int k, const char* where)
{
	if (!t::is_created())
		sim::fail("not-created", "%s: is_created() is false", where);
	if (&t::inst() != self)
		sim::fail("wrong-instance", "%s: inst() yields another object", where);
	(void)k;
}
template <class t>
void body(t* self, int k)
{
	expect_this(self, k, "constructor body");
	if (g_mode == 1)
		throw ctor_failure();
	if (g_mode == 2) {
		// a second instance while the first is under construction
		bool threw = false;
		int m = g_mode;
		g_mode = 9;
		try {
			std::unique_ptr<t> second(new t());
		} catch (std::logic_error&) {
			threw = true;
		}
		g_mode = m;
		if (!threw)
			sim::fail("second-instance", "a second instance was created during construction of the first");
		expect_this(self, k, "constructor body after a refused second creation");
	}
	self->payload = g_payload;
	self->complete = true;
	++M[k].constructions;
}
template <class t>
void dtor_body(t* self, int k)
{
	expect_this(self, k, "destructor body");
	if (self->complete)
		++M[k].destructions;
}
struct fields {
	int payload = -1;
	bool complete = false;
	std::string text;
};
struct member_that_throws {
	member_that_throws()
	{
		if (g_mode == 3)
			throw ctor_failure();
	}
};
struct s0 : utki::singleton<s0>, fields {
	member_that_throws m;
	s0()
	{
		text.assign(g_mode == 4 ? 60 : 1, 'a');
		body(this, 0);
	}
	~s0() override
	{
		dtor_body(this, 0);
	}
};
struct padding {
	virtual ~padding() = default;
	long pad = 3;
};
struct s1 : padding, utki::singleton<s1>, fields {
	member_that_throws m;
	s1()
	{
		text.assign(g_mode == 4 ? 60 : 1, 'b');
		body(this, 1);
	}
	~s1() override
	{
		dtor_body(this, 1);
	}
};
class s2 : public utki::intrusive_singleton<s2>, public fields
{
	friend class utki::intrusive_singleton<s2>;
	static instance_type instance;

public:
	member_that_throws m;
	s2()
	{
		text.assign(g_mode == 4 ? 60 : 1, 'c');
		body(this, 2);
	}
	~s2() override
	{
		dtor_body(this, 2);
	}
};
s2::instance_type s2::instance;
// two types sharing an owner class are two uses of the owner: the owner keeps one instance variable
struct owner3;
struct s3 : utki::intrusive_singleton<s3, owner3>, fields {
	member_that_throws m;
	s3();
	~s3() override;
};
struct owner3 {
	static std::unique_ptr<s3> instance;
};
std::unique_ptr<s3> owner3::instance;
s3::s3()
{
	text.assign(g_mode == 4 ? 60 : 1, 'd');
	body(this, 3);
}
s3::~s3()
{
	dtor_body(this, 3);
}

void verify_registered(int k);
template <class t>
void verify(int k, const char* where)
{
	bool c = t::is_created();
	if (c != (M[k].inst != nullptr))
		sim::fail("is-created", "%s: is_created() of type %d is %d, an instance %s", where, k, int(c), M[k].inst ? "exists" : "does not exist");
	if (c) {
		t& i = t::inst();
		if (static_cast<void*>(&i) != M[k].inst)
			sim::fail("wrong-instance", "%s: inst() of type %d yields another object", where, k);
		if (i.payload != M[k].payload || !i.complete)
			sim::fail("wrong-instance", "%s: instance of type %d is damaged", where, k);
	}
}
void verify_all(const char* where)
{
	verify<s0>(0, where);
	verify<s1>(1, where);
	verify<s2>(2, where);
	verify<s3>(3, where);
}

template <class t>
void refuse_second()
{
	if (!t::is_created())
		return;
	bool threw = false;
	try {
		std::unique_ptr<t> p(new t());
	} catch (std::logic_error&) {
		threw = true;
	}
	if (!threw)
		sim::fail("second-instance", "a second instance was created");
}

template <class t>
struct life {
	std::unique_ptr<t> p;
	alignas(t) unsigned char mem[sizeof(t)];
	t* placed = nullptr;
};

template <class t>
void create(life<t>& l, int k, bool faults)
{
	int mode = faults ? int(sim::choose(6)) : int(sim::choose(2)) * 2;
	uint32_t fail_at = 0;
	if (faults && sim::chance(1, 3))
		fail_at = 1 + sim::choose(3);
	bool in_place = sim::chance(1, 3);
	g_mode = mode;
	g_payload = int(sim::choose(1000));
	bool exists = M[k].inst != nullptr;
	int before = M[k].constructions, dbefore = M[k].destructions;
	sim::ev("create", uint64_t(k), uint64_t(mode), fail_at);
	void* got = nullptr;
	bool threw = false;
	try {
		sim::alloc_scope as(fail_at);
		if (in_place && !l.placed && !exists) {
			l.placed = new (l.mem) t();
			got = l.placed;
		} else if (!exists) {
			l.p.reset(new t());
			got = l.p.get();
		} else {
			std::unique_ptr<t> second(new t());
			got = second.get();
			sim::fail("second-instance", "a second instance of type %d was created", k);
		}
	} catch (ctor_failure&) {
		threw = true;
		sim::fault("constructor-throws");
		if (exists || (mode != 1 && mode != 3))
			sim::fail("wrong-exception", "construction failed for no reason");
	} catch (std::logic_error&) {
		threw = true;
		sim::fault("second-creation");
		if (!exists)
			sim::fail("refused-creation", "creation refused although no instance of type %d exists", k);
	} catch (std::bad_alloc&) {
		threw = true;
		sim::fault("alloc-fail");
		if (!fail_at)
			sim::fail("wrong-exception", "bad_alloc without a failing allocation");
	}
	g_mode = 0;
	if (threw) {
		if (M[k].constructions - before != M[k].destructions - dbefore)
			sim::fail("half-constructed", "a failed creation left an instance of type %d behind", k);
		if (in_place && !exists)
			l.placed = nullptr;
	} else {
		M[k].inst = got;
		M[k].payload = g_payload;
	}
}
template <class t>
void destroy(life<t>& l, int k)
{
	if (!M[k].inst)
		return;
	sim::ev("destroy", uint64_t(k));
	int before = M[k].destructions;
	if (l.placed) {
		l.placed->~t();
		l.placed = nullptr;
	} else
		l.p.reset();
	M[k].inst = nullptr;
	if (M[k].destructions != before + 1)
		sim::fail("destruction", "destroying the instance of type %d ran its destructor %d times", k, M[k].destructions - before);
}

extern "C" char __data_start, _end;
// The process exits while the instance exists (it is a static object that is destroyed later): the exit-time actions
// of static objects which refer to the instance run; the instance must survive them and still be found by everybody.
template <class t>
void process_exit(int k)
{
	if (!t::is_created())
		return;
	t* self = &t::inst();
	const auto lo = reinterpret_cast<uintptr_t>(self), hi = lo + sizeof(t);
	const sim::exit_action* acts = nullptr;
	size_t n = sim::exit_actions(&acts);
	int before = M[k].destructions;
	for (size_t i = n; i-- > 0;) {
		auto a = reinterpret_cast<uintptr_t>(acts[i].arg);
		if (a < reinterpret_cast<uintptr_t>(&__data_start) || a + sizeof(void*) > reinterpret_cast<uintptr_t>(&_end) ||
			a % alignof(void*) != 0)
			continue;
		uintptr_t word;
		memcpy(&word, acts[i].arg, sizeof(word));
		if (word < lo || word >= hi)
			continue;
		sim::ev("exit-action", uint64_t(k));
		sim::probe("exit-action-runs");
		acts[i].fn(acts[i].arg);
		if (M[k].destructions != before)
			sim::fail("exit-order", "at process exit a static object destroyed the instance of type %d, which somebody else owns", k);
		if (!t::is_created() || &t::inst() != self)
			sim::fail("exit-order", "while the process exits the instance of type %d is no longer found", k);
	}
	sim::ev("process-exit", uint64_t(k));
	sim::fault("process-exit");
	verify<t>(k, "while the process exits");
}

// more instances, one after another, and more refused ones, than fit a small count
void marathon()
{
	const uint32_t n = crowd_size();
	sim::ev("marathon", n);
	if (n > 65536)
		sim::probe("more-than-65536-instances");
	const uint32_t kind = sim::choose(3);
	g_payload = int(sim::choose(1000));
	life<s0> a;
	life<s1> b;
	if (kind == 2)
		create(a, 0, false);
	for (uint32_t i = 0; i < n; ++i) {
		if (kind == 2) {
			refuse_second<s0>();
			verify<s0>(0, "after many refusals");
			continue;
		}
		M[kind].payload = g_payload;
		if (kind == 0) {
			a.p.reset(new s0());
			M[0].inst = a.p.get();
			verify<s0>(0, "while one of many lives");
			if (i % 1024 == 0)
				refuse_second<s0>();
			a.p.reset();
			M[0].inst = nullptr;
			verify<s0>(0, "between many");
		} else {
			new (b.mem) s1();
			auto* o = std::launder(reinterpret_cast<s1*>(b.mem));
			M[1].inst = o;
			verify<s1>(1, "while one of many lives");
			o->~s1();
			M[1].inst = nullptr;
			verify<s1>(1, "between many");
		}
	}
	verify_all("after many");
	destroy(a, 0);
	create(a, 0, false);
	create(b, 1, false);
	verify_all("created after many");
	destroy(a, 0);
	destroy(b, 1);
	verify_all("end");
}
} // namespace

static void scenario()
{
	for (auto& m : M)
		m = model();
	g_mode = 0;
	if (sim::chance(1, 1500)) {
		marathon();
		return;
	}
	life<s0> a;
	life<s1> b;
	life<s2> c;
	life<s3> d;
	bool faults = sim::chance(3, 4);
	uint32_t phases = sim::range(1, sim::thorough() ? 5 : 3);
	verify_all("start");
	for (uint32_t ph = 0; ph < phases; ++ph) {
		uint32_t n = sim::range(1, 12);
		for (uint32_t i = 0; i < n; ++i) {
			bool make = sim::chance(3, 5);
			switch (sim::choose(4)) {
				case 0:
					make ? create(a, 0, faults) : destroy(a, 0);
					break;
				case 1:
					make ? create(b, 1, faults) : destroy(b, 1);
					break;
				case 2:
					make ? create(c, 2, faults) : destroy(c, 2);
					break;
				default:
					make ? create(d, 3, faults) : destroy(d, 3);
					break;
			}
			verify_all("after an operation");
		}
		if (sim::chance(1, 2)) {
			// readers, and one thread that tries (in vain) to create second instances of what exists
			int nt = int(sim::range(2, 4));
			for (int t = 0; t < nt; ++t)
				sim::spawn([t] {
					uint32_t m;
					{
						sim::quiet q;
						m = sim::range(1, 4);
					}
					for (uint32_t i = 0; i < m; ++i)
						verify_all("concurrent reader");
					if (t % 2 == 0) {
						refuse_second<s0>();
						refuse_second<s2>();
						refuse_second<s1>();
						verify_all("after a refused creation");
					}
				});
			sim::join_all();
			sim::probe("concurrent-readers");
		}
	}
	if (sim::chance(1, 6)) {
		process_exit<s0>(0);
		process_exit<s1>(1);
		process_exit<s2>(2);
	}
#ifdef DEBUG
	if (!M[0].inst && sim::chance(1, 8)) {
		bool aborted = sim::catch_abort([] {
			s0::inst().payload = 1;
		});
		if (!aborted)
			sim::fail("access-to-nothing", "inst() without an instance went unnoticed in a debug build");
	}
#endif
	destroy(a, 0);
	destroy(b, 1);
	destroy(c, 2);
	destroy(d, 3);
	verify_all("end");
}

void scenario_run()
{
	ambient(scenario);
}
