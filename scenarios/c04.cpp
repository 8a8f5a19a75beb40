// C04 unique references: one owner at a time, destroyed exactly once through the dynamic type.
#include "common.hpp"

#include <memory>
#include <mutex>
#include <optional>

#include <utki/destructable.hpp>
#include <utki/unique_ref.hpp>

const char* const scenario_id = "C04";

namespace {
constexpr int max_objects = 256;
constexpr int n_slots = 4;

struct record {
	bool constructed = false;
	int owned = 0; // owners according to the history
	int destroyed = 0;
	int derived_destroyed = 0;
	int kind = 0;
};
struct world {
	record rec[max_objects];
	int n_objects = 0;
} * W;

struct ctor_failure {
	int id;
};
struct tracked {
	int id;
	uint32_t payload;
	bool complete = false;
	tracked(int id) :
		id(id),
		payload(uint32_t(id) * 2246822519u)
	{}
	tracked(const tracked&) = delete;
	void born(int kind)
	{
		sim::quiet q;
		complete = true;
		W->rec[id].constructed = true;
		W->rec[id].kind = kind;
		sim::ev("born", uint64_t(id));
	}
	~tracked()
	{
		if (!complete)
			return;
		uint32_t p = payload;
		sim::quiet q;
		record& r = W->rec[id];
		sim::ev("destroyed", uint64_t(id));
		if (++r.destroyed != 1)
			sim::fail("destroyed-twice", "destructor of object %d ran %d times", id, r.destroyed);
		if (r.owned > 0)
			sim::fail("destroyed-early", "object %d destroyed while it is owned", id);
		if (r.derived_destroyed != 1)
			sim::fail("sliced-destruction", "object %d not destroyed through its dynamic type", id);
		if (p != uint32_t(id) * 2246822519u)
			sim::fail("payload", "object %d was overwritten", id);
	}
};
struct padding {
	virtual ~padding() = default;
	long pad = 7;
};
struct base;
// objects may own the next one
struct link {
	std::optional<utki::unique_ref<base>> r;
	int id = -1;
	bool passed_on = false;
	link() = default;
	link(const link&) = delete;
	~link();
};
struct base {
	tracked t;
	link next;
	base(int id) :
		t(id)
	{}
	virtual ~base() = default;
	bool operator<(const base& o) const
	{
		return t.id < o.t.id;
	}
	bool operator==(const base& o) const
	{
		return t.id == o.t.id;
	}
};
void derived_gone(tracked& t)
{
	sim::quiet q;
	if (t.complete)
		++W->rec[t.id].derived_destroyed;
}
struct derived : padding, base {
	std::string text;
	derived(int id, int mode) :
		base(id),
		text(mode == 3 ? 50 : 2, 'y')
	{
		if (mode == 1)
			throw ctor_failure{id};
		t.born(1);
	}
	~derived() override
	{
		derived_gone(t);
	}
};
struct erased : padding, utki::destructable {
	tracked t;
	std::string text;
	erased(int id, int mode) :
		t(id),
		text(mode == 3 ? 50 : 2, 'z')
	{
		if (mode == 1)
			throw ctor_failure{id};
		t.born(2);
	}
	~erased() override
	{
		derived_gone(t);
	}
};

template <class t>
struct holder {
	std::optional<utki::unique_ref<t>> r;
	int id = -1;
};
link::~link()
{
	if (!this->r || this->passed_on)
		return;
	{
		sim::quiet q;
		--W->rec[this->id].owned;
	}
	this->r.reset();
	sim::quiet q;
	if (W->rec[this->id].destroyed != 1)
		sim::fail("not-destroyed", "the owner of object %d is gone and its destructor ran %d times", this->id, W->rec[this->id].destroyed);
}

struct slot {
	holder<base> b;
	holder<const base> c;
	holder<derived> d;
	holder<utki::destructable> e;
	std::unique_ptr<base> p;
	int pi = -1;
	std::unique_ptr<utki::destructable> x;
	int xi = -1;
};
struct mailbox {
	std::mutex m;
	holder<base> b;
	holder<utki::destructable> e;
};

void own(int id)
{
	sim::quiet q;
	if (++W->rec[id].owned != 1)
		sim::fail("two-owners", "object %d has %d owners", id, W->rec[id].owned);
	if (W->rec[id].destroyed)
		sim::fail("dead-object", "object %d was destroyed while being passed on", id);
}
void disown(int id)
{
	if (id < 0)
		return;
	sim::quiet q;
	--W->rec[id].owned;
}
void gone(int id)
{
	if (id < 0)
		return;
	sim::quiet q;
	if (W->rec[id].destroyed != 1)
		sim::fail("not-destroyed", "the owner of object %d is gone and its destructor ran %d times", id, W->rec[id].destroyed);
}
template <class t>
void drop(holder<t>& h)
{
	if (!h.r)
		return;
	int id = h.id;
	disown(id);
	h.r.reset();
	gone(id);
	h.id = -1;
}
// moves the reference in `from` (possibly of another type) to `to`
template <class t, class f>
void pass(holder<t>& to, holder<f>& from, bool assign)
{
	int id = from.id;
	if (id < 0 || static_cast<void*>(&to) == static_cast<void*>(&from))
		return;
	if (to.r && assign) {
		int old = to.id;
		disown(old);
		*to.r = std::move(*from.r);
		gone(old);
	} else {
		drop(to);
		to.r.emplace(std::move(*from.r));
	}
	sim::quiet q;
	to.id = id;
	if (W->rec[id].destroyed)
		sim::fail("dead-object", "object %d was destroyed by a move", id);
	from.id = -1;
	from.r.reset(); // moved-from references may be destroyed
	if (W->rec[id].destroyed)
		sim::fail("dead-object", "object %d was destroyed by destroying a moved-from reference", id);
}
void look(int id, const base& o)
{
	sim::quiet q;
	if (W->rec[id].destroyed)
		sim::fail("dead-object", "reading destroyed object %d", id);
	if (o.t.id != id)
		sim::fail("wrong-object", "a reference to object %d reads as object %d", id, o.t.id);
}

void user(int me, int nt, uint32_t n, mailbox* boxes, bool faults)
{
	slot sl[n_slots];
	for (uint32_t step = 0; step < n; ++step) {
		uint32_t op, i, j, x, fail_at = 0;
		bool assign;
		{
			sim::quiet q;
			op = sim::choose(20);
			i = sim::choose(n_slots);
			j = sim::choose(n_slots);
			x = sim::choose(64);
			assign = sim::coin();
			if (faults && sim::chance(1, 4))
				fail_at = 1 + sim::choose(3);
			sim::ev("op", uint64_t(me), op, i * 8 + j);
		}
		slot& a = sl[i];
		slot& b = sl[j];
		// nothing but creation needs memory
		switch (op) {
			case 0:
			case 1:
			case 2:
			case 3: {
				int id;
				{
					sim::quiet q;
					if (W->n_objects >= max_objects)
						break;
					id = W->n_objects++;
				}
				int mode = int(x % 6);
				if (!faults && mode == 1)
					mode = 0;
				try {
					switch (op) {
						case 0: {
							drop(a.b);
							sim::alloc_scope as(fail_at);
							a.b.r.emplace(utki::make_unique<derived>(id, mode));
							a.b.id = id;
						} break;
						case 1: {
							drop(a.d);
							sim::alloc_scope as(fail_at);
							a.d.r.emplace(utki::make_unique<derived>(id, mode));
							a.d.id = id;
						} break;
						case 2: {
							drop(a.e);
							sim::alloc_scope as(fail_at);
							a.e.r.emplace(utki::make_unique<erased>(id, mode));
							a.e.id = id;
						} break;
						default: {
							drop(a.c);
							sim::alloc_scope as(fail_at);
							a.c.r.emplace(utki::unique_ref<const base>(std::unique_ptr<const base>(new derived(id, mode))));
							a.c.id = id;
						} break;
					}
					own(id);
				} catch (ctor_failure& f) {
					sim::fault("constructor-throws");
					if (f.id != id || mode != 1)
						sim::fail("wrong-exception", "unexpected constructor failure");
				} catch (std::bad_alloc&) {
					sim::fault("alloc-fail-in-make");
					if (!fail_at)
						sim::fail("wrong-exception", "bad_alloc without a failing allocation");
				}
				sim::quiet q;
				record& r = W->rec[id];
				if (r.owned == 0 && r.constructed && r.destroyed != 1)
					sim::fail("leaked-object", "failed creation of object %d left it alive", id);
			} break;
			case 4:
				pass(a.b, b.b, assign);
				break;
			case 5:
				pass(a.c, b.b, assign);
				break;
			case 6:
				pass(a.b, b.d, assign);
				break;
			case 7:
				pass(a.c, b.d, assign);
				break;
			case 8:
				pass(a.d, b.d, assign);
				break;
			case 9:
				pass(a.e, b.e, assign);
				break;
			case 10: // to unique_ptr
				if (b.b.r) {
					int old = a.pi, id = b.b.id;
					disown(old);
					a.p = std::move(*b.b.r).to_unique_ptr();
					gone(old);
					sim::quiet q;
					a.pi = id;
					b.b.id = -1;
					b.b.r.reset();
					if (!a.p || a.p->t.id != id)
						sim::fail("wrong-object", "conversion to unique_ptr lost object %d", id);
				} else if (b.e.r) {
					int old = a.xi, id = b.e.id;
					disown(old);
					a.x = std::move(*b.e.r).to_unique_ptr();
					gone(old);
					sim::quiet q;
					a.xi = id;
					b.e.id = -1;
					b.e.r.reset();
					if (!a.x)
						sim::fail("wrong-object", "conversion to unique_ptr lost object %d", id);
				}
				break;
			case 11: // and back
				if (b.p) {
					drop(a.b);
					int id = b.pi;
					a.b.r.emplace(std::move(b.p));
					sim::quiet q;
					a.b.id = id;
					b.pi = -1;
				} else if (b.x) {
					drop(a.e);
					int id = b.xi;
					a.e.r.emplace(std::move(b.x));
					sim::quiet q;
					a.e.id = id;
					b.xi = -1;
				}
				break;
			case 12:
				drop(a.b);
				drop(b.e);
				break;
			case 13:
				drop(a.c);
				drop(b.d);
				break;
			case 14: { // owner destroyed or overwritten with nothing
				int id = a.pi;
				disown(id);
				a.p = nullptr;
				gone(id);
				a.pi = -1;
				id = a.xi;
				disown(id);
				a.x = nullptr;
				gone(id);
				a.xi = -1;
			} break;
			case 15:
				if (a.b.r && b.b.r && i != j) {
					std::swap(*a.b.r, *b.b.r);
					std::swap(a.b.id, b.b.id);
				}
				break;
			case 16: {
				mailbox& m = boxes[x % uint32_t(nt)];
				std::lock_guard<std::mutex> l(m.m);
				std::swap(m.b.r, a.b.r);
				std::swap(m.e.r, a.e.r);
				sim::quiet q;
				std::swap(m.b.id, a.b.id);
				std::swap(m.e.id, a.e.id);
				sim::ev("mail", uint64_t(me));
			} break;
			case 17: // an object becomes owned by another
				if (a.b.r && b.b.r && i != j && !a.b.r->get().next.r) {
					link& l = a.b.r->get().next;
					l.r.emplace(std::move(*b.b.r));
					sim::quiet q;
					l.id = b.b.id;
					b.b.id = -1;
					b.b.r.reset();
				}
				break;
			case 18: // an owner is overwritten with a reference that its object holds
				if (a.b.r && a.b.r->get().next.r) {
					link& l = a.b.r->get().next;
					int old = a.b.id, id = l.id;
					sim::probe("overwritten-from-inside");
					disown(old);
					l.passed_on = true;
					if (x & 1) {
						utki::unique_ref<base> r = std::move(*l.r);
						*a.b.r = std::move(r);
					} else
						*a.b.r = std::move(*l.r); // the moved-from reference goes with the old object
					gone(old);
					sim::quiet q;
					a.b.id = id;
					if (W->rec[id].destroyed)
						sim::fail("dead-object", "object %d was destroyed by a move", id);
				}
				break;
			default:
				if (a.b.r) {
					base& o = *a.b.r;
					look(a.b.id, o);
					if (&o != &a.b.r->get())
						sim::fail("wrong-object", "accessors disagree");
					if (b.b.r) {
						bool eq = *a.b.r == *b.b.r, lt = *a.b.r < b.b.r->get(), eo = *a.b.r == b.b.r->get();
						if (eq != (a.b.id == b.b.id) || eo != eq || lt != (a.b.id < b.b.id))
							sim::fail("comparison", "comparison of references is wrong");
					}
				}
				if (a.c.r)
					look(a.c.id, a.c.r->get());
				if (a.d.r)
					look(a.d.id, a.d.r->get());
				break;
		}
	}
	for (auto& s : sl) {
		drop(s.b);
		drop(s.c);
		drop(s.d);
		drop(s.e);
		disown(s.pi);
		s.p = nullptr;
		gone(s.pi);
		disown(s.xi);
		s.x = nullptr;
		gone(s.xi);
	}
}

// one object handed over as often as does not fit a small count, and many objects at a time
void crowd()
{
	const uint32_t n = crowd_size() + 1;
	sim::ev("crowd", n);
	if (n > 65536)
		sim::probe("more-than-65536-moves");
	if (sim::coin()) {
		int id = W->n_objects++;
		own(id);
		std::optional<utki::unique_ref<base>> at[3];
		at[0].emplace(utki::make_unique<derived>(id, 0));
		base* o = &at[0]->get();
		for (uint32_t i = 0; i < n; ++i) {
			auto& from = at[i % 3];
			auto& to = at[(i + 1) % 3];
			to.emplace(std::move(*from));
			from.reset();
			if (&to->get() != o || W->rec[id].destroyed)
				sim::fail("wrong-object", "after %u moves the reference refers to another object", i + 1);
		}
		disown(id);
		for (auto& r : at)
			r.reset();
		gone(id);
	} else {
		struct small : utki::destructable {
			uint32_t& alive;
			uint32_t id;
			small(uint32_t& alive, uint32_t id) :
				alive(alive),
				id(id)
			{
				++this->alive;
			}
			~small() override
			{
				--this->alive;
				this->id = ~this->id;
			}
		};
		uint32_t alive = 0;
		{
			std::vector<utki::unique_ref<small>> v; // grows by moving its elements
			for (uint32_t i = 0; i < n; ++i)
				v.push_back(utki::make_unique<small>(alive, i));
			if (alive != n)
				sim::fail("destroyed-early", "%u of %u owned objects are alive", alive, n);
			for (uint32_t i = 0; i < n; ++i)
				if (v[i].get().id != i)
					sim::fail("wrong-object", "reference %u refers to another object", i);
			if (sim::coin()) {
				std::vector<utki::unique_ref<utki::destructable>> e;
				for (auto& r : v)
					e.emplace_back(std::move(r));
				v.clear();
				if (alive != n)
					sim::fail("destroyed-early", "%u of %u owned objects are alive", alive, n);
			}
		}
		if (alive)
			sim::fail("not-destroyed", "%u of %u objects are still there", alive, n);
	}
}
} // namespace

static void scenario()
{
	world w;
	W = &w;
	if (sim::chance(1, 1000)) {
		crowd();
		return;
	}
#ifdef DEBUG
	if (sim::chance(1, 40)) {
		sim::fault("null-pointer");
		bool aborted = sim::catch_abort([] {
			std::unique_ptr<base> p;
			utki::unique_ref<base> r(std::move(p));
			sim::ev("constructed from null");
		});
		if (!aborted)
			sim::fail("null-reference", "a unique reference was made from a null pointer");
		return;
	}
#endif
	int nt = int(sim::range(1, 4));
	bool faults = sim::coin();
	uint32_t n = sim::range(3, sim::thorough() ? 40 : 24);
	{
		mailbox boxes[4];
		if (nt == 1)
			user(0, nt, n, boxes, faults);
		else {
			for (int t = 0; t < nt; ++t)
				sim::spawn([=, &boxes] {
					user(t, nt, n, boxes, faults);
				});
			sim::join_all();
		}
		for (auto& b : boxes) {
			drop(b.b);
			drop(b.e);
		}
	}
	sim::quiet q;
	for (int i = 0; i < w.n_objects; ++i)
		if (w.rec[i].constructed && w.rec[i].destroyed != 1)
			sim::fail("not-destroyed", "at the end object %d was destroyed %d times", i, w.rec[i].destroyed);
}

void scenario_run()
{
	ambient(scenario);
}
