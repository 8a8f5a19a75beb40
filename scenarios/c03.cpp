// C03 shared references: aliveness, one ownership, destruction exactly once, under concurrent histories and failures.
#include "common.hpp"

#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>

#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>

const char* const scenario_id = "C03";

namespace {
constexpr int max_objects = 256;
constexpr int n_slots = 5;

// The model. definite <= real number of owners <= possible, at any moment.
struct record {
	bool constructed = false;
	int destroyed = 0;
	int definite = 0;
	int possible = 0;
	bool dying_checked = false;
};
struct world {
	record rec[max_objects];
	int n_objects = 0;
} * W;

void hold_begin(int id) // an operation that may create an owner starts
{
	++W->rec[id].possible;
}
void hold_end(int id) // it succeeded
{
	++W->rec[id].definite;
}
void hold_failed(int id)
{
	--W->rec[id].possible;
}
void drop_begin(int id)
{
	--W->rec[id].definite;
}
void drop_end(int id)
{
	record& r = W->rec[id];
	--r.possible;
	if (r.possible == 0 && r.destroyed != 1)
		sim::fail("not-destroyed", "the last owner of object %d is gone and its destructor ran %d times", id, r.destroyed);
}
void must_live(int id, const char* where)
{
	record& r = W->rec[id];
	if (!r.constructed || r.destroyed)
		sim::fail("dead-object", "%s: object %d was destroyed %d times", where, id, r.destroyed);
}

struct tracked {
	int id;
	uint32_t payload;
	bool complete = false;
	explicit tracked(int id) :
		id(id),
		payload(uint32_t(id) * 2654435761u)
	{}
	tracked(const tracked&) = delete;
	void born()
	{
		sim::quiet q;
		complete = true;
		W->rec[id].constructed = true;
		sim::ev("born", uint64_t(id));
	}
	~tracked()
	{
		if (!complete)
			return;
		uint32_t p = payload; // race-checked against everything owners did
		sim::quiet q;
		record& r = W->rec[id];
		sim::ev("destroyed", uint64_t(id));
		if (++r.destroyed != 1)
			sim::fail("destroyed-twice", "destructor of object %d ran %d times", id, r.destroyed);
		if (r.definite > 0)
			sim::fail("destroyed-early", "object %d destroyed while it has %d owners", id, r.definite);
		if (p != uint32_t(id) * 2654435761u)
			sim::fail("payload", "object %d was overwritten", id);
	}
};
struct ctor_failure {
	int id;
};
struct padding {
	virtual ~padding() = default;
	long pad = 5;
};
struct base;
// objects may own another one, made before them
struct link {
	std::optional<utki::shared_ref<base>> r;
	int id = -1;
	link(const utki::shared_ref<base>* next, int next_id);
	link(const link&) = delete;
	~link();
};
struct base : utki::shared {
	tracked t;
	link next;
	base(int id, int mode, const utki::shared_ref<base>* next = nullptr, int next_id = -1) :
		t(id),
		next(next, next_id)
	{
		if (mode == 1)
			throw ctor_failure{id};
	}
	virtual int kind() const
	{
		return 0;
	}
	bool operator<(const base& o) const
	{
		return t.id < o.t.id;
	}
	bool operator==(const base& o) const
	{
		return t.id == o.t.id;
	}
};
struct derived : padding, base { // base is not at offset 0
	std::string text;
	derived(int id, int mode, const utki::shared_ref<base>* next = nullptr, int next_id = -1) :
		base(id, mode, next, next_id),
		text(mode == 3 ? 40 : 3, 'x')
	{
		if (mode == 2)
			throw ctor_failure{id};
		if (mode == 4) {
			// not owned by anyone yet: must be refused
			bool refused = false;
			try {
				auto s = utki::make_shared_from(*this);
			} catch (std::bad_weak_ptr&) {
				refused = true;
			}
			if (!refused)
				sim::fail("second-ownership", "a shared reference was obtained from an object under construction");
		}
		t.born();
	}
	int kind() const override
	{
		return 1;
	}
	~derived() override
	{
		bool refused = false;
		try {
			auto s = utki::make_shared_from(static_cast<base&>(*this));
		} catch (std::bad_weak_ptr&) {
			refused = true;
		}
		if (!refused)
			sim::fail("second-ownership", "a shared reference was obtained from an object being destroyed");
	}
};
struct other : base {
	other(int id, int mode, const utki::shared_ref<base>* next = nullptr, int next_id = -1) :
		base(id, mode, next, next_id)
	{
		if (mode == 2)
			throw ctor_failure{id};
		t.born();
	}
	int kind() const override
	{
		return 2;
	}
};
// virtual inheritance and the standard helper instead of utki::shared
struct standalone : std::enable_shared_from_this<standalone> {
	tracked t;
	standalone(int id, int mode) :
		t(id)
	{
		if (mode == 1 || mode == 2)
			throw ctor_failure{id};
		t.born();
	}
};

link::link(const utki::shared_ref<base>* next, int next_id)
{
	if (!next)
		return;
	{
		sim::quiet q;
		hold_begin(next_id);
	}
	this->r.emplace(*next);
	sim::quiet q;
	hold_end(next_id);
	this->id = next_id;
}
link::~link()
{
	if (!this->r)
		return;
	{
		sim::quiet q;
		drop_begin(this->id);
	}
	this->r.reset();
	sim::quiet q;
	drop_end(this->id);
}

struct slot {
	std::optional<utki::shared_ref<base>> b;
	std::optional<utki::shared_ref<const base>> c;
	std::optional<utki::shared_ref<derived>> d;
	std::optional<utki::shared_ref<standalone>> s;
	std::shared_ptr<const base> p;
	std::weak_ptr<base> w;
	std::weak_ptr<const base> wc;
	int bi = -1, ci = -1, di = -1, si = -1, pi = -1, wi = -1, wci = -1;
	// refers to object ep, which it keeps alive by owning eo: ep itself, or the object that holds a reference to ep
	std::optional<utki::shared_ref<base>> e;
	int eo = -1, ep = -1;
};

struct mailbox {
	std::mutex m;
	std::optional<utki::shared_ref<base>> r;
	std::weak_ptr<base> w;
	int ri = -1, wi = -1;
};

// Replaces the content of an optional reference: the new owner appears before the old one goes.
template <class opt, class make>
void put(opt& dst, int& dst_id, int id, make m, bool assign, uint32_t fail_at)
{
	{
		sim::quiet q;
		must_live(id, "source of a copy");
		hold_begin(id);
	}
	try {
		sim::alloc_scope as(fail_at, true);
		if (dst && assign) {
			int old = dst_id;
			{
				sim::quiet q;
				// assignment drops the old owner somewhere inside
				if (old >= 0)
					drop_begin(old);
			}
			try {
				*dst = m();
			} catch (...) {
				sim::quiet q;
				if (old >= 0)
					hold_end(old);
				throw;
			}
			sim::quiet q;
			hold_end(id);
			dst_id = id;
			if (old >= 0)
				drop_end(old);
		} else {
			auto v = m();
			{
				sim::quiet q;
				hold_end(id);
				must_live(id, "after a copy");
			}
			if (dst) {
				int old = dst_id;
				{
					sim::quiet q;
					if (old >= 0)
						drop_begin(old);
				}
				dst.reset();
				sim::quiet q;
				if (old >= 0)
					drop_end(old);
			}
			dst.emplace(std::move(v));
			sim::quiet q;
			dst_id = id;
		}
	} catch (std::bad_alloc&) {
		sim::quiet q;
		sim::fault("alloc-fail-in-copy");
		hold_failed(id);
	}
}
template <class opt>
void drop(opt& o, int& id)
{
	if (!o)
		return;
	int old = id;
	{
		sim::quiet q;
		id = -1;
		if (old >= 0)
			drop_begin(old);
	}
	o.reset();
	sim::quiet q;
	if (old >= 0)
		drop_end(old);
}

template <class t>
void look(const utki::shared_ref<t>& r, int id)
{
	{
		sim::quiet q;
		must_live(id, "reading through a reference");
	}
	const t& o = r.get();
	if (o.t.id != id || o.t.payload != uint32_t(id) * 2654435761u)
		sim::fail("wrong-object", "a reference to object %d reads as object %d", id, o.t.id);
	t& conv = r;
	if (&conv != &o || r.to_shared_ptr().get() != &o)
		sim::fail("wrong-object", "the accessors of one reference disagree");
}

void user(int me, int nt, uint32_t n, mailbox* boxes, const std::optional<utki::shared_ref<base>>* common, int common_id, bool faults)
{
	slot sl[n_slots];
	static const uint8_t used_slots[] = {n_slots, 2, 3};
	uint32_t ns = sim::pick(used_slots);
	// a slot with a reference to an object that holds another
	auto linked = [&]() -> slot* {
		for (auto& s : sl)
			if (s.b && s.b->get().next.r)
				return &s;
		return nullptr;
	};
	for (uint32_t step = 0; step < n; ++step) {
		uint32_t op, i, j, x, fail_at = 0;
		bool assign;
		{
			sim::quiet q;
			op = sim::choose(28);
			i = sim::choose(ns);
			j = sim::choose(ns);
			x = sim::choose(64);
			assign = sim::coin();
			if (faults && sim::chance(1, 5))
				fail_at = 1 + sim::choose(2);
			sim::ev("op", uint64_t(me), op, i * 8 + j);
		}
		if (op == 25 && !sl[i].e)
			for (uint32_t k = 0; k < ns; ++k)
				if (sl[k].e)
					i = k;
		slot& a = sl[i];
		slot& b = sl[j];
		switch (op) {
			case 0:
			case 1: { // create
				int id;
				{
					sim::quiet q;
					if (W->n_objects >= max_objects)
						break;
					id = W->n_objects++;
					hold_begin(id);
				}
				int mode = int(x % 8);
				if (!faults && (mode == 1 || mode == 2))
					mode = 0;
				drop(a.b, a.bi);
				slot* from = b.b ? &b : nullptr; // the reference that the object will hold
				for (auto& s : sl)
					if (!from && s.b)
						from = &s;
				if (!(x & 32))
					from = nullptr;
				const utki::shared_ref<base>* next = from ? &*from->b : nullptr;
				int next_id = from ? from->bi : -1;
				try {
					sim::alloc_scope as(fail_at);
					if (x % 3 == 0)
						a.b.emplace(utki::make_shared<derived>(id, mode, next, next_id));
					else if (x % 3 == 1)
						a.b.emplace(utki::make_shared<other>(id, mode, next, next_id));
					else
						a.b.emplace(utki::shared_ref<base>(std::make_shared<derived>(id, mode)));
					sim::quiet q;
					hold_end(id);
					a.bi = id;
				} catch (ctor_failure& f) {
					sim::quiet q;
					sim::fault("constructor-throws");
					if (f.id != id || (mode != 1 && mode != 2))
						sim::fail("wrong-exception", "unexpected constructor failure");
					W->rec[id].possible = 0;
				} catch (std::bad_alloc&) {
					sim::quiet q;
					sim::fault("alloc-fail-in-make");
					W->rec[id].possible = 0;
				}
				sim::quiet q;
				if (!a.b && W->rec[id].constructed && W->rec[id].destroyed != 1)
					sim::fail("leaked-object", "creation of object %d failed, the object was constructed and destroyed %d times", id, W->rec[id].destroyed);
			} break;
			case 2: // copy
				if (b.b)
					put(a.b, a.bi, b.bi, [&]() -> auto& { return *b.b; }, assign, fail_at);
				break;
			case 3: // to const
				if (b.b)
					put(a.c, a.ci, b.bi, [&] { return utki::shared_ref<const base>(*b.b); }, assign, fail_at);
				break;
			case 4: // down cast
				if (b.b) {
					bool is = b.b->get().kind() == 1;
					bool thrown = false;
					try {
						if (is)
							put(a.d, a.di, b.bi, [&] { return utki::dynamic_reference_cast<derived>(*b.b); }, assign, fail_at);
						else if (x % 3 == 0)
							auto r = utki::dynamic_reference_cast<derived>(*b.b);
						else if (x % 3 == 1)
							auto r = utki::dynamic_reference_cast<const derived>(*b.b);
						else {
							utki::shared_ref<const base> c(*b.b);
							try {
								auto r = utki::dynamic_reference_cast<const derived>(c);
							} catch (std::bad_cast&) {
								look(c, b.bi);
								throw;
							}
						}
					} catch (std::bad_cast&) {
						thrown = true;
					} catch (std::bad_alloc&) {
						thrown = true;
					}
					look(*b.b, b.bi);
					if (thrown == is)
						sim::fail("cast", "dynamic cast of a %s object %s", is ? "matching" : "non-matching", thrown ? "threw" : "succeeded");
				}
				break;
			case 5: // up cast
				if (b.d)
					put(a.b, a.bi, b.di, [&] { return utki::shared_ref<base>(*b.d); }, assign, fail_at);
				break;
			case 6: // own address
				if (b.b)
					put(a.b, a.bi, b.bi, [&] { return utki::make_shared_from(b.b->get()); }, assign, fail_at);
				else if (b.c)
					put(a.c, a.ci, b.ci, [&] { return utki::make_shared_from(b.c->get()); }, assign, fail_at);
				else if (b.d)
					put(a.d, a.di, b.di, [&] { return utki::make_shared_from(b.d->get()); }, assign, fail_at);
				break;
			case 7: // to shared_ptr
				if (b.b || b.c) {
					int id = b.b ? b.bi : b.ci;
					auto old = std::move(a.p);
					int oi = a.pi;
					{
						sim::quiet q;
						hold_begin(id);
					}
					if (b.b) {
						if (x & 1)
							a.p = *b.b;
						else
							a.p = b.b->to_shared_ptr();
					} else
						a.p = *b.c;
					{
						sim::quiet q;
						hold_end(id);
						a.pi = id;
						if (old && oi >= 0)
							drop_begin(oi);
					}
					bool had = bool(old);
					old = nullptr;
					sim::quiet q;
					if (had && oi >= 0)
						drop_end(oi);
				}
				break;
			case 8: // back to a reference
				if (b.p)
					put(a.c, a.ci, b.pi, [&] { return utki::shared_ref<const base>(b.p); }, assign, fail_at);
				break;
			case 9: // weak
				if (b.b) {
					int id = b.bi;
					{
						sim::quiet q;
						hold_begin(id); // may own for a moment
					}
					switch (x % 4) {
						case 0:
							a.w = utki::make_weak(*b.b);
							break;
						case 1:
							a.w = utki::make_weak(b.b->to_shared_ptr());
							break;
						case 2:
							a.w = utki::make_weak_from(b.b->get());
							break;
						default:
							a.w = *b.b;
							break;
					}
					sim::quiet q;
					hold_failed(id);
					a.wi = id;
				}
				break;
			case 10:
				if (b.b) {
					a.wc = *b.b;
					sim::quiet q;
					a.wci = b.bi;
				} else if (b.c) {
					a.wc = utki::make_weak_from(b.c->get());
					sim::quiet q;
					a.wci = b.ci;
				}
				break;
			case 11: { // lock a weak pointer, in a race with the last owner
				int id = b.wi;
				if (id < 0)
					break;
				{
					sim::quiet q;
					hold_begin(id);
				}
				auto p = b.w.lock();
				if (!p) {
					sim::quiet q;
					if (W->rec[id].definite > 0)
						sim::fail("weak-expired-early", "weak pointer to object %d expired while it has owners", id);
					hold_failed(id);
					break;
				}
				{
					sim::quiet q;
					hold_end(id);
					must_live(id, "locked weak pointer");
					sim::probe("weak-pointer-locked");
				}
				put(a.b, a.bi, id, [&] { return utki::shared_ref<base>(p); }, assign, fail_at);
				{
					sim::quiet q;
					drop_begin(id);
				}
				p = nullptr;
				sim::quiet q;
				drop_end(id);
			} break;
			case 12:
				drop(a.b, a.bi);
				break;
			case 13:
				drop(a.c, a.ci);
				break;
			case 14:
				drop(a.d, a.di);
				break;
			case 15:
				if (a.p) {
					int id = a.pi;
					{
						sim::quiet q;
						drop_begin(id);
						a.pi = -1;
					}
					a.p = nullptr;
					sim::quiet q;
					drop_end(id);
				}
				break;
			case 16: // move
				if (b.b && i != j) {
					int id = b.bi;
					bool assign = a.b && sim::coin();
					if (assign) {
						int old = a.bi;
						{
							sim::quiet q;
							if (old >= 0)
								drop_begin(old);
						}
						*a.b = std::move(*b.b);
						sim::quiet q;
						a.bi = id;
						b.bi = -1;
						if (old >= 0)
							drop_end(old);
					} else {
						drop(a.b, a.bi);
						a.b.emplace(std::move(*b.b));
						sim::quiet q;
						a.bi = id;
						b.bi = -1;
					}
					{
						sim::quiet q;
						must_live(id, "after a move");
					}
					// what was moved from owns nothing, also while it exists
					if (sim::chance(1, 4))
						drop(a.b, a.bi);
					b.b.reset();
				}
				break;
			case 17: { // hand over
				mailbox& m = boxes[x % uint32_t(nt)];
				std::lock_guard<std::mutex> l(m.m);
				std::swap(m.r, a.b);
				std::swap(m.w, a.w);
				sim::quiet q;
				std::swap(m.ri, a.bi);
				std::swap(m.wi, a.wi);
				sim::ev("mail", uint64_t(me));
			} break;
			case 18: // look
				if (b.b)
					look(*b.b, b.bi);
				if (b.c)
					look(*b.c, b.ci);
				if (b.d)
					look(*b.d, b.di);
				if (b.s)
					look(*b.s, b.si);
				if (b.b && a.b) {
					bool eq = *b.b == *a.b;
					bool lt = *b.b < a.b->get();
					if (eq != (b.bi == a.bi) || lt != (b.bi < a.bi))
						sim::fail("comparison", "comparison of references to objects %d and %d is wrong", b.bi, a.bi);
				}
				break;
			case 19: // copy a reference that all threads read
				if (*common)
					put(a.b, a.bi, common_id, [&]() -> auto& { return **common; }, assign, fail_at);
				break;
			case 20: { // standard helper
				if (b.s) {
					if (x & 1)
						put(a.s, a.si, b.si, [&] { return utki::make_shared_from(b.s->get()); }, assign, fail_at);
					else {
						auto w = utki::make_weak_from(b.s->get());
						auto p = w.lock();
						if (p.get() != &b.s->get())
							sim::fail("wrong-object", "weak pointer made from an object does not lead to it");
					}
					break;
				}
				int id;
				{
					sim::quiet q;
					if (W->n_objects >= max_objects)
						break;
					id = W->n_objects++;
					hold_begin(id);
				}
				try {
					sim::alloc_scope as(fail_at);
					drop(a.s, a.si);
					a.s.emplace(utki::make_shared<standalone>(id, faults ? int(x % 6) : 0));
					sim::quiet q;
					hold_end(id);
					a.si = id;
				} catch (ctor_failure&) {
					sim::fault("constructor-throws");
					sim::quiet q;
					W->rec[id].possible = 0;
				} catch (std::bad_alloc&) {
					sim::fault("alloc-fail-in-make");
					sim::quiet q;
					W->rec[id].possible = 0;
				}
			} break;
			case 21: // an owner is overwritten with a reference that its object holds
				if (slot* l = linked()) {
					int old = l->bi, id = l->b->get().next.id;
					{
						sim::quiet q;
						sim::probe("overwritten-from-inside");
						must_live(id, "reference held by an object");
						hold_begin(id);
						drop_begin(old);
					}
					*l->b = *l->b->get().next.r;
					sim::quiet q;
					hold_end(id);
					l->bi = id;
					drop_end(old);
					must_live(id, "after a copy");
				}
				break;
			case 22: // casts that change nothing, or only the constness
				if (b.d)
					put(a.d, a.di, b.di, [&] { return utki::dynamic_reference_cast<derived>(*b.d); }, assign, fail_at);
				else if (b.c)
					put(a.c, a.ci, b.ci, [&] { return utki::dynamic_reference_cast<const base>(*b.c); }, assign, fail_at);
				else if (b.b)
					put(a.c, a.ci, b.bi, [&] { return utki::dynamic_reference_cast<const base>(*b.b); }, assign, fail_at);
				for (int k = 0; k < 2; ++k) {
					// and the source still refers to its object
					slot& s = k ? b : a;
					if (s.b)
						look(*s.b, s.bi);
					if (s.c)
						look(*s.c, s.ci);
					if (s.d)
						look(*s.d, s.di);
				}
				break;
			case 23: // an upward cast through the cast function
				if (b.d)
					put(a.b, a.bi, b.di, [&] { return utki::dynamic_reference_cast<base>(*b.d); }, assign, fail_at);
				else if (b.b)
					put(a.b, a.bi, b.bi, [&] { return utki::dynamic_reference_cast<base>(*b.b); }, assign, fail_at);
				break;
			case 24: // a reference to an object that owns the object which holds it
				if (slot* l = linked()) {
					int ep = l->b->get().next.id;
					put(
						a.e,
						a.eo,
						l->bi,
						[&] {
							return utki::shared_ref<base>(std::shared_ptr<base>(l->b->to_shared_ptr(), &l->b->get().next.r->get()));
						},
						assign,
						0
					);
					a.ep = ep;
				} else if (b.e) {
					int ep = b.ep;
					put(a.e, a.eo, b.eo, [&]() -> auto& { return *b.e; }, assign, 0);
					a.ep = ep;
				}
				break;
			case 25: // then one that owns the object itself
				if (!a.e)
					break;
				sim::probe("same-object-other-owner");
				if (x & 1) {
					int ep = a.ep;
					auto own = utki::make_shared_from(a.e->get());
					{
						sim::quiet q;
						hold_begin(ep);
						hold_end(ep);
					}
					put(a.e, a.eo, ep, [&]() -> auto& { return own; }, assign, 0);
					int id = ep;
					{
						std::optional<utki::shared_ref<base>> o(std::move(own));
						drop(o, id);
					}
				} else if (b.b) {
					int id = b.bi;
					put(a.e, a.eo, id, [&]() -> auto& { return *b.b; }, assign, 0);
					a.ep = id;
				}
				look(*a.e, a.ep);
				break;
			case 26:
				if (x & 1)
					drop(a.e, a.eo);
				else if (a.e)
					look(*a.e, a.ep);
				break;
			default: { // an object nobody owns
				int id;
				{
					sim::quiet q;
					if (W->n_objects >= max_objects)
						break;
					id = W->n_objects++;
				}
				bool refused = false;
				if (x & 1) {
					other o(id, 0);
					try {
						auto r = utki::make_shared_from(o);
					} catch (std::bad_weak_ptr&) {
						refused = true;
					}
					try {
						auto w = utki::make_weak_from(o);
						if (w.lock())
							refused = false;
					} catch (std::bad_weak_ptr&) {
					}
				} else {
					standalone o(id, 0);
					try {
						auto r = utki::make_shared_from(o);
					} catch (std::bad_weak_ptr&) {
						refused = true;
					}
					try {
						auto w = utki::make_weak_from(o);
						if (w.lock())
							refused = false;
					} catch (std::bad_weak_ptr&) {
					}
				}
				sim::quiet q;
				sim::fault("object-without-owner");
				if (!refused)
					sim::fail("second-ownership", "an owner was made for an object that is not owned");
			} break;
		}
	}
	for (auto& s : sl) {
		drop(s.b, s.bi);
		drop(s.c, s.ci);
		drop(s.d, s.di);
		drop(s.s, s.si);
		drop(s.e, s.eo);
		if (s.p) {
			int id = s.pi;
			{
				sim::quiet q;
				drop_begin(id);
			}
			s.p = nullptr;
			sim::quiet q;
			drop_end(id);
		}
	}
}

// as many owners of one object at a time as do not fit a small count
void crowd()
{
	const uint32_t n = crowd_size() + 1;
	if (n > 65536)
		sim::probe("more-than-65536-owners");
	sim::ev("crowd", n);
	int id = W->n_objects++;
	record& rec = W->rec[id];
	rec.possible = rec.definite = 1;
	const bool weak_too = sim::coin();
	const bool first_ones_first = sim::coin();
	auto* owners = new std::optional<utki::shared_ref<base>>[n];
	auto* weak = new std::weak_ptr<base>[weak_too ? n : 1];
	{
		auto first = utki::make_shared<derived>(id, 0);
		for (uint32_t i = 0; i < n; ++i)
			switch (i % 3) {
				case 0:
					owners[i].emplace(first);
					break;
				case 1:
					owners[i].emplace(*owners[i - 1]);
					break;
				default:
					owners[i].emplace(utki::make_shared_from(static_cast<base&>(first.get())));
					break;
			}
		if (weak_too)
			for (uint32_t i = 0; i < n; ++i)
				weak[i] = utki::make_weak(*owners[i]);
	}
	uint32_t keep = sim::choose(n);
	for (uint32_t i = 0; i < n; ++i) {
		uint32_t k = first_ones_first ? i : n - 1 - i;
		if (k == keep)
			continue;
		owners[k].reset();
		if (rec.destroyed)
			sim::fail("destroyed-early", "the object was destroyed when %u of its %u owners were gone", i + 1, n);
	}
	if (weak_too && weak[sim::choose(n)].lock().get() != &owners[keep]->get())
		sim::fail("wrong-object", "a weak reference to a living object does not lock");
	if (owners[keep]->get().t.id != id)
		sim::fail("wrong-object", "the last owner refers to another object");
	rec.definite = 0;
	owners[keep].reset();
	rec.possible = 0;
	if (rec.destroyed != 1)
		sim::fail("not-destroyed", "the last of %u owners is gone and the destructor ran %d times", n, rec.destroyed);
	if (weak_too && weak[sim::choose(n)].lock())
		sim::fail("dead-object", "a weak reference to a destroyed object locks");
	delete[] owners;
	delete[] weak;
}
} // namespace

static void scenario()
{
	world w;
	W = &w;
	if (sim::chance(1, 1000)) {
		crowd();
		return;
	}
#ifdef DEBUG
	if (sim::chance(1, 40)) {
		sim::fault("null-pointer");
		bool aborted = sim::catch_abort([] {
			std::shared_ptr<base> p;
			utki::shared_ref<base> r(p);
			sim::ev("constructed from null");
		});
		if (!aborted)
			sim::fail("null-reference", "a shared reference was made from a null pointer");
		return;
	}
#endif
	int nt = int(sim::range(1, 4));
	bool faults = sim::coin();
	uint32_t n = sim::range(3, sim::thorough() ? 40 : 22);
	std::optional<utki::shared_ref<base>> common;
	int common_id = -1;
	if (sim::coin()) {
		common_id = w.n_objects++;
		hold_begin(common_id);
		common.emplace(utki::make_shared<derived>(common_id, 0));
		hold_end(common_id);
	}
	{
		mailbox boxes[4];
		if (nt == 1)
			user(0, nt, n, boxes, &common, common_id, faults);
		else {
			for (int t = 0; t < nt; ++t)
				sim::spawn([=, &boxes, &common] {
					user(t, nt, n, boxes, &common, common_id, faults);
				});
			sim::join_all();
		}
		for (auto& b : boxes)
			drop(b.r, b.ri);
	}
	drop(common, common_id);
	sim::quiet q;
	for (int i = 0; i < w.n_objects; ++i) {
		record& r = w.rec[i];
		if (r.constructed && r.destroyed != 1)
			sim::fail("not-destroyed", "at the end object %d was destroyed %d times", i, r.destroyed);
	}
}

void scenario_run()
{
	ambient(scenario);
}
