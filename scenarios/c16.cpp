// C16: queries and sorts whose callbacks, element copies and moves, and allocations fail.
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>

#include <utki/linq.hpp>
#include <utki/sort.hpp>

#include "common.hpp"

const char* const scenario_id = "C16";

namespace {
// exceptions of different kinds, each one distinguishable
struct boom {
	int serial;
};
struct boom_std : public std::runtime_error {
	int serial;
	boom_std(int s) :
		std::runtime_error("boom"),
		serial(s)
	{}
};
struct boom_range : public std::out_of_range {
	int serial;
	boom_range(int s) :
		std::out_of_range("boom"),
		serial(s)
	{}
};

struct {
	uint32_t callbacks, copies, moves; // so far in this attempt
	uint32_t fail_callback, fail_copy, fail_move; // 1-based, 0: none
	uint32_t kind;
	int serial; // of the exception that was thrown; 0: none
	int next_serial;
	int alive;
} st;

void blow(const char* what)
{
	sim::fault(what);
	st.serial = ++st.next_serial;
	switch (st.kind) {
		case 0:
			throw boom{st.serial};
		case 1:
			throw boom_std(st.serial);
		case 2:
			throw boom_range(st.serial);
		default:
			throw st.serial;
	}
}
void callback()
{
	if (++st.callbacks == st.fail_callback)
		blow("callback-throws");
}

constexpr uint32_t alive_mark = 0x5a17e11e;

// An element. Copying may fail; if hard, moving may fail too.
template <bool hard>
struct el {
	int key;
	int id;
	std::unique_ptr<int> own; // damaged or lost values are seen in here
	uint32_t mark = alive_mark;

	el(int key = -1, int id = -1) :
		key(key),
		id(id),
		own(new int(id))
	{
		++st.alive;
	}
	el(const el& o) :
		key(o.key),
		id(o.id)
	{
		o.check();
		if (++st.copies == st.fail_copy)
			blow("copy-throws");
		this->own.reset(o.own ? new int(*o.own) : nullptr);
		++st.alive;
	}
	el(el&& o) noexcept(!hard) :
		key(o.key),
		id(o.id)
	{
		o.check();
		if constexpr (hard)
			if (++st.moves == st.fail_move)
				blow("move-throws");
		this->own = std::move(o.own);
		o.id = -3;
		++st.alive;
	}
	el& operator=(const el& o)
	{
		this->check();
		o.check();
		el t(o);
		std::swap(this->key, t.key);
		std::swap(this->id, t.id);
		std::swap(this->own, t.own);
		return *this;
	}
	el& operator=(el&& o) noexcept(!hard)
	{
		this->check();
		o.check();
		if constexpr (hard)
			if (++st.moves == st.fail_move)
				blow("move-throws");
		this->key = o.key;
		this->id = o.id;
		this->own = std::move(o.own);
		o.id = -3;
		return *this;
	}
	~el()
	{
		this->check();
		this->mark = 0;
		--st.alive;
	}
	void check() const
	{
		if (this->mark != alive_mark)
			sim::fail("dead-element", "an element is used or destroyed that is not there (any more)");
	}
	// the element as a callback sees it
	void seen() const
	{
		this->check();
		if (!this->own || *this->own != this->id)
			sim::fail("damaged-element", "a callback was given an element without its value");
	}
	bool operator<(const el& o) const
	{
		this->seen();
		o.seen();
		callback();
		return this->key < o.key;
	}
};

struct plain {
	int key, id;
	bool operator==(const plain& o) const
	{
		return this->key == o.key && this->id == o.id;
	}
};
using plains = std::vector<plain>;

template <class c>
plains plain_of(const c& col)
{
	plains r;
	for (auto& e : col) {
		if (!e.own || *e.own != e.id)
			sim::fail("damaged-element", "element %d of a result or source lost its value", e.id);
		r.push_back({e.key, e.id});
	}
	return r;
}
bool by_id(const plain& a, const plain& b)
{
	return a.id < b.id;
}

struct outcome {
	bool failed = false;
	uint32_t allocs = 0, callbacks = 0, copies = 0, moves = 0;
};

// Runs f, in which what was armed may fail, and judges how it ended.
template <class fn>
outcome attempt(const char* what, uint32_t fail_alloc, bool persist, fn f)
{
	outcome o;
	st.callbacks = st.copies = st.moves = 0;
	st.serial = 0;
	sim::ev(what, fail_alloc, st.fail_callback * 1000 + st.fail_copy, st.fail_move);
	uint32_t fired = 0;
	int got = 0;
	bool memory = false;
	int alive = st.alive;
	try {
		sim::alloc_scope as(fail_alloc, persist);
		struct count {
			sim::alloc_scope& as;
			uint32_t &n, &fired;
			~count()
			{
				this->n = this->as.count();
				this->fired = this->as.fired();
			}
		} c{as, o.allocs, fired};
		f();
	} catch (boom& e) {
		got = st.kind == 0 ? e.serial : -1;
	} catch (boom_std& e) {
		got = st.kind == 1 ? e.serial : -1;
	} catch (boom_range& e) {
		got = st.kind == 2 ? e.serial : -1;
	} catch (int e) {
		got = st.kind == 3 ? e : -1;
	} catch (std::bad_alloc&) {
		memory = true;
	} catch (...) {
		got = -1;
	}
	o.failed = got || memory;
	o.callbacks = st.callbacks;
	o.copies = st.copies;
	o.moves = st.moves;
	st.fail_callback = st.fail_copy = st.fail_move = 0;
	sim::ev("outcome", uint64_t(got), memory, st.callbacks);
	if (memory && !fired)
		sim::fail("wrong-exception", "%s: bad_alloc although memory did not fail", what);
	if (got && got != st.serial)
		sim::fail("wrong-exception", "%s: another exception than the one thrown reached the caller", what);
	// an operation may get along without an allocation that failed, its result is judged as any other
	if (!o.failed && st.serial)
		sim::fail("exception-lost", "%s: the failure inside did not reach the caller", what);
	if (o.failed && st.alive > alive)
		sim::fail("elements-left", "%s: %d elements more than before exist after a failure", what, st.alive - alive);
	return o;
}

// arms one failure; returns the allocation to fail
uint32_t arm(const outcome& clean)
{
	st.kind = sim::choose(4);
	uint32_t fail_alloc = 0;
	switch (sim::choose(4)) {
		case 0:
			if (clean.callbacks)
				st.fail_callback = 1 + sim::choose(clean.callbacks);
			break;
		case 1:
			if (clean.allocs)
				fail_alloc = 1 + sim::choose(clean.allocs);
			break;
		case 2:
			if (clean.copies)
				st.fail_copy = 1 + sim::choose(clean.copies);
			break;
		default:
			if (clean.moves)
				st.fail_move = 1 + sim::choose(clean.moves);
			else if (clean.callbacks)
				st.fail_callback = 1 + sim::choose(clean.callbacks);
			break;
	}
	return fail_alloc;
}

plains draw()
{
	sim::quiet q;
	plains r;
	uint32_t n = sim::choose(3) == 0 ? sim::choose(sim::thorough() ? 120 : 50) : sim::choose(8);
	if (sim::chance(1, 150)) {
		n = sim::chance(1, 20) ? crowd_size() : sim::log_uniform(sim::thorough() ? 14 : 12);
		sim::probe("long-sequence");
	}
	uint32_t keys = sim::choose(3) == 0 ? 2 : sim::choose(3) ? 8 : 1000;
	uint32_t shape = sim::choose(9);
	uint32_t tooth = 1 + sim::choose(9);
	for (uint32_t i = 0; i < n; ++i) {
		uint32_t k = shape == 0 || shape >= 7 ? i
			: shape == 1					  ? n - i
			: shape == 2					  ? 7
			: shape == 3					  ? (i < n / 2 ? i : n - i)
			: shape == 4					  ? i % tooth
											  : sim::choose(keys);
		r.push_back({int(k), int(i)});
	}
	if (shape == 8 && n > 1) {
		// almost ordered: elements out of place here and there, the last one or the first one among them
		for (uint32_t i = sim::range(1, 3); i; --i) {
			uint32_t a = sim::choose(3), x = a == 0 ? 0 : a == 1 ? n - 1 : sim::choose(n);
			std::swap(r[x].key, r[sim::choose(n)].key);
		}
	}
	return r;
}
template <class container>
container fill(const plains& p)
{
	container c;
	for (auto& x : p)
		c.emplace_back(x.key, x.id);
	return c;
}

// ---- queries ---------------------------------------------------------------------------------------------

struct named {
	std::string name;
	int id;
};

template <class container>
struct queries {
	using e = typename container::value_type;
	plains src_model = draw();
	int threshold = int(sim::choose(9));
	int modulo = int(sim::range(1, 4));

	// reference
	plains kept() const
	{
		plains r;
		for (auto& x : this->src_model)
			if (x.key % 9 >= this->threshold)
				r.push_back(x);
		return r;
	}
	std::map<int, std::vector<plain>> groups(const plains& p) const
	{
		std::map<int, std::vector<plain>> r;
		for (auto& x : p)
			r[x.key % this->modulo].push_back(x);
		return r;
	}
	void same(const char* what, const plains& got, const plains& want) const
	{
		if (!(got == want))
			sim::fail("result", "%s gave %zu elements, not the %zu expected ones", what, got.size(), want.size());
	}
	void same_ordered(const char* what, plains got, plains want) const
	{
		for (size_t i = 1; i < got.size(); ++i)
			if (got[i].key < got[i - 1].key)
				sim::fail("result", "%s: the result is not ordered", what);
		std::sort(got.begin(), got.end(), by_id);
		std::sort(want.begin(), want.end(), by_id);
		this->same(what, got, want);
	}

	auto keep()
	{
		int t = this->threshold;
		return [t](const e& x) {
			x.seen();
			callback();
			return x.key % 9 >= t;
		};
	}
	auto group()
	{
		int m = this->modulo;
		return [m](const e& x) {
			x.seen();
			callback();
			return x.key % m;
		};
	}
	static auto key()
	{
		return [](const e& x) -> const int& {
			x.seen();
			callback();
			return x.key;
		};
	}
	static auto name()
	{
		return [](const e& x) {
			x.seen();
			callback();
			return named{"element number " + std::to_string(x.id), x.id};
		};
	}
	template <class got_type>
	void same_groups(const char* what, const got_type& got, const std::map<int, std::vector<plain>>& want)
	{
		if (got.size() != want.size())
			sim::fail("result", "%s gave %zu groups, %zu expected", what, got.size(), want.size());
		auto w = want.begin();
		for (auto& g : got) {
			if (g.first != w->first)
				sim::fail("result", "%s gave another group", what);
			this->same(what, plain_of(g.second), w->second);
			++w;
		}
	}
	void same_names(const char* what, const std::vector<named>& got, const plains& want)
	{
		if (got.size() != want.size())
			sim::fail("result", "%s gave %zu elements, %zu expected", what, got.size(), want.size());
		for (size_t i = 0; i < got.size(); ++i)
			if (got[i].id != want[i].id || got[i].name != "element number " + std::to_string(want[i].id))
				sim::fail("result", "%s: a selected value is wrong", what);
	}

	// f(source) runs the query through utki::linq and checks the result (quietly)
	template <class fn>
	void query(const char* what, bool by_reference, fn f)
	{
		outcome clean;
		uint32_t rounds = this->src_model.size() > 200 ? 1 : sim::range(1, sim::thorough() ? 10 : 5);
		for (uint32_t i = 0; i <= rounds + 1; ++i) {
			bool plain_run = i == 0 || i == rounds + 1;
			container src = [&] {
				sim::quiet q;
				return fill<container>(this->src_model);
			}();
			uint32_t fail_alloc = plain_run ? 0 : arm(clean);
			outcome o = attempt(what, fail_alloc, sim::coin(), [&] { f(src); });
			if (i == 0)
				clean = o;
			if (by_reference) {
				sim::quiet q;
				this->same("the source of a query by reference", plain_of(src), this->src_model);
			}
		}
	}

	void run()
	{
		constexpr bool random_access = !std::is_same_v<container, std::list<e>>;
		bool by_value = sim::chance(1, 3);
		switch (sim::choose(12)) {
			case 0:
				this->query("where", true, [&](container& src) {
					auto r = utki::linq(src).where(this->keep()).get();
					sim::quiet q;
					this->same("where", plain_of(r), this->kept());
				});
				break;
			case 1:
				this->query("where, rvalue", false, [&](container& src) {
					// some predicates take their argument by value
					auto r = by_value ? utki::linq(std::move(src)).where([k = this->keep()](e x) { return k(x); }).get()
									  : utki::linq(std::move(src)).where(this->keep()).get();
					sim::quiet q;
					this->same("where", plain_of(r), this->kept());
				});
				break;
			case 2:
				this->query("select", true, [&](container& src) {
					const container& c = src;
					auto r = utki::linq(c).select(name()).get();
					sim::quiet q;
					this->same_names("select", r, this->src_model);
				});
				break;
			case 3:
				this->query("select with index, rvalue", false, [&](container& src) {
					size_t next = 0;
					auto r = utki::linq(std::move(src))
								 .select([&next](e&& x, size_t i) {
									 x.seen();
									 if (i != next)
										 sim::fail("result", "select gave a callback a wrong index");
									 ++next;
									 callback();
									 return std::pair<size_t, e>(i, std::move(x));
								 })
								 .get();
					sim::quiet q;
					plains got;
					for (auto& p : r) {
						if (p.first != got.size())
							sim::fail("result", "select: results are not in order");
						got.push_back({p.second.key, p.second.id});
					}
					this->same("select", got, this->src_model);
				});
				break;
			case 4:
				this->query("group_by", true, [&](container& src) {
					auto r = utki::linq(src).group_by(this->group()).get();
					sim::quiet q;
					this->same_groups("group_by", r, this->groups(this->src_model));
				});
				break;
			case 5:
				this->query("group_by, rvalue", false, [&](container& src) {
					auto r = utki::linq(std::move(src)).group_by(this->group()).get();
					sim::quiet q;
					this->same_groups("group_by", r, this->groups(this->src_model));
				});
				break;
			case 6:
				this->query("order_by", true, [&](container& src) {
					auto r = utki::linq(src).order_by(key()).get();
					sim::quiet q;
					this->same_ordered("order_by", plain_of(r), this->src_model);
				});
				break;
			case 7:
				if constexpr (random_access)
					this->query("order_by, rvalue", false, [&](container& src) {
						auto r = utki::linq(std::move(src)).order_by(key()).get();
						sim::quiet q;
						this->same_ordered("order_by", plain_of(r), this->src_model);
					});
				break;
			case 8:
				this->query("order_by where select", true, [&](container& src) {
					auto r = utki::linq(src).order_by(key()).where(this->keep()).select(name()).get();
					sim::quiet q;
					plains want = this->kept(), got;
					for (auto& n : r) {
						if (n.id < 0 || size_t(n.id) >= this->src_model.size())
							sim::fail("result", "a query made up an element");
						got.push_back({this->src_model[size_t(n.id)].key, n.id});
					}
					this->same_ordered("order_by where select", got, want);
				});
				break;
			case 9:
				this->query("where group_by select", true, [&](container& src) {
					auto r = utki::linq(src)
								 .where(this->keep())
								 .group_by(this->group())
								 .select([](auto&& g) {
									 callback();
									 for (auto& x : g.second)
										 x.seen();
									 return std::pair<int, size_t>(g.first, g.second.size());
								 })
								 .get();
					sim::quiet q;
					auto want = this->groups(this->kept());
					if (r.size() != want.size())
						sim::fail("result", "where group_by select gave %zu groups, %zu expected", r.size(), want.size());
					size_t i = 0;
					for (auto& w : want) {
						if (r[i].first != w.first || r[i].second != w.second.size())
							sim::fail("result", "where group_by select: a group is wrong");
						++i;
					}
				});
				break;
			case 10:
				this->query("group_by where order", true, [&](container& src) {
					auto r = utki::linq(src)
								 .group_by(this->group())
								 .where([](const auto& g) {
									 callback();
									 return g.second.size() % 2 == 1;
								 })
								 .select([](auto&& g) {
									 callback();
									 return std::move(g.second.front());
								 })
								 .order_by(key())
								 .get();
					sim::quiet q;
					plains want;
					for (auto& w : this->groups(this->src_model))
						if (w.second.size() % 2 == 1)
							want.push_back(w.second.front());
					this->same_ordered("group_by where select order_by", plain_of(r), want);
				});
				break;
			default:
				this->query("nothing", true, [&](container& src) {
					const auto& r = utki::linq(src).get();
					if (&r != &src) {
						sim::quiet q;
						this->same("get", plain_of(r), this->src_model);
					}
				});
				break;
		}
	}
};

// ---- sorting ---------------------------------------------------------------------------------------------

template <bool hard>
void sorting()
{
	using e = el<hard>;
	plains model = draw();
	size_t lo = 0, hi = model.size();
	if (sim::chance(1, 3)) {
		lo = sim::choose(uint32_t(hi + 1));
		hi = lo + sim::choose(uint32_t(hi - lo + 1));
	}
	uint32_t how = sim::choose(4);
	auto reverse_cmp = [tag = std::string("a comparator with a state of its own")](const e& a, const e& b) {
		a.seen();
		b.seen();
		callback();
		return a.key > b.key;
	};
	auto two_keys = [](const e& a, const e& b) {
		a.seen();
		b.seen();
		callback();
		return a.key % 3 != b.key % 3 ? a.key % 3 < b.key % 3 : a.id < b.id;
	};
	auto before = [&](const plain& a, const plain& b) {
		switch (how) {
			case 0:
			case 1:
				return a.key < b.key;
			case 2:
				return a.key > b.key;
			default:
				return a.key % 3 != b.key % 3 ? a.key % 3 < b.key % 3 : a.id < b.id;
		}
	};
	bool deque = sim::coin();
	auto sort = [&](auto first, auto last) {
		switch (how) {
			case 0:
				utki::sort(first, last);
				break;
			case 1:
				utki::sort(first, last, std::less<>());
				break;
			case 2:
				utki::sort(first, last, reverse_cmp);
				break;
			default:
				utki::sort(first, last, two_keys);
				break;
		}
	};
	auto go = [&](auto tag) {
		using container = typename decltype(tag)::type;
		outcome clean;
		uint32_t rounds = model.size() > 200 ? 1 : sim::range(1, sim::thorough() ? 10 : 5);
		for (uint32_t i = 0; i <= rounds; ++i) {
			container c = [&] {
				sim::quiet q;
				return fill<container>(model);
			}();
			uint32_t fail_alloc = i ? arm(clean) : 0;
			outcome o = attempt("sort", fail_alloc, sim::coin(), [&] {
				if constexpr (std::is_same_v<container, std::vector<e>>)
					sort(c.data() + lo, c.data() + hi);
				else
					sort(c.begin() + long(lo), c.begin() + long(hi));
			});
			if (!i)
				clean = o;
			sim::quiet q;
			if (c.size() != model.size())
				sim::fail("result", "a sort changed the size of a sequence");
			for (size_t k = 0; k < c.size(); ++k)
				if ((k < lo || k >= hi) && (c[k].id != model[k].id || c[k].key != model[k].key || !c[k].own || *c[k].own != model[k].id))
					sim::fail("result", "a sort touched an element outside of its range");
			if (o.failed)
				continue;
			plains got = plain_of(c);
			for (size_t k = lo + 1; k < hi; ++k)
				if (before(got[k], got[k - 1]))
					sim::fail("result", "a sort of %zu elements left them unsorted", hi - lo);
			std::sort(got.begin() + long(lo), got.begin() + long(hi), by_id);
			if (!(got == model))
				sim::fail("result", "a sort of %zu elements lost or doubled some", hi - lo);
		}
	};
	struct vector_tag {
		using type = std::vector<e>;
	};
	struct deque_tag {
		using type = std::deque<e>;
	};
	if (deque)
		go(deque_tag());
	else
		go(vector_tag());
}

// A sort of many plain elements in orders which are bad for sorting algorithms, on a thread with little stack:
// 64 KiB is a quarter of the smallest default of the systems utki is built for.
// The use of stack is measured in the comparator (running out of it for real would take the simulator along).
void crowd()
{
	constexpr size_t stack_limit = 64 * 1024;
	size_t n = sim::range(2, sim::thorough() && sim::chance(1, 4) ? 12000 : 4000);
	uint32_t shape = sim::choose(8), period = sim::range(2, 64);
	std::vector<uint32_t> v;
	bool deque = sim::coin(), reverse = sim::coin();
	rng rnd{sim::choose64()};
	std::vector<uint32_t> want;
	std::deque<uint32_t> d;
	{
		sim::quiet q;
		for (size_t i = 0; i < n; ++i) {
			uint32_t x = uint32_t(i);
			switch (shape) {
				case 0: // rising to the middle, then falling
					x = uint32_t(std::min(i, n - i));
					break;
				case 1: // falling to the middle, then rising
					x = uint32_t(std::max(i, n - i));
					break;
				case 2: // sorted
					break;
				case 3: // sorted the other way round
					x = uint32_t(n - i);
					break;
				case 4: // saw teeth
					x = uint32_t(i % period);
					break;
				case 5: // all equal
					x = period;
					break;
				case 6: // rising, every second one falling
					x = uint32_t(i % 2 ? i : n - i);
					break;
				default:
					x = uint32_t(rnd.next());
					break;
			}
			v.push_back(x);
		}
		want = v;
		d.assign(v.begin(), v.end());
	}
	uintptr_t base = uintptr_t(__builtin_frame_address(0));
	size_t deepest = 0;
	auto less = [&](uint32_t a, uint32_t b) {
		uintptr_t at = uintptr_t(__builtin_frame_address(0));
		deepest = std::max(deepest, size_t(base > at ? base - at : at - base));
		return reverse ? b < a : a < b;
	};
	if (deque)
		utki::sort(d.begin(), d.end(), less);
	else
		utki::sort(v.data(), v.data() + v.size(), less);
	sim::quiet q;
	if (deque)
		v.assign(d.begin(), d.end());
	std::sort(want.begin(), want.end());
	if (reverse)
		std::reverse(want.begin(), want.end());
	if (v != want)
		sim::fail("result", "a sort of %zu plain elements (shape %u) gave another sequence", n, shape);
	if (deepest > stack_limit)
		sim::fail("stack", "a sort of %zu plain elements (shape %u) took %zu bytes of stack", n, shape, deepest);
}

// Sequences whose iterators give proxies.
void bits()
{
	size_t n = sim::range(0, 140), lo = 0, hi = n;
	std::vector<bool> v;
	bool reverse = sim::coin();
	size_t ones = 0;
	for (size_t i = 0; i < n; ++i)
		v.push_back(sim::coin());
	if (n && sim::coin()) {
		lo = sim::choose(uint32_t(n));
		hi = lo + sim::choose(uint32_t(n - lo) + 1);
	}
	std::vector<bool> want = v;
	for (size_t i = lo; i < hi; ++i)
		ones += v[i];
	for (size_t i = lo; i < hi; ++i)
		want[i] = reverse ? i < lo + ones : i >= hi - ones;
	if (reverse)
		utki::sort(v.begin() + long(lo), v.begin() + long(hi), [](bool a, bool b) { return b < a; });
	else
		utki::sort(v.begin() + long(lo), v.begin() + long(hi));
	sim::ev("bits", n, ones);
	if (v != want)
		sim::fail("result", "a sort of %zu bits is wrong", hi - lo);
}

template <bool hard>
void run_all()
{
	using e = el<hard>;
	switch (sim::choose(5)) {
		case 0:
		case 1:
			queries<std::vector<e>>().run();
			break;
		case 2:
			queries<std::deque<e>>().run();
			break;
		case 3:
			queries<std::list<e>>().run();
			break;
		default:
			if (sim::chance(1, 8))
				crowd();
			else if (sim::chance(1, 16))
				bits();
			else
				sorting<hard>();
			break;
	}
}
} // namespace

static void scenario()
{
	st = {};
	uint32_t n = sim::range(1, 2);
	for (uint32_t i = 0; i < n; ++i) {
		if (sim::chance(1, 3))
			run_all<true>();
		else
			run_all<false>();
	}
	if (st.alive)
		sim::fail("elements-left", "%d elements were not destroyed exactly once", st.alive);
}

void scenario_run()
{
	ambient(scenario);
}
