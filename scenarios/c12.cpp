// C12: histories of edits and traversals of trees against a model, with failing allocations and element copies.
#include <algorithm>
#include <list>
#include <memory>
#include <stdexcept>

#include <utki/tree.hpp>

#include "common.hpp"

const char* const scenario_id = "C12";

namespace {
#ifdef DEBUG
constexpr bool debug_build = true;
#else
constexpr bool debug_build = false;
#endif

struct copy_failure {
	int id;
};

int elements_alive;
uint32_t copy_fail_in; // the n-th copy from now throws; 0: none
uint32_t copies_failed;

struct el {
	int id;
	std::unique_ptr<int> data; // owns memory: copying can fail

	el(int id = 0) :
		id(id),
		data(new int(id))
	{
		++elements_alive;
	}
	el(const el& o) :
		id(o.id)
	{
		if (copy_fail_in && --copy_fail_in == 0) {
			sim::fault("element-copy-throws");
			++copies_failed;
			throw copy_failure{o.id};
		}
		this->data.reset(new int(*o.data));
		++elements_alive;
	}
	el(el&& o) noexcept :
		id(o.id),
		data(std::move(o.data))
	{
		o.id = -1;
		++elements_alive;
	}
	el& operator=(const el& o)
	{
		el t(o);
		std::swap(this->id, t.id);
		std::swap(this->data, t.data);
		return *this;
	}
	el& operator=(el&& o) noexcept
	{
		this->id = o.id;
		this->data = std::move(o.data);
		o.id = -1;
		return *this;
	}
	~el()
	{
		this->id = -2;
		--elements_alive;
	}
	bool operator==(const el& o) const
	{
		return this->id == o.id;
	}
	bool operator==(int v) const
	{
		return this->id == v;
	}
};

struct mnode {
	int id;
	std::vector<mnode> kids;
};
using path = std::vector<size_t>;

void all_paths(const std::vector<mnode>& l, path& cur, std::vector<path>& out)
{
	for (size_t i = 0; i < l.size(); ++i) {
		cur.push_back(i);
		out.push_back(cur);
		all_paths(l[i].kids, cur, out);
		cur.pop_back();
	}
}

template <template <class, class> class container_t>
struct world {
	using tree = utki::tree<el, container_t>;
	using container = typename tree::container_type;
	using trav = utki::traversal<container>;
	using ctrav = utki::traversal<const container>;
	static constexpr bool random_access = std::is_same_v<container, std::vector<tree>>;

	container roots;
	std::vector<mnode> model;
	int next_id = 1;
	bool faults = false;
	size_t limit = 40;

	std::vector<mnode>* list_of(const path& p) // the list that the node at p is in
	{
		auto* l = &this->model;
		for (size_t i = 0; i + 1 < p.size(); ++i)
			l = &(*l)[p[i]].kids;
		return l;
	}
	const mnode& node_at(const path& p)
	{
		return (*this->list_of(p))[p.back()];
	}
	std::vector<path> paths()
	{
		std::vector<path> out;
		path cur;
		all_paths(this->model, cur, out);
		return out;
	}
	tree& real_at(const path& p)
	{
		container* l = &this->roots;
		tree* t = nullptr;
		for (size_t i : p) {
			auto it = l->begin();
			std::advance(it, long(i));
			t = &*it;
			l = &t->children;
		}
		return *t;
	}

	static void same(const container& c, const std::vector<mnode>& m, const char* when)
	{
		if (c.size() != m.size())
			sim::fail("tree-differs", "%s: a list has %zu nodes, %zu expected", when, c.size(), m.size());
		size_t i = 0;
		for (auto& t : c) {
			if (t.value.id != m[i].id)
				sim::fail("tree-differs", "%s: node %d found where %d is expected", when, t.value.id, m[i].id);
			if (!t.value.data || *t.value.data != m[i].id)
				sim::fail("tree-differs", "%s: the value of node %d is damaged", when, m[i].id);
			same(t.children, m[i].kids, when);
			++i;
		}
	}
	void compare(const char* when)
	{
		sim::quiet q;
		same(this->roots, this->model, when);
	}

	// runs f with a fault somewhere inside; true if it failed
	template <class f>
	bool attempt(const char* what, f fn)
	{
		uint32_t fail_at = 0;
		bool persist = false;
		copy_fail_in = 0;
		if (this->faults && sim::chance(1, 2)) {
			if (sim::chance(2, 3)) {
				fail_at = 1 + sim::choose(7);
				persist = sim::chance(1, 3);
			} else
				copy_fail_in = 1 + sim::choose(5);
		}
		sim::ev(what, fail_at, copy_fail_in, persist);
		uint32_t failed_before = copies_failed;
		bool failed = false;
		uint32_t fired = 0;
		try {
			sim::alloc_scope as(fail_at, persist);
			struct count {
				sim::alloc_scope& as;
				uint32_t& fired;
				~count()
				{
					this->fired = this->as.fired();
				}
			} c{as, fired};
			fn();
		} catch (std::bad_alloc&) {
			failed = true;
			if (!fired)
				sim::fail("wrong-exception", "%s: bad_alloc although memory did not fail", what);
		} catch (copy_failure&) {
			failed = true;
			if (copies_failed == failed_before)
				sim::fail("wrong-exception", "%s: a copy failure although no copy failed", what);
		}
		copy_fail_in = 0;
		// an operation may get along without an allocation that failed, its result is judged as any other
		if (!failed && copies_failed != failed_before)
			sim::fail("exception-lost", "%s: the failure inside did not reach the caller", what);
		return failed;
	}

	// the iterator stands at p (root size: the end)
	template <class iter>
	void standing(iter& it, const path& p, const char* when)
	{
		sim::quiet q;
		auto idx = it.index();
		if (path(idx.begin(), idx.end()) != p)
			sim::fail("position", "%s: the iterator's index is not that of the node it should be at", when);
		if (it.depth() != p.size())
			sim::fail("position", "%s: depth() is %zu at depth %zu", when, it.depth(), p.size());
		bool at_end = p.size() == 1 && p[0] == this->model.size();
		if (at_end)
			return;
		const iter& cit = it;
		tree& want = real_at(p);
		if (&*it != &want || &*cit != &want || it.operator->() != &want || cit.operator->() != &want)
			sim::fail("position", "%s: the iterator is at another node", when);
		for (size_t d = 0; d < p.size(); ++d) {
			path sub(p.begin(), p.begin() + long(d) + 1);
			if (&it.at_level(d) != &real_at(sub) || &cit.at_level(d) != &real_at(sub))
				sim::fail("position", "%s: at_level(%zu) is another node", when, d);
		}
		if (it.is_last_child() != (p.back() + 1 == list_of(p)->size()))
			sim::fail("position", "%s: is_last_child() is wrong", when);
	}

	path random_path()
	{
		auto ps = this->paths();
		return ps[sim::choose(uint32_t(ps.size()))];
	}
	path at(const std::vector<path>& ps, size_t i) // i == ps.size(): the end
	{
		return i < ps.size() ? ps[i] : path{this->model.size()};
	}

	// obtains an iterator to node p in one of the ways there are
	typename trav::iterator obtain(trav& tr, const path& p)
	{
		switch (sim::choose(3)) {
			case 0:
				return tr.make_iterator(p);
			case 1:
				return tr.make_iterator(utki::make_span(p));
			default:
				{
					auto it = tr.begin();
					for (;;) {
						bool there;
						{
							sim::quiet q;
							auto idx = it.index();
							there = path(idx.begin(), idx.end()) == p;
						}
						if (there)
							return it;
						if (it == tr.end())
							sim::fail("traversal", "a node was not found by traversal");
						++it;
					}
				}
		}
	}

	tree make_tree(mnode& m, uint32_t& budget, uint32_t depth)
	{
		m.id = this->next_id++;
		uint32_t kids = depth < 3 && budget ? sim::choose(4) : 0;
		if (sim::chance(1, 2))
			kids = 0;
		tree t(el(m.id)); // not with braces: those make it a list of children
		for (uint32_t i = 0; i < kids && budget; ++i) {
			--budget;
			m.kids.emplace_back();
			t.children.push_back(make_tree(m.kids.back(), budget, depth + 1));
		}
		return t;
	}

	void insert()
	{
		trav tr = utki::make_traversal(this->roots);
		std::vector<path> ps;
		mnode m;
		size_t where;
		bool after;
		{
			sim::quiet q;
			ps = this->paths();
			if (ps.size() > this->limit)
				return;
			where = sim::choose(uint32_t(ps.size() + 1));
			after = where < ps.size() && sim::coin();
		}
		uint32_t budget = sim::choose(6);
		tree t = [&] {
			sim::quiet q;
			return this->make_tree(m, budget, 0);
		}();
		auto it = where < ps.size() ? obtain(tr, ps[where]) : tr.end();
		typename trav::iterator ret;
		bool by_move = sim::coin();
		bool from_inside = !by_move && !ps.empty() && sim::chance(1, 3);
		path src;
		if (from_inside) {
			// a copy of a node of this very tree
			sim::quiet q;
			src = this->random_path();
			m = this->node_at(src);
		}
		bool failed = attempt("insert", [&] {
			if (by_move)
				ret = after ? tr.insert_after(it, std::move(t)) : tr.insert(it, std::move(t));
			else {
				const tree& r = from_inside ? real_at(src) : t;
				ret = after ? tr.insert_after(it, r) : tr.insert(it, r);
			}
		});
		if (failed) {
			this->compare("after a failed insertion");
			path p = this->at(ps, where);
			this->standing(it, p, "after a failed insertion");
			return;
		}
		sim::quiet q2;
		path p = this->at(ps, where);
		if (after)
			++p.back();
		auto* l = this->list_of(p);
		l->insert(l->begin() + long(p.back()), m);
		this->compare("after an insertion");
		this->standing(ret, p, "the iterator returned by an insertion");
		if (!from_inside && !by_move && t.value.id != m.id)
			sim::fail("tree-differs", "the tree that was inserted by copy changed");
	}
	void erase()
	{
		trav tr = utki::make_traversal(this->roots);
		path p;
		std::vector<path> before;
		{
			sim::quiet q;
			before = this->paths();
			if (before.empty())
				return;
			p = this->random_path();
		}
		auto it = obtain(tr, p);
		typename trav::iterator ret;
		if (attempt("erase", [&] { ret = tr.erase(it); })) {
			this->compare("after a failed erasure");
			this->standing(it, p, "after a failed erasure");
			return;
		}
		sim::quiet q;
		auto* l = this->list_of(p);
		int next_id = -1; // the node that followed, in traversal order
		for (size_t i = 0; i < before.size(); ++i)
			if (before[i] == p) {
				size_t k = i + 1;
				while (k < before.size() && before[k].size() > p.size())
					++k;
				if (k < before.size())
					next_id = this->node_at(before[k]).id;
			}
		path next = p; // it is where the erased one was, or next to an ancestor
		l->erase(l->begin() + long(p.back()));
		this->compare("after an erasure");
		while (next.size() > 1 && next.back() == this->list_of(next)->size()) {
			next.pop_back();
			++next.back();
		}
		this->standing(ret, next, "the iterator returned by an erasure");
		if (next_id >= 0 && ret->value.id != next_id)
			sim::fail("position", "an erasure returned another node than the next one");
	}
	void edit_directly()
	{
		// nodes can also be edited without a traversal
		path p;
		{
			sim::quiet q;
			if (this->paths().empty() || this->paths().size() > this->limit)
				return;
			p = this->random_path();
		}
		tree& t = real_at(p);
		switch (sim::choose(3)) {
			case 0:
				{
					int id = this->next_id++;
					if (attempt("push_back", [&] { t.children.push_back(tree(el(id))); }))
						break;
					sim::quiet q;
					const_cast<mnode&>(this->node_at(p)).kids.push_back(mnode{id, {}});
					break;
				}
			case 1:
				{
					t.children.clear();
					sim::quiet q;
					const_cast<mnode&>(this->node_at(p)).kids.clear();
					break;
				}
			default:
				{
					int id = this->next_id++;
					t.value = el(id);
					sim::quiet q;
					const_cast<mnode&>(this->node_at(p)).id = id;
					break;
				}
		}
		this->compare("after editing a node");
	}
	// random steps, forward and back
	template <class traversal, class iter>
	void walk(traversal& tr, iter it, size_t pos)
	{
		(void)tr;
		std::vector<path> ps;
		{
			sim::quiet q;
			ps = this->paths();
		}
		uint32_t n = sim::range(1, 14);
		bool forward = sim::coin();
		for (uint32_t i = 0; i < n; ++i) {
			if (sim::chance(1, 4))
				forward = !forward;
			bool fwd = pos == ps.size() ? false : pos == 0 ? true : forward;
			if (ps.empty())
				return;
			iter before = it;
			bool failed = attempt(fwd ? "step" : "step-back", [&] {
				if (fwd)
					++it;
				else
					--it;
			});
			if (failed) {
				standing(it, at(ps, pos), "after a failed step");
				if (!(it == before) || it != before)
					sim::fail("position", "the iterator changed although the step failed");
				// and goes on from there
				if (fwd)
					++it;
				else
					--it;
			}
			pos = fwd ? pos + 1 : pos - 1;
			standing(it, at(ps, pos), fwd ? "after a step" : "after a step back");
			if (it == before || !(it != before))
				sim::fail("position", "the iterator equals one at another node");
			if constexpr (random_access) {
				if (fwd ? !(before < it) || !(before <= it) || before > it || before >= it : !(it < before) || it >= before)
					sim::fail("position", "the order of two iterators is not that of the traversal");
			}
		}
	}
	void walks()
	{
		std::vector<path> ps;
		{
			sim::quiet q;
			ps = this->paths();
		}
		size_t pos = sim::choose(uint32_t(ps.size() + 1));
		trav tr = utki::make_traversal(this->roots);
		const container& cr = this->roots;
		ctrav ctr = utki::make_traversal(cr);
		switch (sim::choose(4)) {
			case 0:
				walk(tr, pos < ps.size() ? tr.make_iterator(ps[pos]) : tr.end(), pos);
				break;
			case 1:
				walk(ctr, pos < ps.size() ? ctr.make_const_iterator(ps[pos]) : ctr.cend(), pos);
				break;
			case 2:
				walk(ctr, pos < ps.size() ? ctr.make_iterator(ps[pos]) : ctr.end(), pos);
				break;
			default:
				if (sim::coin())
					walk(tr, tr.begin(), 0);
				else
					walk(tr, tr.end(), ps.size());
				break;
		}
	}
	// any two positions, the end included, compare as they come in the traversal
	void order()
	{
		std::vector<path> ps;
		{
			sim::quiet q;
			ps = this->paths();
		}
		size_t n = ps.size();
		size_t x = sim::choose(uint32_t(n + 1)), y = sim::chance(1, 3) ? x : sim::choose(uint32_t(n + 1));
		const container& cr = this->roots;
		trav tr = utki::make_traversal(this->roots);
		ctrav ctr = utki::make_traversal(cr);
		auto go = [&](const auto& a, const auto& b) {
			if ((a == b) != (x == y) || (a != b) != (x != y))
				sim::fail("position", "iterators at positions %zu and %zu of %zu do not compare as such", x, y, n);
			if constexpr (random_access) {
				if ((a < b) != (x < y) || (a > b) != (x > y) || (a <= b) != (x <= y) || (a >= b) != (x >= y))
					sim::fail("position", "iterators at positions %zu and %zu of %zu are not ordered as such", x, y, n);
			}
		};
		sim::ev("order", x, y);
		(void)attempt("order", [&] {
			if (sim::coin())
				go(x < n ? tr.make_iterator(ps[x]) : tr.end(), y < n ? tr.make_iterator(ps[y]) : tr.end());
			else
				go(x < n ? ctr.make_const_iterator(ps[x]) : ctr.cend(), y < n ? ctr.make_const_iterator(ps[y]) : ctr.cend());
		});
	}
	void traverse()
	{
		std::vector<path> ps;
		std::vector<int> want, got;
		{
			sim::quiet q;
			ps = this->paths();
			for (auto& p : ps)
				want.push_back(this->node_at(p).id);
		}
		trav tr = utki::make_traversal(this->roots);
		const container& cr = this->roots;
		ctrav ctr = utki::make_traversal(cr);
		uint32_t kind = sim::choose(6);
		auto add = [&](const tree& t) {
			sim::quiet q;
			got.push_back(t.value.id);
			if (got.size() > want.size())
				sim::fail("traversal", "more nodes were visited than there are");
		};
		bool failed = attempt("traverse", [&] {
			switch (kind) {
				case 0:
					for (auto& n : tr)
						add(n);
					break;
				case 1:
					for (auto& n : ctr)
						add(n);
					break;
				case 2:
					for (auto i = ctr.cbegin(); i != ctr.cend(); ++i)
						add(*i);
					break;
				case 3:
					for (auto i = tr.rbegin(); i != tr.rend(); ++i)
						add(*i);
					break;
				case 4:
					for (auto i = ctr.crbegin(); i != ctr.crend(); ++i)
						add(*i);
					break;
				default:
					{
						if (want.empty())
							break;
						int id = want[sim::choose(uint32_t(want.size()))];
						auto i = std::find(tr.begin(), tr.end(), id);
						if (i == tr.end() || i->value.id != id)
							sim::fail("traversal", "a node was not found");
						sim::quiet q;
						got = want;
						break;
					}
			}
		});
		sim::quiet q;
		if (kind == 3 || kind == 4)
			std::reverse(want.begin(), want.end());
		if (failed)
			want.resize(got.size()); // what was visited until then is right
		if (got != want)
			sim::fail("traversal", "%zu nodes were visited, not those of the tree in depth-first order", got.size());
		this->compare("after a traversal");
	}
	void bad_index()
	{
		// an index made wrong at some level
		path p;
		bool none;
		{
			sim::quiet q;
			none = this->paths().empty();
			if (none)
				p = {0};
			else {
				p = this->random_path();
				switch (sim::choose(3)) {
					case 0:
						p.push_back(this->node_at(p).kids.size()); // one past the last child
						break;
					case 1:
						p.back() = this->list_of(p)->size();
						break;
					default:
						p.back() = this->list_of(p)->size() + (size_t(1) << sim::choose(64)) - 1;
						if (p.back() < this->list_of(p)->size())
							p.back() = ~size_t(0);
						break;
				}
			}
			if (sim::coin())
				p.push_back(sim::choose(3));
			if (sim::coin())
				p.push_back(0);
		}
		trav tr = utki::make_traversal(this->roots);
		const container& cr = this->roots;
		ctrav ctr = utki::make_traversal(cr);
		sim::ev("bad-index", p.size(), p.back());
		exact<size_t> ex(p.data(), p.size());
		auto span = utki::make_span(static_cast<const size_t*>(ex.p), ex.n);
		if constexpr (random_access) {
			if (tr.is_valid(p) || tr.is_valid(span) || ctr.is_valid(span))
				sim::fail("bad-index", "an index of no node is said to be valid");
			if (tr.is_valid(path()) || tr.is_valid({}))
				sim::fail("bad-index", "an empty index is said to be valid");
		}
		// operator[] requires a valid index: only debug builds promise to say so
		uint32_t how = sim::choose(random_access && debug_build ? 4 : 2);
		bool refused = false, aborted = false;
		auto ask = [&] {
			try {
				switch (how) {
					case 0:
						tr.make_iterator(span);
						break;
					case 1:
						ctr.make_const_iterator(p);
						break;
					case 2:
						if constexpr (random_access)
							(void)tr[span].value.id;
						break;
					default:
						if constexpr (random_access)
							(void)static_cast<const ctrav&>(ctr)[p].value.id;
						break;
				}
			} catch (std::out_of_range&) {
				refused = true;
			}
		};
		if (how >= 2 && debug_build)
			aborted = sim::catch_abort(ask); // stopped by an assertion
		else
			ask();
		if (!refused && !aborted)
			sim::fail("bad-index", "an index of no node was accepted");
		this->compare("after a bad index");
	}
	void bad_level()
	{
		std::vector<path> ps;
		{
			sim::quiet q;
			ps = this->paths();
		}
		if (ps.empty())
			return;
		path p = ps[sim::choose(uint32_t(ps.size()))];
		trav tr = utki::make_traversal(this->roots);
		auto it = tr.make_iterator(p);
		size_t d = p.size() + (sim::coin() ? 0 : sim::choose(10));
		if (sim::chance(1, 8))
			d = ~size_t(0);
		sim::ev("bad-level", p.size(), d);
		bool refused = false;
		try {
			if (sim::coin())
				(void)it.at_level(d).value.id;
			else
				(void)static_cast<const decltype(it)&>(it).at_level(d).value.id;
		} catch (std::out_of_range&) {
			refused = true;
		}
		if (!refused)
			sim::fail("bad-level", "a level that the node does not have was accepted");
	}
	void good_index()
	{
		std::vector<path> ps;
		{
			sim::quiet q;
			ps = this->paths();
		}
		if (ps.empty())
			return;
		path p = ps[sim::choose(uint32_t(ps.size()))];
		trav tr = utki::make_traversal(this->roots);
		const container& cr = this->roots;
		const ctrav ctr = utki::make_traversal(cr);
		exact<size_t> ex(p.data(), p.size());
		auto span = utki::make_span(static_cast<const size_t*>(ex.p), ex.n);
		bool failed = attempt("by-index", [&] {
			auto a = tr.make_iterator(span);
			auto b = ctr.make_const_iterator(span);
			auto i = a.index();
			sim::quiet q;
			if (&*a != &real_at(p) || &*b != &real_at(p) || path(i.begin(), i.end()) != p)
				sim::fail("position", "an index does not lead to its node");
		});
		(void)failed;
		if constexpr (random_access) {
			if (!tr.is_valid(span) || !ctr.is_valid(p))
				sim::fail("position", "the index of a node is said to be invalid");
			if (&tr[span] != &real_at(p) || &ctr[p] != &real_at(p) || &tr[p] != &real_at(p))
				sim::fail("position", "an index does not lead to its node");
			if (p.size() == 2 && (&tr[{p[0], p[1]}] != &real_at(p) || !tr.is_valid({p[0], p[1]})))
				sim::fail("position", "an index does not lead to its node");
		}
		if (p.size() == 1 && &*tr.make_iterator({p[0]}) != &real_at(p))
			sim::fail("position", "an index does not lead to its node");
	}
	void whole_trees()
	{
		path p;
		{
			sim::quiet q;
			if (this->paths().empty())
				return;
			p = this->random_path();
		}
		tree& t = real_at(p);
		switch (sim::choose(4)) {
			case 0:
				{
					// a copy is equal and independent
					std::unique_ptr<tree> c;
					if (!attempt("copy", [&] { c = std::make_unique<tree>(t); })) {
						if (!(*c == t))
							sim::fail("tree-differs", "a copy of a tree is not equal to it");
						// another value or another list somewhere in the copy makes it different
						tree* n = c.get();
						while (!n->children.empty() && sim::coin()) {
							auto i = n->children.begin();
							std::advance(i, long(sim::choose(uint32_t(n->children.size()))));
							n = &*i;
						}
						uint32_t how = sim::choose(3);
						sim::ev("change", uint64_t(n->value.id), how);
						if (how == 0)
							n->value = el(999999);
						else if (how == 1 && !n->children.empty())
							n->children.pop_back();
						else
							n->children.push_back(tree(el(999998)));
						if (*c == t || t == *c)
							sim::fail("tree-differs", "different trees are equal");
						if (!(*c == *c))
							sim::fail("tree-differs", "a tree is not equal to itself");
						c->children.clear();
					}
					break;
				}
			case 1:
				{
					// out and back
					tree m(std::move(t));
					t = std::move(m);
					break;
				}
			case 2:
				{
					path p2;
					{
						sim::quiet q;
						p2 = this->random_path();
					}
					if (p.size() == p2.size() && p != p2) {
						// two nodes of the same depth trade places
						std::swap(t, real_at(p2));
						sim::quiet q;
						std::swap(const_cast<mnode&>(this->node_at(p)), const_cast<mnode&>(this->node_at(p2)));
					}
					break;
				}
			default:
				{
					std::unique_ptr<tree> made;
					int id = this->next_id;
					if (!attempt("construct", [&] {
							made = std::make_unique<tree>(el(id), std::initializer_list<tree>{el(id + 1), tree(el(id + 2), {el(id + 3)}), el(id + 4)});
						})) {
						std::vector<int> ids;
						auto tr = utki::make_traversal(made->children);
						for (auto& n : tr)
							ids.push_back(n.value.id - id);
						if (made->value.id != id || ids != std::vector<int>{1, 2, 3, 4})
							sim::fail("tree-differs", "a tree made of a list is not what was given");
						if (!attempt("construct", [&] {
								tree other(el(id), made->children);
								if (!(other == *made))
									sim::fail("tree-differs", "a tree made of children is not what was given");
							})) {
						}
					}
					break;
				}
		}
		this->compare("after handling whole trees");
	}

	// the model learns what a failed assignment left in its target
	void relearn(const tree& t, mnode& m)
	{
		m.id = t.value.id;
		if (!t.value.data)
			sim::fail("tree-differs", "a failed assignment left a node without a value");
		m.kids.clear();
		for (auto& c : t.children) {
			m.kids.emplace_back();
			relearn(c, m.kids.back());
		}
	}
	// a node of the tree becomes a copy of, or is replaced by, another: also by one below or above it, or itself
	void assign()
	{
		path to, from;
		bool below, above;
		mnode m;
		{
			sim::quiet q;
			auto ps = this->paths();
			if (ps.empty() || ps.size() > this->limit)
				return;
			to = this->random_path();
			// mostly one that is related
			std::vector<path> related;
			for (auto& p : ps)
				if (std::equal(to.begin(), to.begin() + long(std::min(to.size(), p.size())), p.begin()))
					related.push_back(p);
			from = sim::chance(1, 4) ? this->random_path() : related[sim::choose(uint32_t(related.size()))];
			auto prefix = [](const path& a, const path& b) {
				return a.size() < b.size() && std::equal(a.begin(), a.end(), b.begin());
			};
			below = prefix(to, from);
			above = prefix(from, to);
			m = this->node_at(from);
		}
		tree& t = real_at(to);
		tree& f = real_at(from);
		bool by_move = !above && to != from && sim::coin();
		bool failed = attempt(by_move ? "assign-moved" : "assign", [&] {
			if (by_move)
				t = std::move(f);
			else
				t = f;
		});
		sim::quiet q;
		sim::probe(below ? "assigned-from-below" : above ? "assigned-from-above" : "assigned");
		mnode& mt = const_cast<mnode&>(this->node_at(to));
		if (failed)
			relearn(t, mt);
		else
			mt = m;
		if (by_move && !below && !failed) {
			// what a moved-from tree holds is nobody's business, but it takes a new value
			int id = this->next_id++;
			f = tree(el(id));
			const_cast<mnode&>(this->node_at(from)) = mnode{id, {}};
		}
		this->compare(failed ? "after a failed assignment" : "after an assignment");
	}

	// a tree far deeper or wider than those that grow step by step
	void grow()
	{
		sim::quiet q;
		uint32_t n = sim::range(41, sim::thorough() ? 1200 : 500);
		uint32_t shape = sim::choose(3);
		auto* l = &this->roots;
		auto* m = &this->model;
		if (shape == 0)
			n = std::min(n, 300u);
		for (uint32_t i = 0; i < n; ++i) {
			int id = this->next_id++;
			l->push_back(tree(el(id)));
			m->push_back(mnode{id, {}});
			if (shape == 0 || (shape == 2 && sim::chance(1, 24))) {
				l = &l->back().children;
				m = &m->back().kids;
			}
		}
		this->limit = n + 10;
		sim::probe(shape == 0 ? "deep-tree" : shape == 1 ? "wide-tree" : "large-tree");
	}

	void run()
	{
		this->faults = sim::chance(2, 3);
		uint32_t n = sim::range(2, sim::thorough() ? 40 : 20);
		if (sim::chance(1, 250)) {
			this->grow();
			n = sim::range(2, 6);
		}
		for (uint32_t i = 0; i < n; ++i) {
			switch (sim::choose(14)) {
				case 0:
				case 1:
				case 2:
					this->insert();
					break;
				case 3:
					this->erase();
					break;
				case 4:
					this->edit_directly();
					break;
				case 5:
				case 6:
				case 7:
					this->walks();
					break;
				case 8:
					this->traverse();
					break;
				case 9:
					if (sim::chance(1, 8))
						this->bad_index();
					else
						this->bad_level();
					break;
				case 10:
					this->good_index();
					break;
				case 11:
					this->order();
					break;
				case 12:
					this->assign();
					break;
				default:
					this->whole_trees();
					break;
			}
		}
		if (sim::chance(1, 4))
			this->bad_index();
	}
};
} // namespace

// trees of numbers with sizes around the limits of small integers: nodes are numbered in depth-first order
static void giants()
{
	using tree = utki::tree<uint32_t>;
	typename tree::container_type roots;
	uint32_t n = sim::log_uniform(sim::thorough() ? 18 : 17) + 1;
	bool deep = sim::chance(1, 4);
	if (deep)
		n = std::min(n, 3000u);
	bool below = sim::coin(); // the many are not roots, but children of the second root
	std::vector<uint32_t> sprout; // nodes with a child of their own
	for (uint32_t i = sim::choose(4); i; --i)
		sprout.push_back(sim::choose(n));
	std::vector<size_t> top;
	uint32_t total = 0;
	typename tree::container_type* l = &roots;
	if (below) {
		roots.emplace_back(total++);
		roots.emplace_back(total++);
		l = &roots.back().children;
		top.push_back(1);
	}
	sim::probe("giant-tree");
	std::vector<std::pair<uint32_t, std::vector<size_t>>> samples;
	auto sample = [&](uint32_t number, std::vector<size_t> index) {
		samples.emplace_back(number, std::move(index));
	};
	if (deep) {
		std::vector<size_t> at = top;
		for (uint32_t i = 0; i < n; ++i) {
			at.push_back(0);
			if (sim::chance(1, 4)) {
				l->emplace_back(total++);
				at.back() = 1;
			}
			l->emplace_back(total++);
			if (i % (n / 4 + 1) == n / 8 || i + 1 == n)
				sample(total - 1, at);
			l = &l->back().children;
		}
	} else {
		for (uint32_t i = 0; i < n; ++i) {
			std::vector<size_t> at = top;
			at.push_back(i);
			if (sim::choose(0) % (n / 4 + 1) == 0 || i + 1 == n || (i & (i + 1)) == 0 || (i & (i - 1)) == 0)
				sample(total, at);
			l->emplace_back(total++);
			if (std::find(sprout.begin(), sprout.end(), i) != sprout.end()) {
				at.push_back(0);
				sample(total, at);
				l->back().children.emplace_back(total++);
			}
		}
	}
	auto t = utki::make_traversal(roots);
	uint32_t seen = 0;
	auto end = t.end();
	for (auto i = t.begin(); i != end; ++i, ++seen)
		if (i->value != seen)
			sim::fail("order", "node %u of a tree of %u was visited as number %u", i->value, total, seen);
	if (seen != total)
		sim::fail("order", "a traversal of %u nodes visited %u", total, seen);
	for (const auto& s : samples) {
		auto index = utki::make_span(s.second);
		if (!t.is_valid(index))
			sim::fail("index", "the index of node %u of %u is not valid", s.first, total);
		auto i = t.make_iterator(index);
		if (i->value != s.first || t[index].value != s.first)
			sim::fail("index", "the index of node %u of %u leads to node %u", s.first, total, i->value);
		if (i.index() != s.second)
			sim::fail("index", "the index of node %u of %u is another one than led to it", s.first, total);
		if (i.depth() != s.second.size())
			sim::fail("index", "the depth of node %u of %u is %zu", s.first, total, size_t(i.depth()));
		auto next = std::next(i);
		if (s.first + 1 == total ? next != end : next == end || next->value != s.first + 1)
			sim::fail("order", "the node after node %u of %u is another one", s.first, total);
		if (s.first && std::prev(i)->value != s.first - 1)
			sim::fail("order", "the node before node %u of %u is another one", s.first, total);
		auto beyond = s.second;
		beyond.back() += size_t(1) << sim::range(17, 50);
		if (t.is_valid(utki::make_span(beyond)))
			sim::fail("index", "an index far beyond the last node is valid");
	}
}

static void scenario()
{
	if (sim::chance(1, 1500)) {
		giants();
		return;
	}
	elements_alive = 0;
	copy_fail_in = 0;
	copies_failed = 0;
	{
		bool list = sim::chance(1, 3);
		if (list) {
			world<std::list> w;
			w.run();
		} else {
			world<std::vector> w;
			w.run();
		}
	}
	if (elements_alive != 0)
		sim::fail("leak", "%d elements were not destroyed exactly once", elements_alive);
}

void scenario_run()
{
	ambient(scenario);
}
