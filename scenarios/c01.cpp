// C01 spin lock: mutual exclusion, visibility, progress.
#include "common.hpp"

#include <algorithm>
#include <memory>
#include <mutex>
#include <numeric>
#include <stdexcept>
#include <vector>

#include <utki/spin_lock.hpp>

const char* const scenario_id = "C01";

namespace {
struct guarded {
	alignas(64) unsigned char mem[sizeof(utki::spin_lock) + 64];
	utki::spin_lock* lock = nullptr;
	// plain data, protected by the lock only: the race detector decides visibility
	uint32_t data[3] = {0, 0, 0};
	// oracle, touched in quiet sections only
	int inside = 0;
	uint64_t acquired = 0;
	uint32_t expected = 0;
	// progress: what each thread had executed when it began to wait, and when the lock was last seen free
	bool waits[8] = {};
	uint64_t waits_from[8];
	bool free = false;
	uint64_t free_from[8];
};
// an upper bound on what any one waiter may execute while the lock is free and nobody gets it
constexpr uint64_t own_steps_bound = 1u << 17;

struct world {
	guarded g[3];
	int nlocks = 1;
	int b_done = 0; // threads that use only the last lock and have finished
	int b_total = 0;
};

void begin_waiting(guarded& g)
{
	sim::quiet q;
	int me = sim::self();
	g.waits[me] = true;
	g.waits_from[me] = sim::own_steps(me);
}
void unlocked(guarded& g, uint64_t acquired)
{
	sim::quiet q;
	if (g.acquired != acquired)
		return; // somebody has it already
	g.free = true;
	for (int i = 0; i < 8; ++i)
		g.free_from[i] = sim::own_steps(i);
}
// what a section has to do after its lock is unlocked
struct section {
	guarded& g;
	uint64_t acquired = 0;
	section(guarded& g) :
		g(g)
	{
		begin_waiting(g);
	}
	~section()
	{
		unlocked(this->g, this->acquired);
	}
};

void enter(guarded& g)
{
	sim::quiet q;
	if (g.free) {
		for (int i = 0; i < 8; ++i) {
			if (!g.waits[i])
				continue;
			uint64_t spent = sim::own_steps(i) - std::max(g.waits_from[i], g.free_from[i]);
			if (spent > own_steps_bound)
				sim::fail("no-progress", "thread %d executed %llu steps waiting for a lock that was free", i, (unsigned long long)spent);
		}
		g.free = false;
	}
	g.waits[sim::self()] = false;
	if (++g.inside != 1)
		sim::fail("mutual-exclusion", "%d threads inside one critical section", g.inside);
	++g.acquired;
	sim::ev("enter");
}
void leave(guarded& g)
{
	sim::quiet q;
	if (--g.inside != 0)
		sim::fail("mutual-exclusion", "%d threads still inside while the holder leaves", g.inside);
	sim::ev("leave");
}
} // namespace

static void scenario()
{
	world w;
	bool many = sim::chance(1, 24);
	w.nlocks = int(sim::range(1, 3));
	static const uint8_t dirt[] = {0x00, 0xff, 0x01, 0xa5, 0x80};
	for (int i = 0; i < w.nlocks; ++i) {
		guarded& g = w.g[i];
		memset(g.mem, sim::pick(dirt), sizeof g.mem);
		// all alignments the type permits
		size_t off = sim::choose(8) * alignof(utki::spin_lock);
		if (off > 64)
			off = 0;
		g.lock = new (g.mem + off) utki::spin_lock();
	}
	uint64_t stalls = 0;
	if (many) {
		// marathon on one thread, then contention continues from whatever state this left
		uint32_t n = sim::log_uniform(sim::thorough() ? 21 : 18);
		guarded& g = w.g[0];
		for (uint32_t i = 0; i < n; ++i) {
			g.lock->lock();
			++g.data[0];
			g.lock->unlock();
		}
		g.expected += n;
		sim::ev("marathon", n);
		if (n > 65536)
			sim::probe("more-than-65536-acquisitions");
	}
	if (sim::chance(1, 60)) {
		// locks know nothing of each other: one thread holds any number of them
		uint32_t n = sim::log_uniform(sim::thorough() ? 15 : 13) + 2;
		uint32_t gap = 1u << sim::choose(8);
		std::vector<utki::spin_lock> row(gap < 64 ? n : 0);
		std::vector<std::unique_ptr<guarded>> apart;
		std::vector<utki::spin_lock*> all;
		for (auto& l : row)
			all.push_back(&l);
		while (all.size() < n) {
			apart.push_back(std::make_unique<guarded>());
			all.push_back(new (apart.back()->mem) utki::spin_lock());
		}
		uint32_t x = sim::choose(n);
		uint32_t step = 1 + sim::choose(n - 1);
		while (std::gcd(step, n) != 1)
			++step;
		for (uint32_t i = 0; i < n; ++i, x = (x + step) % n)
			all[x]->lock();
		for (uint32_t i = 0; i < n; ++i, x = (x + step) % n)
			all[x]->unlock();
		sim::ev("row", n);
		sim::probe("many-locks-held-by-one-thread");
	}
	int nt = int(sim::range(2, 5));
	bool forever = w.nlocks > 1 && sim::chance(1, 6); // thread 0 holds the first lock until users of the last one end
	struct plan {
		uint32_t iters;
		uint32_t stall_bits; // 0: none
		uint32_t mask; // which locks
		bool throws;
	};
	plan p[8];
	uint32_t max_bits = 14;
	if (sim::chance(1, 40))
		max_bits = sim::thorough() ? 25 : 22;
	else if (sim::chance(1, 10))
		max_bits = sim::thorough() ? 21 : 18;
	for (int t = 0; t < nt; ++t) {
		p[t].iters = 1 + sim::log_uniform(5);
		p[t].stall_bits = sim::chance(1, 2) ? (max_bits >= 18 ? max_bits : sim::choose(max_bits + 1)) : 0;
		p[t].mask = 1 + sim::choose((1u << w.nlocks) - 1);
		p[t].throws = sim::chance(1, 6);
		if (forever && t > 0)
			p[t].mask = 1u << (w.nlocks - 1);
	}
	if (max_bits >= 22)
		nt = 2; // all of the stall is spent by one waiter
	sim::set_step_cap(6000000 + (uint64_t(nt) << (max_bits + 3)));
	w.b_total = nt - 1;
	for (int t = 0; t < nt; ++t) {
		sim::spawn([&w, &p, t, forever, &stalls] {
			plan& me = p[t];
			if (forever && t == 0) {
				section s(w.g[0]);
				std::lock_guard<utki::spin_lock> l(*w.g[0].lock);
				enter(w.g[0]);
				s.acquired = w.g[0].acquired;
				++w.g[0].data[0];
				{
					sim::quiet q;
					++w.g[0].expected;
					sim::fault("stall-until-others-done");
					sim::stall_until([](void* a) { return static_cast<world*>(a)->b_done == static_cast<world*>(a)->b_total; }, &w);
				}
				leave(w.g[0]);
				return;
			}
			int stalled = 0;
			for (uint32_t i = 0; i < me.iters; ++i) {
				int li = 0;
				uint32_t stall = 0;
				bool thr = false;
				int slot = 0;
				{
					sim::quiet q;
					do {
						li = int(sim::choose(uint32_t(w.nlocks)));
					} while (!(me.mask & (1u << li)) && (li = __builtin_ctz(me.mask), false));
					slot = int(sim::choose(3));
					if (me.stall_bits && stalled < 2 && sim::chance(1, 3)) {
						stall = me.stall_bits >= 18 ? sim::choose(1u << me.stall_bits) : sim::log_uniform(me.stall_bits);
						++stalled;
					}
					thr = me.throws && sim::chance(1, 3);
				}
				guarded& g = w.g[li];
				try {
					section s(g);
					std::lock_guard<utki::spin_lock> l(*g.lock);
					enter(g);
					s.acquired = g.acquired;
					uint32_t v = g.data[slot];
					if (stall) {
						sim::stall(stall);
						sim::quiet q;
						if (stall > 65536)
							sim::probe("holder-stalled-more-than-65536-steps");
					}
					g.data[slot] = v + 1;
					{
						sim::quiet q;
						++g.expected;
					}
					leave(g);
					if (thr)
						throw std::runtime_error("leave by exception");
				} catch (std::runtime_error&) {
					sim::fault("exception-in-critical-section");
				}
			}
			sim::quiet q;
			++w.b_done;
		});
	}
	sim::join_all();
	sim::quiet q;
	for (int i = 0; i < w.nlocks; ++i) {
		guarded& g = w.g[i];
		uint32_t sum = g.data[0] + g.data[1] + g.data[2];
		sim::ev("sum", sum);
		if (sum != g.expected)
			sim::fail("lost-update", "%u increments made under the lock, %u visible", g.expected, sum);
	}
}

void scenario_run()
{
	ambient(scenario);
}
