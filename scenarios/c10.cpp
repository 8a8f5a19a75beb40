// C10: the tick counter under a simulated clock placed anywhere, advancing in any steps, read from several threads.
#include <utki/time.hpp>

#include "common.hpp"

const char* const scenario_id = "C10";

namespace {
constexpr uint64_t ms = 1000000;
constexpr uint64_t wrap_ns = (uint64_t(1) << 32) * ms;

int64_t stepped; // sum of the steps the system clock was set by

struct reading {
	uint32_t ticks;
	// real time passed and steps of the system clock when the reading began and ended
	uint64_t t0, t1;
	int64_t s0, s1;
};

reading read()
{
	reading r;
	{
		sim::quiet q;
		r.t0 = sim::clock_now_ns();
		r.s0 = stepped;
	}
	r.ticks = utki::get_ticks_ms();
	{
		sim::quiet q;
		r.t1 = sim::clock_now_ns();
		r.s1 = stepped;
		sim::ev("ticks", r.ticks, r.t0, r.t1);
	}
	return r;
}

int64_t floor_ms(int64_t ns)
{
	int64_t q = ns / int64_t(ms);
	return ns % int64_t(ms) < 0 ? q - 1 : q;
}

// is b.ticks - a.ticks a time between lo and hi nanoseconds?
bool within(uint32_t d, int64_t lo, int64_t hi)
{
	int64_t l = floor_ms(lo), h = floor_ms(hi) + 1;
	return uint64_t(uint32_t(d - uint32_t(l))) <= uint64_t(h - l);
}

// a before b
void compare(const reading& a, const reading& b)
{
	sim::quiet q;
	uint32_t d = b.ticks - a.ticks;
	int64_t lo = b.t0 > a.t1 ? int64_t(b.t0 - a.t1) : 0, hi = int64_t(b.t1 - a.t0);
	if (a.t0 > b.t0)
		return; // overlapping readings of different threads, in the other order
	if (within(d, lo, hi))
		return; // the clock the counter reads does not follow steps of the system clock, or there were none
	int64_t s[2] = {b.s0 - a.s1, b.s1 - a.s0};
	int64_t smin = s[0] < s[1] ? s[0] : s[1], smax = s[0] < s[1] ? s[1] : s[0];
	if (within(d, lo + smin, hi + smax))
		return;
	sim::fail(
		"wrong-difference",
		"two readings %u and %u differ by %u (mod 2^32) after %lld to %lld ns",
		a.ticks,
		b.ticks,
		d,
		(long long)lo,
		(long long)hi
	);
}

void pass_time()
{
	switch (sim::choose(7)) {
		case 0:
			break;
		case 1:
			sim::clock_advance(sim::choose(2000000)); // below and around a millisecond
			break;
		case 2:
			sim::clock_advance(uint64_t(sim::choose(100000)) * ms);
			break;
		case 3:
			sim::clock_advance((uint64_t(1) << sim::choose(52)) + sim::choose(1000));
			break;
		case 4:
			{
				// to just before, or at, the next wrap-around of a 32 bit counter
				sim::clock_advance(wrap_ns - sim::choose(5) * ms / 2);
				sim::probe("most-of-a-wrap-around");
			}
			break;
		case 5:
			sim::clock_advance(sim::choose64() % (wrap_ns * 3));
			break;
		default:
			sim::clock_advance(ms * sim::choose(3));
			break;
	}
}

std::vector<reading>* all;
} // namespace

static void scenario()
{
	stepped = 0;
	// where the clocks stand at first
	uint64_t wall = 0;
	switch (sim::choose(6)) {
		case 0:
			wall = 1700000000ull * 1000000000ull + sim::choose64() % (wrap_ns * 4);
			break;
		case 1:
			// just before a wrap-around
			wall = wrap_ns * (1 + sim::choose(1500)) - sim::choose(20) * ms / 4 - sim::choose(3);
			sim::probe("starts-before-wrap-around");
			break;
		case 2:
			wall = wrap_ns / 2 * (1 + sim::choose(2000)) - sim::choose(20) * ms / 4 - sim::choose(3);
			sim::probe("starts-before-sign-change");
			break;
		case 3:
			wall = sim::choose(2000000); // at the epoch
			break;
		case 4:
			wall = sim::choose64() >> (2 + sim::choose(40));
			break;
		default:
			wall = sim::choose64() % (uint64_t(7) << 60);
			break;
	}
	uint64_t mono = sim::coin() ? sim::choose64() % (uint64_t(1) << 60) : wrap_ns * (1 + sim::choose(8)) - sim::choose(10) * ms;
	if (wall > (uint64_t(7) << 60))
		wall = uint64_t(7) << 60;
	sim::clock_set(wall, mono);
	if (sim::chance(1, 4))
		sim::clock_read_cost(sim::log_uniform(21));
	bool steps = sim::chance(1, 3);
	std::vector<reading> rs;
	all = &rs;
	uint64_t budget = (uint64_t(1) << 62); // of simulated time
	if (sim::chance(1, 2000)) {
		// more readings than fit a small count
		const uint32_t n = crowd_size();
		if (n > 65536)
			sim::probe("more-than-65536-readings");
		static const uint64_t paces[] = {0, ms / 3, ms, 7 * ms, 777777777};
		const uint64_t pace = sim::pick(paces);
		const reading first = read();
		reading last = first;
		for (uint32_t i = 0; i < n; ++i) {
			sim::clock_advance(pace);
			reading r = read();
			compare(first, r);
			compare(last, r);
			last = r;
		}
	}
	uint32_t rounds = sim::range(1, sim::thorough() ? 30 : 14);
	for (uint32_t i = 0; i < rounds && sim::clock_now_ns() + wall < budget + (uint64_t(7) << 60); ++i) {
		pass_time();
		if (sim::clock_now_ns() + wall > (uint64_t(7) << 60) + (uint64_t(1) << 58))
			break;
		if (steps && sim::chance(1, 3)) {
			int64_t j = int64_t(sim::choose64() % (uint64_t(1) << (10 + sim::choose(40))));
			if (sim::coin() && int64_t(wall) + stepped + int64_t(sim::clock_now_ns()) > j)
				j = -j;
			sim::clock_jump_wall(j);
			stepped += j;
		}
		if (sim::chance(1, 3)) {
			uint32_t nt = sim::range(1, 3);
			std::vector<reading> per[3];
			for (uint32_t t = 0; t < nt; ++t) {
				auto* mine = &per[t];
				uint32_t n = sim::range(1, 3);
				sim::spawn([mine, n] {
					for (uint32_t k = 0; k < n; ++k) {
						reading r = read();
						{
							sim::quiet q;
							mine->push_back(r);
						}
						if (sim::coin())
							sim::clock_advance(sim::choose(3000000));
						else
							sim::yield();
					}
				});
			}
			sim::join_all();
			for (uint32_t t = 0; t < nt; ++t)
				for (size_t k = 0; k < per[t].size(); ++k) {
					if (k)
						compare(per[t][k - 1], per[t][k]);
					if (!rs.empty())
						compare(rs.back(), per[t][k]);
					for (uint32_t u = 0; u < t; ++u)
						for (auto& o : per[u]) {
							if (o.t1 <= per[t][k].t0)
								compare(o, per[t][k]);
							else if (per[t][k].t1 <= o.t0)
								compare(per[t][k], o);
						}
				}
			sim::quiet q;
			for (auto& p : per)
				p = {};
		}
		reading r = read();
		sim::quiet q;
		if (!rs.empty()) {
			compare(rs.back(), r);
			compare(rs.front(), r);
			compare(rs[sim::choose(uint32_t(rs.size()))], r);
		}
		rs.push_back(r);
	}
	sim::quiet q;
	rs = {};
	all = nullptr;
}

void scenario_run()
{
	ambient(scenario);
}
