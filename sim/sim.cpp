// Deterministic simulator core and command line driver. Compiled WITHOUT instrumentation.
// Uses no standard library templates, so that no vague-linkage code is shared with instrumented objects.
#define __NO_INLINE__ 1 // the C library functions defined here are not to be inlined
#include "sim.hpp"

#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <typeinfo>
#include <link.h>
extern "C" [[noreturn]] void __real__exit(int) noexcept;
extern "C" [[noreturn]] void __real_exit(int) noexcept;
#define _exit __real__exit
#define exit __real_exit

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

#define EXPORT extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------------------------------------
// shared between the driver and the forked children
// ------------------------------------------------------------------------------------------------
EXPORT void* __real_malloc(size_t);
EXPORT void* __real_calloc(size_t, size_t);
EXPORT void* __real_realloc(void*, size_t);
EXPORT void __real_free(void*);
EXPORT char* __real_strdup(const char*);
namespace {
constexpr uint32_t max_choices = 1u << 20;
constexpr int max_names = 96;
constexpr int max_results = 4096;
constexpr uint32_t max_edges = 1u << 18;

struct name_counter {
	char name[48];
	uint64_t n;
};

struct run_result {
	uint64_t run;
	uint64_t hash; // everything: choices, events, switches
	uint64_t il_hash; // sequence of context switches
	uint64_t steps;
	uint64_t edges;
	uint32_t switches;
	uint32_t faults;
	uint64_t sim_ns;
	uint32_t nw, ns;
	uint64_t b;
};

struct shared_mem {
	int viol;
	char cls[96];
	char detail[2048];
	uint64_t cur_run;
	uint32_t running; // a run is in progress
	uint32_t nresults;
	run_result results[max_results];
	run_result cur;
	uint32_t nw, ns;
	uint64_t b;
	uint32_t w[max_choices];
	uint32_t s[max_choices];
	name_counter faults[max_names];
	name_counter probes[max_names];
	uint64_t total_allocs;
	uint8_t edge_hit[max_edges];
};
shared_mem* shm;

// ------------------------------------------------------------------------------------------------
// per-run state
// ------------------------------------------------------------------------------------------------
constexpr int max_threads = 8;

struct vclock {
	uint32_t c[max_threads];
};

enum tstate {
	t_unused,
	t_runnable,
	t_blocked,
	t_done
};

struct thr {
	int id;
	int state;
	volatile int go; // futex word
	pthread_t pt;
	bool external; // created by the code under test
	void* wait_on;
	uint64_t wake_ns; // time at which a timed wait ends (0: none)
	bool timed_out;
	uint64_t stall_to; // step until which it is stalled
	uint64_t own; // steps and branches it has executed, up to when it last stopped running
	bool (*pred)(void*);
	void* pred_arg;
	int quiet;
	int in_rt;
	vclock vc, acq_pending, rel_fence;
	bool has_rel_fence;
	void (*fn)(void*);
	void* arg;
	void* (*xfn)(void*);
	void* xret;
	uintptr_t stack_top;
	// allocation scope
	uint32_t a_active, a_count, a_fail_at, a_persist, a_fired;
	sigjmp_buf* abort_jmp;
};

__thread thr* cur __attribute__((tls_model("initial-exec")));

thr threads[max_threads];
int nthreads;
bool active; // a run is in progress

uint64_t g_steps, g_edges, g_step_cap, g_edge_cap;
thr* g_runner; // the thread whose turn it is,
uint64_t g_runner_from; // and what g_steps + g_edges was when its turn began
uint64_t g_seq;
int64_t slice_left;
uint32_t slice_atomics, slice_points;
uint32_t g_switches, g_nfaults;
uint64_t g_hash, g_il;
uint64_t points_since_switch;
bool g_verbose, g_thorough;
bool g_ignore_leaks;

constexpr uint32_t fair_atomics = 300;
constexpr uint32_t fair_points = 20000;

// choices
bool replaying;
uint64_t rng_w, rng_s;
uint32_t rep_nw, rep_ns, pos_w, pos_s;
uint64_t rep_b; // store buffer decisions
const uint32_t* rep_w;
const uint32_t* rep_s;
uint32_t strat_mean; // mean slice length of this run
uint32_t strat_budget; // number of random slices before fair mode

// clock
uint64_t now_ns, wall_base, mono_base, n_clock_reads, read_cost;
int64_t wall_jump;

// tty
bool tty_is[3];
int tty_errno_v;
uint32_t tty_q[3];

uint32_t vs_fail_at, vs_count, dm_fail_at, dm_count;
int vs_kind, dm_status;

uint8_t fill_byte = 0xa5;
uint64_t live_tracked;

uint64_t splitmix(uint64_t& s)
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline void mix(uint64_t& h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 32;
}

void raw_out(const char* s, size_t n)
{
	while (n) {
		ssize_t k = syscall(SYS_write, 2, s, n);
		if (k <= 0)
			return;
		s += k;
		n -= size_t(k);
	}
}

uint32_t draw_w()
{
	if (replaying) {
		uint32_t v = pos_w < rep_nw ? rep_w[pos_w] : 0;
		++pos_w;
		return v;
	}
	return uint32_t(splitmix(rng_w) >> 32);
}

// returns a recorded schedule value; `fresh` computes it in random mode
bool sched_random()
{
	if (replaying)
		return pos_s < rep_ns;
	return shm->ns + 2 <= strat_budget && shm->ns + 2 < max_choices;
}

void rec_s(uint32_t v)
{
	if (!replaying)
		shm->s[shm->ns++] = v;
}

[[noreturn]] void end_with_violation()
{
	shm->cur.hash = g_hash;
	shm->cur.il_hash = g_il;
	shm->cur.steps = g_steps;
	shm->cur.switches = g_switches;
	shm->cur.faults = g_nfaults;
	_exit(3);
}

void vfail(const char* cls, const char* fmt, va_list ap)
{
	if (cur)
		++cur->in_rt;
	shm->viol = 1;
	snprintf(shm->cls, sizeof shm->cls, "%s", cls);
	vsnprintf(shm->detail, sizeof shm->detail, fmt, ap);
	if (g_verbose) {
		raw_out("FAIL ", 5);
		raw_out(shm->cls, strlen(shm->cls));
		raw_out(": ", 2);
		raw_out(shm->detail, strlen(shm->detail));
		raw_out("\n", 1);
	}
	end_with_violation();
}

void count(name_counter* t, const char* name)
{
	for (int i = 0; i < max_names; ++i) {
		if (!t[i].name[0]) {
			snprintf(t[i].name, sizeof t[i].name, "%s", name);
			t[i].n = 1;
			return;
		}
		if (!strncmp(t[i].name, name, sizeof(t[i].name) - 1)) {
			++t[i].n;
			return;
		}
	}
}

struct rt_guard {
	thr* t;
	rt_guard() : t(cur)
	{
		if (t)
			++t->in_rt;
	}
	~rt_guard()
	{
		if (t)
			--t->in_rt;
	}
};

// ------------------------------------------------------------------------------------------------
// scheduling
// ------------------------------------------------------------------------------------------------
long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
void park(thr* t)
{
	for (int i = 0; i < 200; ++i) {
		if (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) {
			__atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
			return;
		}
		__builtin_ia32_pause();
	}
	while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
		raw_syscall(SYS_futex, long(&t->go), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void unpark(thr* t)
{
	if (g_runner)
		g_runner->own += g_steps + g_edges - g_runner_from;
	g_runner = t;
	g_runner_from = g_steps + g_edges;
	__atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
	raw_syscall(SYS_futex, long(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

bool can_run(thr* t)
{
	if (t->state == t_runnable)
		return t->stall_to <= g_steps;
	if (t->state == t_blocked) {
		if (t->pred && t->pred(t->pred_arg)) {
			return true;
		}
		if (t->wake_ns && t->wake_ns <= now_ns) {
			return true;
		}
	}
	return false;
}

// The caller spins while the others only sleep: time has to pass.
bool only_sleepers()
{
	for (int i = 0; i < nthreads; ++i)
		if (&threads[i] != cur && threads[i].state == t_blocked && threads[i].wake_ns)
			return true;
	return false;
}

// Picks who runs next (may be the caller) and sets its slice.
thr* pick_next(thr* from, bool must_leave)
{
	for (;;) {
		thr* cand[max_threads];
		int n = 0;
		// candidates in round-robin order after `from`; `from` itself comes last
		for (int k = 1; k <= nthreads; ++k) {
			thr* t = &threads[(from->id + k) % nthreads];
			if (t == from && must_leave && t->state == t_runnable)
				continue;
			if (can_run(t))
				cand[n++] = t;
		}
		if (n) {
			uint32_t ti = 0, len = 0;
			bool rnd = sched_random();
			if (rnd) {
				if (replaying) {
					ti = rep_s[pos_s++];
					len = pos_s < rep_ns ? rep_s[pos_s] : 0;
					++pos_s;
				} else {
					ti = uint32_t(splitmix(rng_s) >> 33) % uint32_t(n);
					// log-uniform length around the mean of this run
					uint32_t bits = strat_mean ? uint32_t(splitmix(rng_s) >> 40) % (strat_mean + 1) : 0;
					len = 1 + (uint32_t(splitmix(rng_s) >> 32) & ((1u << bits) - 1));
					rec_s(ti);
					rec_s(len);
				}
				ti %= uint32_t(n);
			}
			slice_left = len ? int64_t(len) : INT64_MAX;
			slice_atomics = 0;
			slice_points = 0;
			thr* t = cand[ti];
			if (t->state == t_blocked) {
				if (t->wake_ns && t->wake_ns <= now_ns && !(t->pred && t->pred(t->pred_arg)))
					t->timed_out = true;
				t->state = t_runnable;
				t->wait_on = nullptr;
				t->pred = nullptr;
				t->wake_ns = 0;
			}
			return t;
		}
		if (must_leave && from->state == t_runnable && from->stall_to <= g_steps && !only_sleepers()) {
			must_leave = false; // nobody else can run: carry on
			continue;
		}
		// nobody can run: finish stalls, then let time pass
		thr* st = nullptr;
		for (int i = 0; i < nthreads; ++i) {
			thr* t = &threads[i];
			if (t == from && must_leave && t->state == t_runnable && t->stall_to <= g_steps)
				continue;
			if (t->state == t_runnable && t->stall_to > g_steps && (!st || t->stall_to < st->stall_to))
				st = t;
		}
		if (st) {
			g_runner_from += st->stall_to - g_steps; // nobody's
			g_steps = st->stall_to;
			continue;
		}
		uint64_t best = 0;
		for (int i = 0; i < nthreads; ++i)
			if (threads[i].state == t_blocked && threads[i].wake_ns && (!best || threads[i].wake_ns < best))
				best = threads[i].wake_ns;
		if (best) {
			now_ns = best;
			continue;
		}
		if (must_leave && from->state == t_runnable) {
			must_leave = false;
			continue;
		}
		char buf[400];
		int o = 0;
		for (int i = 0; i < nthreads; ++i)
			o += snprintf(buf + o, sizeof buf - size_t(o), " t%d:%s", i, threads[i].state == t_done ? "done" : "blocked");
		sim::fail("deadlock", "no thread can run:%s", buf);
	}
}

void switch_to(thr* next)
{
	thr* me = cur;
	if (next == me)
		return;
	++g_switches;
	mix(g_il, (uint64_t(me->id) << 56) ^ (uint64_t(next->id) << 48) ^ points_since_switch);
	points_since_switch = 0;
	bool done = me->state == t_done;
	unpark(next);
	if (!done)
		park(me);
}

void reschedule(bool must_leave)
{
	thr* me = cur;
	thr* n = pick_next(me, must_leave);
	switch_to(n);
}

#ifdef SIM_TSAN
// Store buffers: in half of the runs atomic stores weaker than sequentially consistent reach memory later than they
// are executed (in order per thread), as on real processors. Read-modify-write operations, sequentially consistent
// ones, and everything that synchronises otherwise empty the buffer of their thread first.
struct pending_store {
	uintptr_t a;
	uint32_t n;
	unsigned char v[16];
	vclock vc;
	uint64_t due;
};
constexpr int max_pending = 6;
struct store_buffer {
	pending_store e[max_pending];
	int n;
};
store_buffer sbuf[max_threads];
int pending_total;
bool sbuf_on;
uint64_t sbuf_seed;
void sbuf_drain(int t, bool all);
inline void sbuf_flush()
{
	if (unlikely(pending_total != 0) && cur)
		sbuf_drain(cur->id, true);
}
#else
inline void sbuf_flush() {}
#endif

inline void point(bool atomic)
{
	++g_steps;
	++points_since_switch;
#ifdef SIM_TSAN
	if (unlikely(pending_total != 0))
		for (int i = 0; i < nthreads; ++i)
			if (sbuf[i].n)
				sbuf_drain(i, false);
#endif
	if (unlikely(g_steps > g_step_cap)) {
		rt_guard g;
		sim::fail("no-progress", "step budget of %llu exhausted", (unsigned long long)g_step_cap);
	}
	if (nthreads == 1)
		return;
	++slice_points;
	bool forced = false;
	if (atomic && ++slice_atomics > fair_atomics)
		forced = true;
	if (slice_points > fair_points)
		forced = true;
	if (likely(--slice_left > 0 && !forced))
		return;
	rt_guard g;
	reschedule(forced);
}

void block_current(void* on, uint64_t wake, bool (*pred)(void*) = nullptr, void* parg = nullptr)
{
	sbuf_flush();
	thr* me = cur;
	me->state = t_blocked;
	me->wait_on = on;
	me->wake_ns = wake;
	me->timed_out = false;
	me->pred = pred;
	me->pred_arg = parg;
	reschedule(false);
}
int wake_all(void* on, int max = INT_MAX)
{
	int n = 0;
	for (int i = 0; i < nthreads && n < max; ++i) {
		thr* t = &threads[i];
		if (t->state == t_blocked && t->wait_on == on) {
			t->state = t_runnable;
			t->wait_on = nullptr;
			t->wake_ns = 0;
			++n;
		}
	}
	return n;
}

// ------------------------------------------------------------------------------------------------
// happens-before race detector
// ------------------------------------------------------------------------------------------------
struct bytecell {
	uint32_t wclk;
	int32_t wtid; // -1 none
	uint32_t rclk[max_threads];
	uint32_t aclk[max_threads]; // atomic writes
	uint32_t arclk[max_threads]; // atomic reads
	void* wpc;
};
struct cell {
	uintptr_t key; // address >> 3
	uint32_t gen;
	bytecell b[8];
};
#ifdef SIM_TSAN
constexpr uint32_t cell_bits = 16;
constexpr uint32_t ncells = 1u << cell_bits;
cell* cells;
uint32_t cells_used;
uint32_t cell_gen;
uintptr_t exempt_lo[16], exempt_hi[16];
int nexempt;

void add_exempt(const void* p, size_t n)
{
	if (nexempt < 16) {
		exempt_lo[nexempt] = uintptr_t(p);
		exempt_hi[nexempt] = uintptr_t(p) + n;
		++nexempt;
	}
}
int exempt_cb(struct dl_phdr_info* info, size_t, void*)
{
	if (!info->dlpi_name || !info->dlpi_name[0])
		return 0; // the executable itself
	for (int i = 0; i < info->dlpi_phnum; ++i) {
		auto& p = info->dlpi_phdr[i];
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
			add_exempt((void*)(info->dlpi_addr + p.p_vaddr), p.p_memsz);
	}
	return 0;
}
inline bool is_exempt(uintptr_t a)
{
	for (int i = 0; i < nexempt; ++i)
		if (a >= exempt_lo[i] && a < exempt_hi[i])
			return true;
	return false;
}
cell* find_cell(uintptr_t a, bool create)
{
	uintptr_t key = a >> 3;
	uint32_t h = uint32_t((key * 0x9e3779b97f4a7c15ull) >> (64 - cell_bits));
	for (uint32_t k = 0; k < ncells; ++k) {
		cell* c = &cells[(h + k) & (ncells - 1)];
		if (c->gen != cell_gen) {
			if (!create || cells_used > ncells * 3 / 4)
				return nullptr;
			++cells_used;
			memset(c, 0, sizeof *c);
			for (auto& b : c->b)
				b.wtid = -1;
			c->gen = cell_gen;
			c->key = key;
			return c;
		}
		if (c->key == key)
			return c;
	}
	return nullptr;
}
void clear_range(uintptr_t a, size_t n)
{
	if (!active || nthreads == 1)
		return;
	if (pending_total)
		for (int i = 0; i < nthreads; ++i)
			for (int k = 0; k < sbuf[i].n; ++k)
				if (sbuf[i].e[k].a < a + n && a < sbuf[i].e[k].a + sbuf[i].e[k].n)
					sbuf_drain(i, true);
	for (uintptr_t p = a; p < a + n;) {
		cell* c = find_cell(p, false);
		uintptr_t end = (p | 7) + 1;
		if (end > a + n)
			end = a + n;
		if (c)
			for (uintptr_t q = p; q < end; ++q) {
				memset(&c->b[q & 7], 0, sizeof(bytecell));
				c->b[q & 7].wtid = -1;
			}
		p = end;
	}
}

[[noreturn]] void race(uintptr_t a, const char* k1, int t1, void* pc1, const char* k2, int t2, void* pc2)
{
	rt_guard g;
	Dl_info i1{}, i2{};
	if (pc1)
		dladdr(pc1, &i1);
	dladdr(pc2, &i2);
	(void)a;
	sim::fail(
		"data-race",
		"%s by thread %d (pc 0x%llx) and %s by thread %d (pc 0x%llx) are not ordered",
		k1,
		t1,
		pc1 ? (unsigned long long)(uintptr_t(pc1) - uintptr_t(i1.dli_fbase)) : 0ull,
		k2,
		t2,
		(unsigned long long)(uintptr_t(pc2) - uintptr_t(i2.dli_fbase))
	);
}

// arena -------------------------------------------------------------------------------------------
constexpr size_t arena_size = size_t(1) << 30;
uint8_t* const arena = reinterpret_cast<uint8_t*>(0x100000000000ull);
uint8_t* const amap = reinterpret_cast<uint8_t*>(0x180000000000ull); // 0 red zone, 1 live, 2 freed
size_t arena_top;
inline bool in_arena(uintptr_t a)
{
	return a - uintptr_t(arena) < arena_size;
}
void check_live(uintptr_t a, size_t n, const char* what, void* pc)
{
	for (size_t i = 0; i < n; ++i) {
		uint8_t s = in_arena(a + i) ? amap[a + i - uintptr_t(arena)] : 1;
		if (s != 1) {
			rt_guard g;
			Dl_info di{};
			dladdr(pc, &di);
			sim::fail(
				s == 2 ? "use-after-free" : "heap-out-of-bounds",
				"%s of %zu bytes of %s memory by thread %d (pc 0x%llx)",
				what,
				n,
				s == 2 ? "freed" : "unowned",
				cur ? cur->id : -1,
				(unsigned long long)(uintptr_t(pc) - uintptr_t(di.dli_fbase))
			);
		}
	}
}

enum acc {
	a_read,
	a_write,
	a_aread,
	a_awrite
};
void access(uintptr_t a, size_t n, acc k, void* pc)
{
	thr* t = cur;
	if (in_arena(a))
		check_live(a, n, (k == a_read || k == a_aread) ? "read" : "write", pc);
	if (nthreads == 1)
		return;
	if (is_exempt(a))
		return;
	if (unlikely(pending_total != 0) && sbuf[t->id].n && (k == a_read || k == a_write)) {
		store_buffer& b = sbuf[t->id];
		for (int i = 0; i < b.n; ++i)
			if (b.e[i].a < a + n && a < b.e[i].a + b.e[i].n)
				sbuf_drain(t->id, true);
	}
	int me = t->id;
	const uint32_t* vc = t->vc.c;
	for (uintptr_t p = a; p < a + n;) {
		cell* c = find_cell(p, true);
		uintptr_t end = (p | 7) + 1;
		if (end > a + n)
			end = a + n;
		if (!c)
			return;
		for (uintptr_t q = p; q < end; ++q) {
			bytecell& b = c->b[q & 7];
			if (b.wtid >= 0 && b.wtid != me && b.wclk > vc[b.wtid])
				race(q, "write", b.wtid, b.wpc, k == a_read || k == a_aread ? "read" : "write", me, pc);
			if (k == a_read) {
				for (int j = 0; j < nthreads; ++j)
					if (j != me && b.aclk[j] > vc[j])
						race(q, "atomic write", j, nullptr, "read", me, pc);
				b.rclk[me] = vc[me];
			} else if (k == a_write) {
				for (int j = 0; j < nthreads; ++j) {
					if (j == me)
						continue;
					if (b.rclk[j] > vc[j])
						race(q, "read", j, nullptr, "write", me, pc);
					if (b.aclk[j] > vc[j] || b.arclk[j] > vc[j])
						race(q, "atomic access", j, nullptr, "write", me, pc);
				}
				b.wtid = me;
				b.wclk = vc[me];
				b.wpc = pc;
			} else if (k == a_aread) {
				b.arclk[me] = vc[me];
			} else {
				for (int j = 0; j < nthreads; ++j)
					if (j != me && b.rclk[j] > vc[j])
						race(q, "read", j, nullptr, "atomic write", me, pc);
				b.aclk[me] = vc[me];
			}
		}
		p = end;
	}
}
#endif

// sync variables: clocks released at an address
struct syncvar {
	uintptr_t key;
	uint32_t gen;
	vclock vc;
};
constexpr uint32_t nsync = 1u << 13;
syncvar* syncs;
uint32_t sync_gen;
uint32_t sync_used;
syncvar* sync_at(uintptr_t a)
{
	uint32_t h = uint32_t((a * 0x9e3779b97f4a7c15ull) >> (64 - 13));
	for (uint32_t k = 0; k < nsync; ++k) {
		syncvar* s = &syncs[(h + k) & (nsync - 1)];
		if (s->gen != sync_gen) {
			if (++sync_used > nsync * 7 / 8)
				sim::fail("simulator-limit", "too many synchronisation variables");
			memset(s, 0, sizeof *s);
			s->gen = sync_gen;
			s->key = a;
			return s;
		}
		if (s->key == a)
			return s;
	}
	return nullptr;
}
void join_vc(vclock& a, const vclock& b)
{
	for (int i = 0; i < max_threads; ++i)
		if (b.c[i] > a.c[i])
			a.c[i] = b.c[i];
}
#ifdef SIM_TSAN
void sbuf_drain(int t, bool all)
{
	store_buffer& b = sbuf[t];
	int k = 0;
	while (k < b.n && (all || b.e[k].due <= g_steps)) {
		pending_store& e = b.e[k++];
		sync_at(e.a)->vc = e.vc;
		memcpy(reinterpret_cast<void*>(e.a), e.v, e.n);
	}
	if (!k)
		return;
	for (int i = k; i < b.n; ++i)
		b.e[i - k] = b.e[i];
	b.n -= k;
	pending_total -= k;
}
extern "C" char __data_start, _end;
// true if the store was put into the thread's buffer
bool sbuf_put(uintptr_t a, const void* v, uint32_t n, const vclock& vc)
{
	store_buffer& b = sbuf[cur->id];
	uint64_t h = sbuf_seed + g_steps;
	h = splitmix(h);
	static const uint32_t delays[] = {0, 0, 2, 8, 30, 200, 1500, 1500};
	uint32_t d = delays[h % 8];
	if (d)
		d = 1 + uint32_t(h >> 32) % d;
	if (!d && !b.n)
		return false;
	auto sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
	bool own_stack = a >= sp && a < cur->stack_top;
	bool known = in_arena(a) || (a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end));
	for (int i = 0; i < nthreads && !known; ++i)
		known = a < threads[i].stack_top && threads[i].stack_top - a < 400000;
	if (own_stack || !known || b.n == max_pending) {
		sbuf_drain(cur->id, true);
		return false;
	}
	pending_store& e = b.e[b.n];
	e.a = a;
	e.n = n;
	memcpy(e.v, v, n);
	e.vc = vc;
	e.due = g_steps + d;
	if (b.n && e.due < b.e[b.n - 1].due)
		e.due = b.e[b.n - 1].due;
	++b.n;
	++pending_total;
	rt_guard g;
	count(shm->probes, "atomic-store-delayed");
	return true;
}
// what the thread itself sees of its buffered stores; false: memory has it
bool sbuf_get(uintptr_t a, void* v, uint32_t n)
{
	store_buffer& b = sbuf[cur->id];
	for (int i = b.n; i-- > 0;) {
		pending_store& e = b.e[i];
		if (e.a == a && e.n == n) {
			memcpy(v, e.v, n);
			return true;
		}
		if (e.a < a + n && a < e.a + e.n) {
			sbuf_drain(cur->id, true);
			return false;
		}
	}
	return false;
}
#endif
void hb_acquire(uintptr_t a)
{
	sbuf_flush();
	join_vc(cur->vc, sync_at(a)->vc);
}
void hb_release(uintptr_t a)
{
	sbuf_flush();
	join_vc(sync_at(a)->vc, cur->vc);
	++cur->vc.c[cur->id];
}

bool usable() // hooks do something
{
	return cur && active && !cur->quiet && !cur->in_rt;
}

// ------------------------------------------------------------------------------------------------
// allocations
// ------------------------------------------------------------------------------------------------
struct blk {
	uintptr_t p;
	size_t size;
	uint8_t kind; // 1 new, 2 new[], 3 malloc of the code under test
	uint8_t tracked;
};
constexpr uint32_t nblk = 1u << 19;
blk* blks;
uint64_t live_bytes;
volatile int blk_lock;
void lock_blk()
{
	while (__atomic_exchange_n(&blk_lock, 1, __ATOMIC_ACQUIRE))
		;
}
void unlock_blk()
{
	__atomic_store_n(&blk_lock, 0, __ATOMIC_RELEASE);
}
void init_tables()
{
	if (blks)
		return;
	auto m = [](size_t n) {
		void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			_exit(99);
		return p;
	};
	blks = static_cast<blk*>(m(sizeof(blk) * nblk));
	syncs = static_cast<syncvar*>(m(sizeof(syncvar) * nsync));
#ifdef SIM_TSAN
	cells = static_cast<cell*>(m(sizeof(cell) * ncells));
	if (mmap(arena, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != arena)
		_exit(98);
	if (mmap(amap, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != amap)
		_exit(98);
	arena_top = 64;
#endif
}
uint32_t blk_hash(uintptr_t p)
{
	return uint32_t((p * 0x9e3779b97f4a7c15ull) >> (64 - 19));
}
void blk_add(uintptr_t p, size_t size, uint8_t kind, uint8_t tracked)
{
	lock_blk();
	uint32_t h = blk_hash(p);
	for (uint32_t k = 0;; ++k) {
		blk* b = &blks[(h + k) & (nblk - 1)];
		if (b->p == 0 || b->p == 1) {
			b->p = p;
			b->size = size;
			b->kind = kind;
			b->tracked = tracked;
			break;
		}
		if (k > nblk - 2)
			_exit(97);
	}
	unlock_blk();
}
bool blk_take(uintptr_t p, blk& out, bool remove = true)
{
	lock_blk();
	uint32_t h = blk_hash(p);
	bool r = false;
	for (uint32_t k = 0; k < nblk; ++k) {
		blk* b = &blks[(h + k) & (nblk - 1)];
		if (b->p == 0)
			break;
		if (b->p == p) {
			out = *b;
			if (remove) {
				// tombstone, or empty if the next slot is empty
				b->p = blks[(h + k + 1) & (nblk - 1)].p == 0 ? 0 : 1;
			}
			r = true;
			break;
		}
	}
	unlock_blk();
	return r;
}

// an allocation by the code under test: decides whether it fails
bool alloc_fails()
{
	thr* t = cur;
	if (!t || !active || t->quiet || t->in_rt)
		return false;
	++shm->total_allocs;
	if (!t->a_active)
		return false;
	++t->a_count;
	if (t->a_fail_at && (t->a_count == t->a_fail_at || (t->a_persist && t->a_count > t->a_fail_at))) {
		++t->a_fired;
		rt_guard g;
		sim::fault(t->a_persist && t->a_count > t->a_fail_at ? "alloc-fail-repeat" : "alloc-fail");
		return true;
	}
	return false;
}

void* do_alloc(size_t n, size_t align, uint8_t kind)
{
	init_tables();
	thr* t = cur;
	bool in_run = t && active;
	bool tracked = in_run && !t->quiet;
	size_t real = n ? n : 1;
	if (real > (size_t(1) << 29))
		return nullptr; // simulated memory limit of 512 MB per block
	if (in_run && live_bytes + real > (size_t(1) << 30))
		return nullptr; // ... and 1 GB in all
	void* p = nullptr;
#ifdef SIM_TSAN
	if (in_run) {
		if (align < 16)
			align = 16;
		size_t at = (arena_top + align - 1) & ~(align - 1);
		if (at + real + 32 > arena_size)
			sim::fail("simulator-limit", "arena exhausted");
		arena_top = at + real + 16;
		p = arena + at;
		memset(amap + at, 1, n);
	} else
#endif
		p = align > 16 ? aligned_alloc(align, (real + align - 1) & ~(align - 1)) : __real_malloc(real);
	if (!p)
		return nullptr;
	if (in_run) {
		memset(p, fill_byte, n < 65536 ? n : 65536);
	}
	blk_add(uintptr_t(p), n, kind, tracked);
	live_bytes += n;
	if (tracked)
		++live_tracked;
	return p;
}

void do_free(void* p, uint8_t kind)
{
	if (!p)
		return;
	init_tables();
	blk b{};
	bool in_run = cur && active;
	if (!blk_take(uintptr_t(p), b)) {
		if (in_run) {
			rt_guard g;
			sim::fail("bad-free", "delete of memory that is not a live block (double delete or foreign pointer) by thread %d", cur->id);
		}
		_exit(96);
	}
	if (b.kind != kind && in_run) {
		rt_guard g;
		sim::fail("bad-free", "mismatched form of delete");
	}
	if (b.tracked)
		--live_tracked;
	live_bytes -= b.size;
#ifdef SIM_TSAN
	if (in_arena(uintptr_t(p))) {
		if (usable())
			access(uintptr_t(p), b.size, a_write, __builtin_return_address(0));
		size_t at = uintptr_t(p) - uintptr_t(arena);
		memset(amap + at, 2, b.size);
		if (in_run)
			memset(p, 0xdd, b.size < 65536 ? b.size : 65536);
		if (b.size)
			clear_range(uintptr_t(p), b.size);
		return;
	}
	if (b.size)
		clear_range(uintptr_t(p), b.size);
#endif
	__real_free(p);
}

[[noreturn]] void throw_bad_alloc()
{
	throw std::bad_alloc();
}

void* new_or_throw(size_t n, size_t align, uint8_t kind)
{
	if (alloc_fails())
		throw_bad_alloc();
	void* p = do_alloc(n, align, kind);
	if (!p)
		throw_bad_alloc();
	return p;
}
void* new_or_null(size_t n, size_t align, uint8_t kind)
{
	if (alloc_fails())
		return nullptr;
	return do_alloc(n, align, kind);
}
} // namespace

void* operator new(size_t n)
{
	return new_or_throw(n, 0, 1);
}
void* operator new[](size_t n)
{
	return new_or_throw(n, 0, 2);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	return new_or_null(n, 0, 1);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
	return new_or_null(n, 0, 2);
}
void* operator new(size_t n, std::align_val_t a)
{
	return new_or_throw(n, size_t(a), 1);
}
void* operator new[](size_t n, std::align_val_t a)
{
	return new_or_throw(n, size_t(a), 2);
}
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
	return new_or_null(n, size_t(a), 1);
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
	return new_or_null(n, size_t(a), 2);
}
void operator delete(void* p) noexcept
{
	do_free(p, 1);
}
void operator delete[](void* p) noexcept
{
	do_free(p, 2);
}
void operator delete(void* p, size_t) noexcept
{
	do_free(p, 1);
}
void operator delete[](void* p, size_t) noexcept
{
	do_free(p, 2);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
	do_free(p, 1);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
	do_free(p, 2);
}
void operator delete(void* p, std::align_val_t) noexcept
{
	do_free(p, 1);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
	do_free(p, 2);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
	do_free(p, 1);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept
{
	do_free(p, 2);
}

// malloc family as called by the code under test (linker --wrap: references from our objects only)
EXPORT void* __wrap_malloc(size_t n)
{
	if (!usable())
		return __real_malloc(n);
	if (alloc_fails())
		return nullptr;
	void* p = __real_malloc(n);
	if (p) {
		memset(p, fill_byte, n);
		blk_add(uintptr_t(p), n, 3, 1);
		++live_tracked;
	}
	return p;
}
EXPORT void* __wrap_calloc(size_t a, size_t b)
{
	void* p = __wrap_malloc(a * b);
	if (p)
		memset(p, 0, a * b);
	return p;
}
EXPORT void __wrap_free(void* p)
{
	blk b{};
	if (p && blks && blk_take(uintptr_t(p), b, false) && b.kind == 3) {
		blk_take(uintptr_t(p), b);
		--live_tracked;
	}
	__real_free(p);
}
EXPORT void* __wrap_realloc(void* p, size_t n)
{
	if (!usable())
		return __real_realloc(p, n);
	blk b{};
	bool known = p && blk_take(uintptr_t(p), b, false) && b.kind == 3;
	if (!known)
		return p ? __real_realloc(p, n) : __wrap_malloc(n);
	if (alloc_fails())
		return nullptr;
	blk_take(uintptr_t(p), b);
	void* q = __real_realloc(p, n);
	blk_add(uintptr_t(q), n, 3, 1);
	return q;
}
EXPORT char* __wrap_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = static_cast<char*>(__wrap_malloc(n));
	if (p)
		memcpy(p, s, n);
	return p;
}
EXPORT char* __real___cxa_demangle(const char* name, char* buf, size_t* len, int* status);
EXPORT char* __wrap___cxa_demangle(const char* name, char* buf, size_t* len, int* status)
{
	if (!usable())
		return __real___cxa_demangle(name, buf, len, status);
	rt_guard g;
	++dm_count;
	if (dm_fail_at && dm_count == dm_fail_at) {
		sim::fault("demangle-fail");
		if (status)
			*status = dm_status;
#ifdef SIM_TSAN
		if (status)
			access(uintptr_t(status), sizeof *status, a_write, __builtin_return_address(0));
#endif
		return nullptr;
	}
	char* r = __real___cxa_demangle(name, buf, len, status);
#ifdef SIM_TSAN
	if (status)
		access(uintptr_t(status), sizeof *status, a_write, __builtin_return_address(0));
#endif
	if (r && !buf) {
		blk_add(uintptr_t(r), strlen(r) + 1, 3, 1);
		++live_tracked;
	}
	return r;
}

// formatting ------------------------------------------------------------------------------------
EXPORT int __real_vsnprintf(char*, size_t, const char*, va_list);
EXPORT int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list ap)
{
	if (!usable())
		return __real_vsnprintf(b, n, f, ap);
	rt_guard g;
	++vs_count;
	if (vs_fail_at && vs_count == vs_fail_at) {
		sim::fault("vsnprintf-fail");
		if (vs_kind == 1 && n)
			memset(b, 'Z', n); // garbage left behind by the failing call
		errno = vs_kind == 0 ? EOVERFLOW : ENOMEM;
		return -1;
	}
	int r = __real_vsnprintf(b, n, f, ap);
#ifdef SIM_TSAN
	if (r >= 0 && n) {
		--cur->in_rt;
		access(uintptr_t(b), size_t(r) + 1 < n ? size_t(r) + 1 : n, a_write, __builtin_return_address(0));
		++cur->in_rt;
	}
#endif
	return r;
}
EXPORT int __wrap_snprintf(char* b, size_t n, const char* f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = __wrap_vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}

// abort -----------------------------------------------------------------------------------------
EXPORT [[noreturn]] void __real_abort();
namespace {
[[noreturn]] void process_ends(const char* how)
{
	if (cur && cur->abort_jmp) {
		sigjmp_buf* j = cur->abort_jmp;
		cur->abort_jmp = nullptr;
		siglongjmp(*j, 1);
	}
	if (shm && cur && active) {
		const char* extra = "";
		char buf[300] = "";
		if (auto p = std::current_exception()) {
			try {
				std::rethrow_exception(p);
			} catch (std::exception& e) {
				snprintf(buf, sizeof buf, " (current exception: %s: %s)", typeid(e).name(), e.what());
				extra = buf;
			} catch (...) {
				extra = " (current exception of another type)";
			}
		}
		++cur->in_rt;
		sim::fail(how, "the program ended by %s in thread %d%s", how, cur->id, extra);
	}
	signal(SIGABRT, SIG_DFL);
	__real_abort();
}
void on_terminate()
{
	process_ends("terminate");
}
void on_sigabrt(int)
{
	process_ends("abort");
}
void on_crash(int sig)
{
	if (shm && cur && active) {
		++cur->in_rt;
		sim::fail("crash", "signal %d in thread %d", sig, cur->id);
	}
	_exit(95);
}

// A loop without any branch the simulator counts (the compiler left nothing of it) is seen by the processor time it takes.
constexpr int idle_ticks_allowed = 4; // of 4 seconds of processor time each
void on_tick(int)
{
	static uint64_t last[4];
	static int idle;
	uint64_t now[4] = {shm->cur_run, g_steps, g_edges, g_seq};
	if (!active || memcmp(last, now, sizeof now)) {
		memcpy(last, now, sizeof now);
		idle = 0;
		return;
	}
	if (++idle < idle_ticks_allowed || shm->viol)
		return;
	shm->viol = 1;
	snprintf(shm->cls, sizeof shm->cls, "no-progress");
	snprintf(shm->detail, sizeof shm->detail, "the program does not get to its next branch, memory access or event");
	end_with_violation();
}
} // namespace
// leaving by exit() and the like is not aborting
EXPORT [[noreturn]] void __wrap_exit(int status)
{
	if (usable()) {
		++cur->in_rt;
		sim::fail("exit", "the program ended by exit(%d) in thread %d", status, cur->id);
	}
	__real_exit(status);
}
EXPORT [[noreturn]] void __wrap__exit(int status)
{
	if (usable()) {
		++cur->in_rt;
		sim::fail("exit", "the program ended by _exit(%d) in thread %d", status, cur->id);
	}
	__real__exit(status);
}
EXPORT [[noreturn]] void __wrap__Exit(int status)
{
	__wrap__exit(status);
}
EXPORT [[noreturn]] void __wrap_quick_exit(int status)
{
	__wrap__exit(status);
}
EXPORT [[noreturn]] void __wrap_abort()
{
	process_ends("abort");
}

// actions the program registers for its exit: destructors of static objects
namespace {
constexpr size_t max_exit_actions = 512;
sim::exit_action exit_acts[max_exit_actions];
size_t num_exit_acts = 0;
} // namespace
EXPORT int __real___cxa_atexit(void (*fn)(void*), void* arg, void* dso);
EXPORT int __wrap___cxa_atexit(void (*fn)(void*), void* arg, void* dso)
{
	if (num_exit_acts < max_exit_actions)
		exit_acts[num_exit_acts++] = {fn, arg};
	return __real___cxa_atexit(fn, arg, dso);
}
size_t sim::exit_actions(const exit_action** a)
{
	*a = exit_acts;
	return num_exit_acts;
}

// ------------------------------------------------------------------------------------------------
// environment seams (symbols defined here preempt those of the C library, for libstdc++ too)
// ------------------------------------------------------------------------------------------------
namespace {
uint64_t read_clock(bool wall)
{
	++n_clock_reads;
	now_ns += read_cost;
	return wall ? uint64_t(int64_t(wall_base + now_ns) + wall_jump) : mono_base + now_ns;
}
bool is_wall(clockid_t c)
{
	return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
}
} // namespace
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
	if (!cur || !active)
		return int(raw_syscall(SYS_clock_gettime, c, long(ts), 0, 0, 0, 0));
	uint64_t t = read_clock(is_wall(c));
	ts->tv_sec = time_t(t / 1000000000u);
	ts->tv_nsec = long(t % 1000000000u);
	return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept
{
	if (!cur || !active) {
		struct timespec ts;
		raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, long(&ts), 0, 0, 0, 0);
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
		return 0;
	}
	uint64_t t = read_clock(true);
	tv->tv_sec = time_t(t / 1000000000u);
	tv->tv_usec = long(t % 1000000000u) / 1000;
	return 0;
}
EXPORT time_t time(time_t* out) noexcept
{
	struct timeval tv;
	gettimeofday(&tv, nullptr);
	if (out)
		*out = tv.tv_sec;
	return tv.tv_sec;
}
EXPORT int timespec_get(struct timespec* ts, int base) noexcept
{
	clock_gettime(CLOCK_REALTIME, ts);
	return base;
}
namespace {
void sim_sleep(uint64_t ns)
{
	rt_guard g;
	if (nthreads == 1) {
		now_ns += ns;
		return;
	}
	block_current(nullptr, now_ns + (ns ? ns : 1));
}
} // namespace
EXPORT int nanosleep(const struct timespec* a, struct timespec*)
{
	if (!usable())
		return 0;
	sim_sleep(uint64_t(a->tv_sec) * 1000000000u + uint64_t(a->tv_nsec));
	return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec*)
{
	if (!usable())
		return 0;
	uint64_t t = uint64_t(a->tv_sec) * 1000000000u + uint64_t(a->tv_nsec);
	if (flags & TIMER_ABSTIME) {
		uint64_t n = is_wall(c) ? uint64_t(int64_t(wall_base + now_ns) + wall_jump) : mono_base + now_ns;
		t = t > n ? t - n : 0;
	}
	sim_sleep(t);
	return 0;
}
EXPORT int usleep(useconds_t us)
{
	if (usable())
		sim_sleep(uint64_t(us) * 1000);
	return 0;
}
EXPORT int sched_yield() noexcept
{
	if (usable() && nthreads > 1) {
		rt_guard g;
		++g_steps;
		++points_since_switch;
		reschedule(true);
	}
	return 0;
}

EXPORT int isatty(int fd) noexcept
{
	if (!cur || !active)
		return 0;
	if (fd < 0 || fd > 2) {
		errno = EBADF;
		return 0;
	}
	++tty_q[fd];
	if (tty_is[fd])
		return 1;
	errno = tty_errno_v ? tty_errno_v : ENOTTY;
	return 0;
}
EXPORT int tcgetattr(int fd, struct termios* t) noexcept
{
	if (!isatty(fd))
		return -1;
	memset(t, 0, sizeof *t);
	return 0;
}
EXPORT int ioctl(int fd, unsigned long, ...) noexcept
{
	return isatty(fd) ? 0 : -1;
}

// ---- C streams and descriptors 1 and 2, while captured --------------------------------------------
namespace {
constexpr size_t cap_size = 1 << 20;
struct out_dev {
	char* durable; // cap_size bytes
	size_t n_durable;
	char* pending;
	size_t n_pending;
};
out_dev out_devs[3];
bool out_on;
uint32_t out_ops, out_fail_n;
sim::out_fault out_kind;
bool out_persist;

bool captured(int fd)
{
	return out_on && cur && active && !cur->in_rt && (fd == 1 || fd == 2);
}
void out_point()
{
	if (!cur->quiet && nthreads > 1)
		sim::yield();
}
bool out_fails(bool flush)
{
	++out_ops;
	if (!out_fail_n || !(out_ops == out_fail_n || (out_persist && out_ops > out_fail_n)))
		return false;
	if (flush != (out_kind == sim::out_flush_error))
		return false;
	return true;
}
void out_append(char*& buf, size_t& n, const char* p, size_t k)
{
	if (!buf)
		buf = static_cast<char*>(mmap(nullptr, cap_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	if (n + k > cap_size)
		k = cap_size - n;
	memcpy(buf + n, p, k);
	n += k;
}
bool out_flush(int fd)
{
	out_point();
	rt_guard g;
	out_dev& d = out_devs[fd];
	if (out_fails(true)) {
		sim::fault("stdout-flush-fail");
		errno = EIO;
		return false;
	}
	if (d.n_pending) {
		out_append(d.durable, d.n_durable, d.pending, d.n_pending);
		d.n_pending = 0;
	}
	return true;
}
size_t out_write(int fd, const char* p, size_t n, bool buffered)
{
	out_point();
	rt_guard g;
	out_dev& d = out_devs[fd];
	if (n && out_fails(false)) {
		if (out_kind == sim::out_short)
			n = n / 2;
		else
			n = 0;
		sim::fault(out_kind == sim::out_short ? "output-short-write" : "output-write-error");
		errno = out_kind == sim::out_short ? ENOSPC : EIO;
	}
	if (buffered)
		out_append(d.pending, d.n_pending, p, n);
	else
		out_append(d.durable, d.n_durable, p, n);
	return n;
}
int fd_of(FILE* f)
{
	return f == stdout ? 1 : f == stderr ? 2 : -1;
}
size_t stream_write(FILE* f, const char* p, size_t n)
{
	int fd = fd_of(f);
	return out_write(fd, p, n, fd == 1);
}
template <class f>
f* next_sym(const char* name)
{
	return reinterpret_cast<f*>(dlsym(RTLD_NEXT, name));
}
} // namespace
EXPORT size_t fwrite(const void* p, size_t size, size_t n, FILE* f)
{
	if (captured(fd_of(f))) {
		size_t k = stream_write(f, static_cast<const char*>(p), size * n);
		return size ? k / size : 0;
	}
	static auto* real = next_sym<size_t(const void*, size_t, size_t, FILE*)>("fwrite");
	return real(p, size, n, f);
}
EXPORT int fflush(FILE* f)
{
	if (f ? captured(fd_of(f)) : captured(1)) {
		return out_flush(f ? fd_of(f) : 1) ? 0 : EOF;
	}
	static auto* real = next_sym<int(FILE*)>("fflush");
	return real(f);
}
EXPORT int fputc(int c, FILE* f)
{
	if (captured(fd_of(f))) {
		char ch = char(c);
		return stream_write(f, &ch, 1) == 1 ? int(uint8_t(c)) : EOF;
	}
	static auto* real = next_sym<int(int, FILE*)>("fputc");
	return real(c, f);
}
#undef putc
EXPORT int putc(int c, FILE* f)
{
	return fputc(c, f);
}
#undef putchar
EXPORT int putchar(int c)
{
	return fputc(c, stdout);
}
EXPORT int fputs(const char* t, FILE* f)
{
	size_t n = strlen(t);
	if (captured(fd_of(f)))
		return stream_write(f, t, n) == n ? 0 : EOF;
	static auto* real = next_sym<int(const char*, FILE*)>("fputs");
	return real(t, f);
}
EXPORT int puts(const char* t)
{
	int r = fputs(t, stdout);
	return r < 0 ? r : fputc('\n', stdout);
}
EXPORT int vfprintf(FILE* f, const char* fmt, va_list ap)
{
	if (captured(fd_of(f))) {
		va_list ap2;
		va_copy(ap2, ap);
		int n = __real_vsnprintf(nullptr, 0, fmt, ap2);
		va_end(ap2);
		if (n < 0)
			return n;
		char* buf = static_cast<char*>(__real_malloc(size_t(n) + 1));
		__real_vsnprintf(buf, size_t(n) + 1, fmt, ap);
		size_t k = stream_write(f, buf, size_t(n));
		__real_free(buf);
		return k == size_t(n) ? n : -1;
	}
	static auto* real = next_sym<int(FILE*, const char*, va_list)>("vfprintf");
	return real(f, fmt, ap);
}
EXPORT int fprintf(FILE* f, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = vfprintf(f, fmt, ap);
	va_end(ap);
	return n;
}
EXPORT int printf(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = vfprintf(stdout, fmt, ap);
	va_end(ap);
	return n;
}
EXPORT int vprintf(const char* fmt, va_list ap)
{
	return vfprintf(stdout, fmt, ap);
}
EXPORT ssize_t write(int fd, const void* p, size_t n)
{
	if (captured(fd)) {
		size_t k = out_write(fd, static_cast<const char*>(p), n, false);
		return k || !n ? ssize_t(k) : -1;
	}
	return syscall(SYS_write, fd, p, n);
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int n)
{
	if (captured(fd)) {
		ssize_t t = 0;
		for (int i = 0; i < n; ++i) {
			size_t k = out_write(fd, static_cast<const char*>(v[i].iov_base), v[i].iov_len, false);
			t += ssize_t(k);
			if (k < v[i].iov_len)
				return t ? t : -1;
		}
		return t;
	}
	return syscall(SYS_writev, fd, v, n);
}
namespace sim {
void out_capture(bool on)
{
	out_on = on;
	if (on) {
		for (auto& d : out_devs)
			d.n_durable = d.n_pending = 0;
		out_ops = 0;
		out_fail_n = 0;
	}
}
const char* out_durable(int fd, size_t* n)
{
	*n = out_devs[fd].n_durable;
	return *n ? out_devs[fd].durable : "";
}
size_t out_pending(int fd)
{
	return out_devs[fd].n_pending;
}
void out_fail_at(uint32_t n, out_fault kind, bool persistent)
{
	out_fail_n = n ? out_ops + n : 0;
	out_kind = kind;
	out_persist = persistent;
}
uint32_t out_operations()
{
	return out_ops;
}
} // namespace sim

// ---- pthread seams (scheduled flavour only) -----------------------------------------------------
#ifdef SIM_TSAN
EXPORT void* __libc_malloc(size_t);
EXPORT void* __libc_calloc(size_t, size_t);
EXPORT void* __libc_realloc(void*, size_t);
EXPORT void* __libc_memalign(size_t, size_t);
EXPORT void __libc_free(void*);
EXPORT void* malloc(size_t n)
{
	void* p = __libc_malloc(n);
	if (p && cur && active)
		clear_range(uintptr_t(p), n);
	return p;
}
EXPORT void* calloc(size_t a, size_t b)
{
	void* p = __libc_calloc(a, b);
	if (p && cur && active)
		clear_range(uintptr_t(p), a * b);
	return p;
}
EXPORT void* realloc(void* q, size_t n)
{
	void* p = __libc_realloc(q, n);
	if (p && cur && active)
		clear_range(uintptr_t(p), n);
	return p;
}
EXPORT void free(void* p)
{
	__libc_free(p);
}
EXPORT void* aligned_alloc(size_t a, size_t n)
{
	return __libc_memalign(a, n);
}

namespace {
struct smutex {
	void* key;
	int owner; // -1 free, -2 free; readers counted below
	int depth;
	int readers;
	int once; // pthread_once state
};
constexpr int nmutex = 512;
smutex mutexes[nmutex];
int mutexes_used;
smutex* mutex_at(void* k)
{
	for (int i = 0; i < mutexes_used; ++i)
		if (mutexes[i].key == k)
			return &mutexes[i];
	if (mutexes_used == nmutex)
		sim::fail("simulator-limit", "too many mutexes");
	mutexes[mutexes_used] = smutex{k, -1, 0, 0, 0};
	return &mutexes[mutexes_used++];
}
void forget_mutex(void* k)
{
	for (int i = 0; i < mutexes_used; ++i)
		if (mutexes[i].key == k)
			mutexes[i] = mutexes[--mutexes_used];
}
bool mtx_lock(void* k, bool recursive, bool excl, bool try_only)
{
	point(true);
	rt_guard g;
	for (;;) {
		smutex* m = mutex_at(k);
		if (recursive && m->owner == cur->id) {
			++m->depth;
			return true;
		}
		if (m->owner == -1 && (!excl || m->readers == 0)) {
			if (excl) {
				m->owner = cur->id;
				m->depth = 1;
			} else
				++m->readers;
			hb_acquire(uintptr_t(k));
			return true;
		}
		if (try_only)
			return false;
		block_current(k, 0);
	}
}
void mtx_unlock(void* k)
{
	{
		rt_guard g;
		smutex* m = mutex_at(k);
		if (m->owner == cur->id) {
			if (--m->depth > 0)
				return;
			m->owner = -1;
		} else if (m->readers > 0)
			--m->readers;
		else
			m->owner = -1;
		hb_release(uintptr_t(k));
		wake_all(k);
	}
	point(true);
}
bool is_recursive(pthread_mutex_t* m)
{
	return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}
} // namespace
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	if (!usable())
		return 0;
	mtx_lock(m, is_recursive(m), true, false);
	return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	if (!usable())
		return 0;
	return mtx_lock(m, is_recursive(m), true, true) ? 0 : EBUSY;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (!usable())
		return 0;
	mtx_unlock(m);
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	if (cur && active)
		forget_mutex(m);
	return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
	if (usable())
		mtx_lock(m, false, false, false);
	return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
	if (usable())
		mtx_lock(m, false, true, false);
	return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
{
	if (usable())
		return mtx_lock(m, false, false, true) ? 0 : EBUSY;
	return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
{
	if (usable())
		return mtx_lock(m, false, true, true) ? 0 : EBUSY;
	return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
	if (usable())
		mtx_unlock(m);
	return 0;
}
EXPORT int pthread_spin_lock(pthread_spinlock_t* m) noexcept
{
	if (usable())
		mtx_lock((void*)m, false, true, false);
	return 0;
}
EXPORT int pthread_spin_trylock(pthread_spinlock_t* m) noexcept
{
	if (usable())
		return mtx_lock((void*)m, false, true, true) ? 0 : EBUSY;
	return 0;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t* m) noexcept
{
	if (usable())
		mtx_unlock((void*)m);
	return 0;
}
namespace {
int cv_wait(void* cv, pthread_mutex_t* m, uint64_t wake)
{
	mtx_unlock(m);
	uint64_t h = sbuf_seed + g_steps;
	bool spurious = sbuf_on && splitmix(h) % 8 == 0;
	if (spurious) {
		sim::fault("spurious-wakeup");
		point(true);
	} else {
		rt_guard g;
		block_current(cv, wake);
	}
	bool to = !spurious && cur->timed_out;
	mtx_lock(m, is_recursive(m), true, false);
	return to ? ETIMEDOUT : 0;
}
uint64_t abs_to_now(clockid_t c, const struct timespec* a)
{
	uint64_t t = uint64_t(a->tv_sec) * 1000000000u + uint64_t(a->tv_nsec);
	uint64_t n = is_wall(c) ? uint64_t(int64_t(wall_base + now_ns) + wall_jump) : mono_base + now_ns;
	uint64_t d = t > n ? t - n : 1;
	return now_ns + d;
}
} // namespace
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!usable())
		return 0;
	return cv_wait(c, m, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a)
{
	if (!usable())
		return 0;
	return cv_wait(c, m, abs_to_now(CLOCK_REALTIME, a));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* a)
{
	if (!usable())
		return 0;
	return cv_wait(c, m, abs_to_now(k, a));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	if (usable()) {
		{
			rt_guard g;
			wake_all(c, 1);
		}
		point(true);
	}
	return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	if (usable()) {
		{
			rt_guard g;
			wake_all(c);
		}
		point(true);
	}
	return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)())
{
	if (!usable()) {
		if (*o == 0) {
			*o = 2;
			f();
		}
		return 0;
	}
	point(true);
	for (;;) {
		if (*o == 2) {
			hb_acquire(uintptr_t(o));
			return 0;
		}
		if (*o == 0) {
			*o = 1;
			try {
				f();
			} catch (...) {
				*o = 0;
				rt_guard g;
				wake_all(o);
				throw;
			}
			*o = 2;
			hb_release(uintptr_t(o));
			{
				rt_guard g;
				wake_all(o);
			}
			point(true);
			return 0;
		}
		rt_guard g;
		block_current(o, 0);
	}
}
// function-local statics
EXPORT int __cxa_guard_acquire(uint64_t* gd)
{
	volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(gd);
	if (!usable()) {
		if (b[0])
			return 0;
		b[1] = 1;
		return 1;
	}
	point(true);
	for (;;) {
		if (b[0]) {
			hb_acquire(uintptr_t(gd));
			return 0;
		}
		if (!b[1]) {
			b[1] = 1;
			return 1;
		}
		rt_guard g;
		block_current(gd, 0);
	}
}
EXPORT void __cxa_guard_release(uint64_t* gd)
{
	volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(gd);
	b[0] = 1;
	b[1] = 0;
	if (!usable())
		return;
	hb_release(uintptr_t(gd));
	{
		rt_guard g;
		wake_all(gd);
	}
	point(true);
}
EXPORT void __cxa_guard_abort(uint64_t* gd)
{
	volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(gd);
	b[1] = 0;
	if (!usable())
		return;
	rt_guard g;
	wake_all(gd);
}
// futex (std::atomic::wait, semaphores, latches)
EXPORT long syscall(long n, ...) noexcept
{
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (long& x : a)
		x = va_arg(ap, long);
	va_end(ap);
	if (n == SYS_futex && usable()) {
		sbuf_flush();
		int op = int(a[1]) & FUTEX_CMD_MASK;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			rt_guard g;
			if (*reinterpret_cast<volatile int*>(a[0]) != int(a[2])) {
				errno = EAGAIN;
				return -1;
			}
			uint64_t h = sbuf_seed + g_steps;
			if (sbuf_on && splitmix(h) % 8 == 0) { // a spurious wake-up
				sim::fault("spurious-wakeup");
				point(true);
				return 0;
			}
			uint64_t wake = 0;
			auto* ts = reinterpret_cast<struct timespec*>(a[3]);
			if (ts) {
				uint64_t t = uint64_t(ts->tv_sec) * 1000000000u + uint64_t(ts->tv_nsec);
				wake = op == FUTEX_WAIT ? now_ns + t + 1
										: abs_to_now((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
			}
			block_current(reinterpret_cast<void*>(a[0]), wake);
			if (cur->timed_out) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			long r;
			{
				rt_guard g;
				r = wake_all(reinterpret_cast<void*>(a[0]), int(a[2]));
			}
			point(true);
			return r;
		}
	}
	if (n == SYS_sched_yield && usable()) {
		sched_yield();
		return 0;
	}
	if (n == SYS_clock_gettime)
		return clock_gettime(clockid_t(a[0]), reinterpret_cast<struct timespec*>(a[1]));
	long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096) {
		errno = int(-r);
		return -1;
	}
	return r;
}
#endif // SIM_TSAN

// ------------------------------------------------------------------------------------------------
// threads
// ------------------------------------------------------------------------------------------------
namespace {
pthread_key_t exit_key;
using pc_fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
using pj_fn = int (*)(pthread_t, void**);
pc_fn real_pthread_create;
pj_fn real_pthread_join;

void thread_finished(void* p) // key destructor: after all thread_local destructors of the thread
{
	thr* t = static_cast<thr*>(p);
	static thread_local int again = 0;
	(void)again;
	++t->in_rt;
	sbuf_flush();
	++t->vc.c[t->id];
	t->state = t_done;
	wake_all(t);
	thr* n = pick_next(t, false);
	++g_switches;
	mix(g_il, (uint64_t(t->id) << 56) ^ (uint64_t(n->id) << 48) ^ points_since_switch);
	points_since_switch = 0;
	cur = nullptr;
	unpark(n);
}
void* thread_main(void* p)
{
	thr* t = static_cast<thr*>(p);
	cur = t;
	t->stack_top = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
	++t->in_rt;
	pthread_setspecific(exit_key, t);
	park(t);
	--t->in_rt;
	if (t->external)
		t->xret = t->xfn(t->arg);
	else {
		try {
			t->fn(t->arg);
		} catch (std::exception& e) {
			++t->in_rt;
			sim::fail("uncaught-exception", "thread %d: %s: %s", t->id, typeid(e).name(), e.what());
		} catch (...) {
			++t->in_rt;
			sim::fail("uncaught-exception", "thread %d: exception of another type", t->id);
		}
	}
	return t->xret;
}
thr* new_thread()
{
	if (nthreads == max_threads)
		sim::fail("simulator-limit", "too many threads");
	sbuf_flush();
	thr* t = &threads[nthreads];
	memset(static_cast<void*>(t), 0, sizeof *t);
	t->id = nthreads;
	t->state = t_runnable;
	t->vc = cur->vc;
	t->vc.c[t->id] = 1;
	++cur->vc.c[cur->id];
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 512 * 1024);
	++nthreads;
	if (real_pthread_create(&t->pt, &a, thread_main, t) != 0)
		_exit(94);
	pthread_attr_destroy(&a);
	return t;
}
} // namespace
#ifdef SIM_TSAN
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
{
	if (!usable()) {
		if (!real_pthread_create)
			real_pthread_create = reinterpret_cast<pc_fn>(dlsym(RTLD_NEXT, "pthread_create"));
		return real_pthread_create(out, attr, fn, arg);
	}
	{
		rt_guard g;
		thr* t = &threads[nthreads];
		thr* n = nullptr;
		(void)t;
		// fields are set before the thread can run, as it waits for its turn
		n = new_thread();
		n->external = true;
		n->xfn = fn;
		n->arg = arg;
		*out = n->pt;
	}
	point(true);
	return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
	if (!usable())
		return real_pthread_join ? real_pthread_join(p, ret) : 0;
	for (int i = 0; i < nthreads; ++i)
		if (pthread_equal(threads[i].pt, p) && threads[i].external) {
			rt_guard g;
			while (threads[i].state != t_done)
				block_current(&threads[i], 0);
			join_vc(cur->vc, threads[i].vc);
			if (ret)
				*ret = threads[i].xret;
			return 0;
		}
	return ESRCH;
}
EXPORT int pthread_detach(pthread_t) noexcept
{
	return 0;
}
#endif

// ------------------------------------------------------------------------------------------------
// instrumentation hooks
// ------------------------------------------------------------------------------------------------
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
	static uint32_t n = 0;
	if (start == stop || *start)
		return;
	for (uint32_t* p = start; p < stop; ++p)
		*p = ++n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
	if (!cur || !active)
		return;
	if (*guard < max_edges)
		shm->edge_hit[*guard] = 1;
	if (cur->in_rt || cur->quiet)
		return;
	if (unlikely(++g_edges > g_edge_cap)) {
		++cur->in_rt;
		sim::fail("no-progress", "budget of %llu executed branches exhausted", (unsigned long long)g_edge_cap);
	}
}

#ifdef SIM_TSAN
#define PC __builtin_return_address(0)
#define PLAIN(name, size, kind) \
	EXPORT void name(void* a) \
	{ \
		if (!usable()) \
			return; \
		point(false); \
		access(uintptr_t(a), size, kind, PC); \
	}
#define PLAIN4(pfx, size) \
	PLAIN(__tsan_##pfx##read##size, size, a_read) \
	PLAIN(__tsan_##pfx##write##size, size, a_write) \
	PLAIN(__tsan_##pfx##read_write##size, size, a_write)
PLAIN4(, 1)
PLAIN4(, 2)
PLAIN4(, 4)
PLAIN4(, 8)
PLAIN4(, 16)
PLAIN4(unaligned_, 2)
PLAIN4(unaligned_, 4)
PLAIN4(unaligned_, 8)
PLAIN4(unaligned_, 16)
PLAIN4(volatile_, 1)
PLAIN4(volatile_, 2)
PLAIN4(volatile_, 4)
PLAIN4(volatile_, 8)
PLAIN4(volatile_, 16)
PLAIN4(unaligned_volatile_, 2)
PLAIN4(unaligned_volatile_, 4)
PLAIN4(unaligned_volatile_, 8)
PLAIN4(unaligned_volatile_, 16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void __tsan_vptr_read(void** p)
{
	if (!usable())
		return;
	point(false);
	access(uintptr_t(p), 8, a_read, PC);
}
EXPORT void __tsan_vptr_update(void** p, void* v)
{
	if (!usable())
		return;
	point(false);
	bool same = in_arena(uintptr_t(p)) && amap[uintptr_t(p) - uintptr_t(arena)] != 1 ? false : *p == v;
	if (!same)
		access(uintptr_t(p), 8, a_write, PC);
}
EXPORT void __tsan_read_range(void* p, size_t n)
{
	if (!usable() || !n)
		return;
	point(false);
	access(uintptr_t(p), n, a_read, PC);
}
EXPORT void __tsan_write_range(void* p, size_t n)
{
	if (!usable() || !n)
		return;
	point(false);
	access(uintptr_t(p), n, a_write, PC);
}
// library functions that read the caller's memory (linked with --wrap in this flavour)
EXPORT int __real_memcmp(const void*, const void*, size_t);
EXPORT int __real_bcmp(const void*, const void*, size_t);
EXPORT void* __real_memchr(const void*, int, size_t);
EXPORT size_t __real_strlen(const char*);
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n)
{
	if (usable() && n) {
		point(false);
		access(uintptr_t(a), n, a_read, PC);
		access(uintptr_t(b), n, a_read, PC);
	}
	return __real_memcmp(a, b, n);
}
EXPORT int __wrap_bcmp(const void* a, const void* b, size_t n)
{
	if (usable() && n) {
		point(false);
		access(uintptr_t(a), n, a_read, PC);
		access(uintptr_t(b), n, a_read, PC);
	}
	return __real_bcmp(a, b, n);
}
EXPORT void* __wrap_memchr(const void* a, int c, size_t n)
{
	void* r = __real_memchr(a, c, n);
	if (usable() && n) {
		point(false);
		access(uintptr_t(a), r ? size_t(static_cast<char*>(r) - static_cast<const char*>(a)) + 1 : n, a_read, PC);
		r = __real_memchr(a, c, n);
	}
	return r;
}
EXPORT size_t __wrap_strlen(const char* a)
{
	if (usable()) {
		point(false);
		access(uintptr_t(a), __real_strlen(a) + 1, a_read, PC);
	}
	return __real_strlen(a);
}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	if (usable() && n) {
		point(false);
		access(uintptr_t(s), n, a_read, PC);
		access(uintptr_t(d), n, a_write, PC);
	}
	return memcpy(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n)
{
	if (usable() && n) {
		point(false);
		access(uintptr_t(s), n, a_read, PC);
		access(uintptr_t(d), n, a_write, PC);
	}
	return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n)
{
	if (usable() && n) {
		point(false);
		access(uintptr_t(d), n, a_write, PC);
	}
	return memset(d, c, n);
}

namespace {
// memory orders as passed by the compiler: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
bool is_acq(int mo)
{
	return mo == 1 || mo == 2 || mo == 4 || mo == 5;
}
bool is_rel(int mo)
{
	return mo == 3 || mo == 4 || mo == 5;
}
void a_load(uintptr_t a, size_t n, int mo, void* pc)
{
	access(a, n, a_aread, pc);
	if (nthreads == 1)
		return;
	vclock& s = sync_at(a)->vc;
	if (is_acq(mo))
		join_vc(cur->vc, s);
	else
		join_vc(cur->acq_pending, s);
}
// true if the value is to be stored now
bool a_store(uintptr_t a, size_t n, int mo, const void* v, void* pc)
{
	access(a, n, a_awrite, pc);
	if (nthreads == 1)
		return true;
	vclock vc;
	if (is_rel(mo)) {
		vc = cur->vc;
		++cur->vc.c[cur->id];
	} else if (cur->has_rel_fence)
		vc = cur->rel_fence;
	else
		memset(&vc, 0, sizeof vc);
	if (mo == 5)
		sbuf_flush();
	else if (sbuf_on && sbuf_put(a, v, uint32_t(n), vc))
		return false;
	sync_at(a)->vc = vc;
	return true;
}
void a_rmw(uintptr_t a, size_t n, int mo, void* pc)
{
	sbuf_flush();
	access(a, n, a_awrite, pc);
	if (nthreads == 1)
		return;
	syncvar* s = sync_at(a);
	if (is_acq(mo))
		join_vc(cur->vc, s->vc);
	else
		join_vc(cur->acq_pending, s->vc);
	if (is_rel(mo)) {
		join_vc(s->vc, cur->vc);
		++cur->vc.c[cur->id];
	} else if (cur->has_rel_fence)
		join_vc(s->vc, cur->rel_fence);
}
} // namespace
#define ATOMICS(bits, type) \
	EXPORT type __tsan_atomic##bits##_load(const volatile type* a, int mo) \
	{ \
		if (usable()) { \
			point(true); \
			if (mo == 5) \
				sbuf_flush(); \
			type own; \
			bool buffered = pending_total && sbuf_get(uintptr_t(a), &own, sizeof own); \
			if (buffered) { \
				access(uintptr_t(a), sizeof(type), a_aread, PC); \
				return own; \
			} \
			a_load(uintptr_t(a), sizeof(type), mo, PC); \
		} \
		return *a; \
	} \
	EXPORT void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) \
	{ \
		if (usable()) { \
			point(true); \
			if (!a_store(uintptr_t(a), sizeof(type), mo, &v, PC)) \
				return; \
		} \
		*a = v; \
	} \
	EXPORT type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) \
	{ \
		if (usable()) { \
			point(true); \
			a_rmw(uintptr_t(a), sizeof(type), mo, PC); \
		} \
		type o = *a; \
		*a = v; \
		return o; \
	} \
	RMW(bits, type, fetch_add, o + v) \
	RMW(bits, type, fetch_sub, o - v) \
	RMW(bits, type, fetch_and, o & v) \
	RMW(bits, type, fetch_or, o | v) \
	RMW(bits, type, fetch_xor, o ^ v) \
	RMW(bits, type, fetch_nand, ~(o & v)) \
	EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int fmo) \
	{ \
		bool us = usable(); \
		if (us) { \
			point(true); \
			sbuf_flush(); \
		} \
		type o = *a; \
		if (o == *e) { \
			if (us) \
				a_rmw(uintptr_t(a), sizeof(type), mo, PC); \
			*a = v; \
			return 1; \
		} \
		if (us) \
			a_load(uintptr_t(a), sizeof(type), fmo, PC); \
		*e = o; \
		return 0; \
	} \
	EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int fmo) \
	{ \
		return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); \
	} \
	EXPORT type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int mo, int fmo) \
	{ \
		__tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); \
		return e; \
	}
#define RMW(bits, type, op, expr) \
	EXPORT type __tsan_atomic##bits##_##op(volatile type* a, type v, int mo) \
	{ \
		if (usable()) { \
			point(true); \
			a_rmw(uintptr_t(a), sizeof(type), mo, PC); \
		} \
		type o = *a; \
		*a = type(expr); \
		return o; \
	}
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, __uint128_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
	if (!usable())
		return;
	point(true);
	if (mo == 5)
		sbuf_flush();
	if (is_acq(mo))
		join_vc(cur->vc, cur->acq_pending);
	if (is_rel(mo)) {
		cur->rel_fence = cur->vc;
		cur->has_rel_fence = true;
		++cur->vc.c[cur->id];
	}
}
EXPORT void __tsan_atomic_signal_fence(int) {}
#endif // SIM_TSAN

// ------------------------------------------------------------------------------------------------
// interface
// ------------------------------------------------------------------------------------------------
namespace sim {
uint32_t choose(uint32_t n)
{
	rt_guard g;
	if (n == 1)
		return 0;
	uint32_t v = draw_w();
	if (!replaying) {
		uint32_t r = n ? uint32_t((uint64_t(v) * n) >> 32) : v;
		if (shm->nw < max_choices)
			shm->w[shm->nw++] = r;
		mix(g_hash, r);
		return r;
	}
	if (n)
		v %= n;
	mix(g_hash, v);
	return v;
}
uint32_t log_uniform(uint32_t max_bits)
{
	uint32_t b = choose(max_bits + 1);
	if (b == 0)
		return 0;
	return (1u << (b - 1)) + choose(1u << (b - 1));
}
void ev(const char* tag, uint64_t a, uint64_t b, uint64_t c)
{
	rt_guard g;
	for (const char* p = tag; *p; ++p)
		mix(g_hash, uint8_t(*p));
	mix(g_hash, a);
	mix(g_hash, b);
	mix(g_hash, c);
	++g_seq;
	if (g_verbose) {
		char buf[300];
		int n = snprintf(
			buf,
			sizeof buf,
			"[%6llu] t%d %s %lld %lld %lld\n",
			(unsigned long long)g_steps,
			cur ? cur->id : -1,
			tag,
			(long long)a,
			(long long)b,
			(long long)c
		);
		raw_out(buf, size_t(n));
	}
}
void ev_bytes(const char* tag, const void* p, size_t n)
{
	rt_guard g;
	uint64_t h = n;
	for (size_t i = 0; i < n; ++i)
		mix(h, static_cast<const uint8_t*>(p)[i]);
	ev(tag, h, n);
	if (g_verbose && n) {
		char buf[700];
		size_t o = 0;
		for (size_t i = 0; i < n && o < sizeof buf - 8; ++i) {
			uint8_t c = static_cast<const uint8_t*>(p)[i];
			o += size_t(snprintf(buf + o, 8, c >= 32 && c < 127 && c != '\\' ? "%c" : "\\x%02x", c));
		}
		buf[o++] = '\n';
		raw_out("         ", 9);
		raw_out(buf, o);
	}
}
bool verbose()
{
	return g_verbose;
}
bool thorough()
{
	return g_thorough;
}
void note(const char* fmt, ...)
{
	if (!g_verbose)
		return;
	rt_guard g;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
	va_end(ap);
	if (n > int(sizeof buf) - 2)
		n = int(sizeof buf) - 2;
	buf[n] = '\n';
	raw_out("         ", 9);
	raw_out(buf, size_t(n) + 1);
}
void fault(const char* kind)
{
	rt_guard g;
	++g_nfaults;
	count(shm->faults, kind);
	ev("fault");
	if (g_verbose)
		note("fault injected: %s", kind);
}
void probe(const char* name)
{
	rt_guard g;
	count(shm->probes, name);
}
void fail(const char* cls, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vfail(cls, fmt, ap);
	__builtin_unreachable();
}
void spawn_raw(void (*fn)(void*), void* arg)
{
	{
		rt_guard g;
		thr* n = new_thread();
		n->fn = fn;
		n->arg = arg;
	}
	if (usable())
		point(true);
}
void join_all()
{
	rt_guard g;
	for (int i = 1; i < nthreads; ++i) {
		while (threads[i].state != t_done)
			block_current(&threads[i], 0);
		join_vc(cur->vc, threads[i].vc);
		if (!threads[i].external || true)
			real_pthread_join(threads[i].pt, nullptr);
	}
	if (nthreads > 1) {
		nthreads = 1;
#ifdef SIM_TSAN
		++cell_gen;
		cells_used = 0;
#endif
		slice_left = 0;
	}
}
void yield()
{
	if (!usable())
		return;
	point(true);
#ifndef SIM_TSAN
	if (nthreads > 1) {
		// few scheduling points in this flavour: make each one count
	}
#endif
}
void stall(uint64_t n)
{
	if (!usable() || nthreads == 1)
		return;
	rt_guard g;
	fault("stall");
	cur->stall_to = g_steps + n;
	reschedule(false);
	cur->stall_to = 0;
}
void stall_until(bool (*pred)(void*), void* arg)
{
	if (nthreads == 1)
		return;
	rt_guard g;
	if (pred(arg))
		return;
	block_current(nullptr, 0, pred, arg);
}
int self()
{
	return cur ? cur->id : -1;
}
uint64_t steps()
{
	return g_steps;
}
uint64_t own_steps(int id)
{
	return threads[id].own + (&threads[id] == g_runner ? g_steps + g_edges - g_runner_from : 0);
}
uint64_t now_seq()
{
	return ++g_seq;
}
uint64_t switches()
{
	return g_switches;
}
void set_step_cap(uint64_t n)
{
	g_step_cap = n;
	g_edge_cap = n;
}
bool scheduling_build()
{
#ifdef SIM_TSAN
	return true;
#else
	return false;
#endif
}
quiet::quiet()
{
	if (cur)
		++cur->quiet;
}
quiet::~quiet()
{
	if (cur)
		--cur->quiet;
}
alloc_scope::alloc_scope(uint32_t fail_at, bool persistent)
{
	saved[0] = cur->a_active;
	saved[1] = cur->a_count;
	saved[2] = cur->a_fail_at;
	saved[3] = cur->a_persist;
	saved[4] = cur->a_fired;
	cur->a_active = 1;
	cur->a_count = 0;
	cur->a_fail_at = fail_at;
	cur->a_persist = persistent;
	cur->a_fired = 0;
}
alloc_scope::~alloc_scope()
{
	cur->a_active = saved[0];
	cur->a_count = saved[1];
	cur->a_fail_at = saved[2];
	cur->a_persist = saved[3];
	cur->a_fired = saved[4];
}
uint32_t alloc_scope::count() const
{
	return cur->a_count;
}
uint32_t alloc_scope::fired() const
{
	return cur->a_fired;
}
uint64_t live_blocks()
{
	return live_tracked;
}
void set_fill(uint8_t b)
{
	fill_byte = b;
}
bool is_live_block(const void* p)
{
	blk b;
	return blk_take(uintptr_t(p), b, false);
}
void vsnprintf_fail_at(uint32_t n, int kind)
{
	vs_fail_at = n;
	vs_kind = kind;
	vs_count = 0;
}
uint32_t vsnprintf_calls()
{
	return vs_count;
}
void demangle_fail_at(uint32_t n, int status)
{
	dm_fail_at = n;
	dm_status = status;
	dm_count = 0;
}
uint32_t demangle_calls()
{
	return dm_count;
}
void clock_set(uint64_t wall, uint64_t mono)
{
	wall_base = wall - now_ns;
	mono_base = mono - now_ns;
	wall_jump = 0;
}
void clock_advance(uint64_t ns)
{
	now_ns += ns;
}
void clock_jump_wall(int64_t ns)
{
	fault("clock-jump");
	wall_jump += ns;
}
uint64_t clock_now_ns()
{
	return now_ns;
}
uint64_t clock_reads()
{
	return n_clock_reads;
}
void clock_read_cost(uint64_t ns)
{
	read_cost = ns;
}
void set_tty(int fd, bool is)
{
	tty_is[fd] = is;
}
void set_tty_errno(int e)
{
	tty_errno_v = e;
}
uint32_t tty_queries(int fd)
{
	return tty_q[fd];
}
bool catch_abort_raw(void (*f)(void*), void* arg)
{
	thr* t = cur;
	sigjmp_buf buf;
	sigjmp_buf* saved = t->abort_jmp;
	int q = t->quiet, rt = t->in_rt;
	uint32_t a[5] = {t->a_active, t->a_count, t->a_fail_at, t->a_persist, t->a_fired};
	if (sigsetjmp(buf, 1)) {
		t->abort_jmp = saved;
		t->quiet = q;
		t->in_rt = rt;
		t->a_active = a[0];
		t->a_count = a[1];
		t->a_fail_at = a[2];
		t->a_persist = a[3];
		t->a_fired = a[4];
		g_ignore_leaks = true;
		return true;
	}
	t->abort_jmp = &buf;
	f(arg);
	t->abort_jmp = saved;
	return false;
}
void ignore_leaks()
{
	g_ignore_leaks = true;
}
} // namespace sim

// ------------------------------------------------------------------------------------------------
// one run
// ------------------------------------------------------------------------------------------------
namespace {
void reset_run(uint64_t seed, uint64_t run)
{
	memset(static_cast<void*>(threads), 0, sizeof threads);
	nthreads = 1;
	threads[0].state = t_runnable;
	threads[0].stack_top = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
	threads[0].vc.c[0] = 1;
	g_steps = g_edges = g_seq = 0;
	g_runner = &threads[0];
	g_runner_from = 0;
	g_step_cap = 20000000;
	g_edge_cap = 100000000;
	slice_left = 0;
	slice_atomics = slice_points = 0;
	g_switches = g_nfaults = 0;
	g_hash = 0x1234;
	g_il = 0x5678;
	points_since_switch = 0;
	g_ignore_leaks = false;
	uint64_t s = seed * 0x9e3779b97f4a7c15ull + run;
	s = splitmix(s);
	rng_w = s;
	rng_s = s ^ 0xabcdef1234567890ull;
	pos_w = pos_s = 0;
#ifdef SIM_TSAN
	memset(static_cast<void*>(sbuf), 0, sizeof sbuf);
	pending_total = 0;
	uint64_t ws = s ^ 0x5b0ff;
	sbuf_seed = replaying ? rep_b : splitmix(ws);
	sbuf_on = sbuf_seed & 1;
	if (!replaying)
		shm->b = sbuf_seed;
#endif
	uint64_t k = splitmix(rng_s);
	static const uint8_t means[] = {0, 1, 2, 3, 4, 6, 8, 10, 12, 14};
	strat_mean = means[k % sizeof means];
	static const uint32_t budgets[] = {8, 40, 200, 1000, 4000};
	strat_budget = budgets[(k >> 32) % 5];
	now_ns = n_clock_reads = read_cost = 0;
	wall_base = 1700000000ull * 1000000000ull;
	mono_base = 5000ull * 1000000000ull;
	wall_jump = 0;
	sim::out_capture(false);
	memset(tty_is, 0, sizeof tty_is);
	memset(tty_q, 0, sizeof tty_q);
	tty_errno_v = 0;
	vs_fail_at = vs_count = dm_fail_at = dm_count = 0;
	fill_byte = 0xa5;
	++sync_gen;
	sync_used = 0;
#ifdef SIM_TSAN
	++cell_gen;
	cells_used = 0;
	mutexes_used = 0;
#endif
}

void exec_once(uint64_t seed, uint64_t run)
{
	reset_run(seed, run);
	cur = &threads[0];
	active = true;
	try {
		scenario_run();
	} catch (std::exception& e) {
		++cur->in_rt;
		sim::fail("uncaught-exception", "%s: %s", typeid(e).name(), e.what());
	} catch (...) {
		++cur->in_rt;
		sim::fail("uncaught-exception", "exception of another type");
	}
	if (nthreads > 1)
		sim::join_all();
	active = false;
	cur = nullptr;
}

// Executes the run; a leak counts only if a second, identical execution leaks again (so that storage a
// function keeps for the life of the process is not a leak).
void exec_run(uint64_t seed, uint64_t run)
{
	shm->cur_run = run;
	shm->running = 1;
	if (!replaying)
		shm->nw = shm->ns = 0;
	uint64_t live0 = live_tracked;
	exec_once(seed, run);
	run_result r{};
	auto fill = [&] {
		r.run = run;
		r.hash = g_hash;
		r.il_hash = g_il;
		r.steps = g_steps;
		r.edges = g_edges;
		r.switches = g_switches;
		r.faults = g_nfaults;
		r.sim_ns = now_ns;
		r.nw = replaying ? pos_w : shm->nw;
		r.ns = replaying ? pos_s : shm->ns;
		mix(r.hash, g_il);
	};
	fill();
	bool ign = g_ignore_leaks;
	if (live_tracked > live0 && !ign) {
		bool was = replaying;
		const uint32_t *sw = rep_w, *ss = rep_s;
		uint32_t snw = rep_nw, sns = rep_ns;
		if (!was) {
			rep_w = shm->w;
			rep_s = shm->s;
			rep_nw = shm->nw;
			rep_ns = shm->ns;
			rep_b = shm->b;
			replaying = true;
		}
		uint64_t live1 = live_tracked;
		exec_once(seed, run);
		if (live_tracked > live1) {
			cur = &threads[0];
			sim::fail(
				"leak",
				"%llu block(s) still allocated after the run, and again after repeating it",
				(unsigned long long)(live_tracked - live1)
			);
		}
		replaying = was;
		rep_w = sw;
		rep_s = ss;
		rep_nw = snw;
		rep_ns = sns;
	}
	shm->running = 0;
	shm->cur = r;
	if (shm->nresults < max_results)
		shm->results[shm->nresults++] = r;
}

#ifdef SIM_ASAN
void asan_error()
{
	if (shm && !shm->viol) {
		shm->viol = 1;
		const char* d = __asan_get_report_description();
		snprintf(shm->cls, sizeof shm->cls, "asan");
		snprintf(shm->detail, sizeof shm->detail, "address sanitizer: %s", d ? d : "error");
	}
}
#endif

double wall()
{
	struct timespec ts;
	raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, long(&ts), 0, 0, 0, 0);
	return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

// Forks; the child executes runs [a, b) of `seed` (or the replay lists if set). Returns 0: all held,
// 1: violation (in shm), 2: broken.
int in_child(uint64_t seed, uint64_t a, uint64_t b, int quiet_stderr)
{
	shm->viol = 0;
	shm->cls[0] = shm->detail[0] = 0;
	shm->nresults = 0;
	shm->running = 0;
	pid_t p = fork();
	if (p < 0)
		return 2;
	if (p == 0) {
		if (quiet_stderr) {
			int fd = open("/dev/null", O_WRONLY);
			dup2(fd, 2);
		}
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		signal(SIGPROF, on_tick);
		struct itimerval every = {{4, 0}, {4, 0}};
		setitimer(ITIMER_PROF, &every, nullptr);
		for (uint64_t r = a; r < b; ++r)
			exec_run(seed, r);
		_exit(0);
	}
	int st = 0;
	double t0 = wall();
	int spins = 0;
	for (;;) {
		pid_t w = waitpid(p, &st, quiet_stderr == 2 ? 0 : WNOHANG);
		if (w == p)
			break;
		double dt = wall() - t0;
		if (dt > 240) {
			kill(p, SIGKILL);
			waitpid(p, &st, 0);
			shm->viol = 1;
			snprintf(shm->cls, sizeof shm->cls, "hang");
			snprintf(shm->detail, sizeof shm->detail, "a run did not end within the wall clock limit");
			return 2;
		}
		struct timespec ts = {0, spins++ < 50 ? 100000 : 1000000};
		raw_syscall(SYS_nanosleep, long(&ts), 0, 0, 0, 0, 0);
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !shm->viol)
		return 0;
	if (shm->viol)
		return 1;
	if (WIFSIGNALED(st)) {
		if (WTERMSIG(st) == SIGKILL) {
			snprintf(shm->cls, sizeof shm->cls, "killed");
			return 2;
		}
		shm->viol = 1;
		snprintf(shm->cls, sizeof shm->cls, "crash");
		snprintf(shm->detail, sizeof shm->detail, "killed by signal %d", WTERMSIG(st));
		return 1;
	}
	if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 1)) {
		shm->viol = 1;
		snprintf(shm->cls, sizeof shm->cls, "asan");
		snprintf(shm->detail, sizeof shm->detail, "sanitizer error, exit status %d", WEXITSTATUS(st));
		return 1;
	}
	snprintf(shm->cls, sizeof shm->cls, "broken");
	snprintf(shm->detail, sizeof shm->detail, "exit status %d", st);
	return 2;
}

struct ulist {
	uint32_t* v;
	uint32_t n;
};
ulist copy(const uint32_t* p, uint32_t n)
{
	ulist l;
	l.v = static_cast<uint32_t*>(::malloc(n * 4 + 4));
	memcpy(l.v, p, n * 4);
	l.n = n;
	return l;
}

uint64_t list_b; // of the lists being replayed
int run_lists(const ulist& w, const ulist& s, int quiet_stderr = 1)
{
	replaying = true;
	rep_w = w.v;
	rep_nw = w.n;
	rep_s = s.v;
	rep_ns = s.n;
	rep_b = list_b;
	int r = in_child(0, 0, 1, quiet_stderr);
	replaying = false;
	return r;
}

bool read_lists(const char* path, ulist& w, ulist& s)
{
	FILE* f = fopen(path, "r");
	if (!f)
		return false;
	char line[256];
	w = copy(nullptr, 0);
	s = copy(nullptr, 0);
	free(w.v);
	free(s.v);
	w.v = static_cast<uint32_t*>(::malloc(max_choices * 4));
	s.v = static_cast<uint32_t*>(::malloc(max_choices * 4));
	w.n = s.n = 0;
	list_b = 0;
	while (fgets(line, sizeof line, f)) {
		uint32_t v;
		unsigned long long b;
		if (sscanf(line, "b %llu", &b) == 1)
			list_b = b;
		if (sscanf(line, "w %u", &v) == 1 && w.n < max_choices)
			w.v[w.n++] = v;
		else if (sscanf(line, "s %u", &v) == 1 && s.n < max_choices)
			s.v[s.n++] = v;
	}
	fclose(f);
	return true;
}
void write_lists(const char* path, const ulist& w, const ulist& s, const char* cls, const char* detail)
{
	FILE* f = fopen(path, "w");
	if (!f)
		_exit(90);
	fprintf(f, "# replay of %s\n# class %s\n", scenario_id, cls);
	fprintf(f, "# detail ");
	for (const char* p = detail; *p; ++p)
		fputc(*p >= 32 && *p < 127 ? *p : '.', f);
	fprintf(f, "\n# b: decides the delays of buffered atomic stores (even: none)\n");
	fprintf(f, "# w: workload and fault choices; s: schedule (next thread, slice length) pairs\nb %llu\n", (unsigned long long)list_b);
	for (uint32_t i = 0; i < w.n; ++i)
		fprintf(f, "w %u\n", w.v[i]);
	for (uint32_t i = 0; i < s.n; ++i)
		fprintf(f, "s %u\n", s.v[i]);
	fclose(f);
}

void json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; ++s) {
		unsigned char c = static_cast<unsigned char>(*s);
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

int cmd_explore(uint64_t seed, uint64_t a, uint64_t b, uint64_t chunk, double limit, int max_viol, const char* out)
{
	double t0 = wall();
	FILE* f = fopen(out, "w");
	if (!f)
		return 90;
	char hp[4096];
	snprintf(hp, sizeof hp, "%s.hashes", out);
	FILE* hf = fopen(hp, "wb");
	uint64_t runs = 0, steps = 0, edges = 0, sw = 0, faults = 0, sim_ns = 0, nontriv = 0;
	int nv = 0, broken = 0;
	fprintf(f, "{\"violations\":[");
	for (uint64_t r = a; r < b;) {
		if (wall() - t0 > limit)
			break;
		uint64_t e = r + chunk < b ? r + chunk : b;
		int rc = in_child(seed, r, e, 1);
		for (uint32_t i = 0; i < shm->nresults; ++i) {
			run_result& x = shm->results[i];
			++runs;
			steps += x.steps;
			edges += x.edges;
			sw += x.switches;
			faults += x.faults;
			sim_ns += x.sim_ns;
			bool nt = x.faults > 0 || x.switches > 2;
			nontriv += nt;
			uint64_t rec[3] = {x.hash, x.il_hash, nt};
			fwrite(rec, sizeof rec, 1, hf);
		}
		if (rc == 0) {
			r = e;
			continue;
		}
		if (rc == 2) {
			++broken;
			fprintf(stderr, "broken: run %llu class %s %s\n", (unsigned long long)shm->cur_run, shm->cls, shm->detail);
			if (broken > 3)
				break;
		} else {
			fprintf(f, "%s{\"run\":%llu,\"cls\":", nv ? "," : "", (unsigned long long)shm->cur_run);
			json_str(f, shm->cls);
			fprintf(f, ",\"detail\":");
			json_str(f, shm->detail);
			fprintf(f, "}");
			++runs;
			if (++nv >= max_viol || !strcmp(shm->cls, "no-progress")) // the latter take long
				break;
		}
		r = shm->cur_run + 1;
	}
	auto table = [&](const char* n, name_counter* t) {
		fprintf(f, ",\"%s\":{", n);
		for (int i = 0; i < max_names && t[i].name[0]; ++i) {
			if (i)
				fprintf(f, ",");
			json_str(f, t[i].name);
			fprintf(f, ":%llu", (unsigned long long)t[i].n);
		}
		fprintf(f, "}");
	};
	uint64_t hit = 0;
	for (uint8_t x : shm->edge_hit)
		hit += x;
	fprintf(
		f,
		"],\"broken\":%d,\"runs\":%llu,\"steps\":%llu,\"edges\":%llu,\"switches\":%llu,\"faults\":%llu,\"sim_ns\":%llu,"
		"\"nontrivial\":%llu,\"allocs\":%llu,\"edges_hit\":%llu,\"wall\":%.3f",
		broken,
		(unsigned long long)runs,
		(unsigned long long)steps,
		(unsigned long long)edges,
		(unsigned long long)sw,
		(unsigned long long)faults,
		(unsigned long long)sim_ns,
		(unsigned long long)nontriv,
		(unsigned long long)shm->total_allocs,
		(unsigned long long)hit,
		wall() - t0
	);
	table("fault_kinds", shm->faults);
	table("probes", shm->probes);
	fprintf(f, "}\n");
	fclose(f);
	fclose(hf);
	return 0;
}

bool try_lists(const ulist& w, const ulist& s, const char* cls, int& budget)
{
	--budget;
	return run_lists(w, s) == 1 && !strcmp(shm->cls, cls);
}

// delta debugging over both lists: delete chunks, zero chunks, shrink values
void minimise(ulist& w, ulist& s, const char* cls, int budget, double limit)
{
	double t0 = wall();
	auto ok = [&] { return budget > 0 && wall() - t0 < limit; };
	// trim to the consumed part first
	auto pass = [&](ulist& l, bool is_s, bool del) {
		bool changed = false;
		uint32_t unit = is_s ? 2 : 1;
		for (uint32_t len = l.n / 2 + 1; len >= unit && ok(); len = len > unit ? len / 2 : 0) {
			if (is_s)
				len += len & 1;
			for (uint32_t i = 0; i < l.n && ok();) {
				uint32_t k = len < l.n - i ? len : l.n - i;
				ulist t = copy(l.v, l.n);
				bool trivial = true;
				if (del) {
					memmove(t.v + i, t.v + i + k, (t.n - i - k) * 4);
					t.n -= k;
					trivial = false;
				} else
					for (uint32_t j = i; j < i + k; ++j)
						if (t.v[j]) {
							t.v[j] = 0;
							trivial = false;
						}
				if (!trivial && try_lists(is_s ? w : t, is_s ? t : s, cls, budget)) {
					free(l.v);
					l = t;
					changed = true;
					if (!del)
						i += k;
				} else {
					free(t.v);
					i += k;
				}
			}
			if (len == 0)
				break;
		}
		return changed;
	};
	ulist none = copy(nullptr, 0);
	if (list_b) {
		uint64_t b = list_b;
		list_b = 0;
		if (!try_lists(w, s, cls, budget))
			list_b = b;
	}
	if (s.n && try_lists(w, none, cls, budget))
		s = none;
	for (int round = 0; round < 4 && ok(); ++round) {
		bool c = false;
		c |= pass(s, true, true);
		c |= pass(w, false, true);
		c |= pass(w, false, false);
		c |= pass(s, true, false);
		// shrink values
		for (int which = 0; which < 2; ++which) {
			ulist& l = which ? s : w;
			for (uint32_t i = 0; i < l.n && ok(); ++i)
				for (uint32_t d = l.v[i]; d && ok();) {
					uint32_t old = l.v[i];
					uint32_t cand = old - (d > old ? old : d);
					if (cand != old) {
						l.v[i] = cand;
						if (try_lists(w, s, cls, budget)) {
							c = true;
							continue;
						}
						l.v[i] = old;
					}
					d /= 2;
				}
		}
		while (w.n && w.v[w.n - 1] == 0)
			--w.n;
		if (!c)
			break;
	}
}

} // namespace

#ifdef SIM_ASAN
EXPORT const char* __asan_default_options()
{
	return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
		   "allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=0:symbolize=0:"
		   "quarantine_size_mb=16:max_allocation_size_mb=1024";
}
EXPORT const char* __ubsan_default_options()
{
	return "halt_on_error=1:exitcode=77:print_stacktrace=0:symbolize=0";
}
EXPORT void __asan_on_error()
{
	asan_error();
}
#endif

int main(int argc, char** argv)
{
	init_tables();
	shm = static_cast<shared_mem*>(
		mmap(nullptr, sizeof(shared_mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)
	);
	real_pthread_create = reinterpret_cast<pc_fn>(dlsym(RTLD_NEXT, "pthread_create"));
	real_pthread_join = reinterpret_cast<pj_fn>(dlsym(RTLD_NEXT, "pthread_join"));
#ifdef SIM_ASAN
	real_pthread_create = reinterpret_cast<pc_fn>(dlsym(RTLD_DEFAULT, "pthread_create"));
	real_pthread_join = reinterpret_cast<pj_fn>(dlsym(RTLD_DEFAULT, "pthread_join"));
#endif
	pthread_key_create(&exit_key, thread_finished);
	std::set_terminate(on_terminate);
	static char alt[65536];
	stack_t ss{};
	ss.ss_sp = alt;
	ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	signal(SIGABRT, on_sigabrt);
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) {
		struct sigaction sa{};
		sa.sa_handler = on_crash;
		sa.sa_flags = SA_ONSTACK;
		sigaction(s, &sa, nullptr);
	}
#ifdef SIM_TSAN
	dl_iterate_phdr(exempt_cb, nullptr);
	add_exempt(&std::cout, sizeof(std::cout));
	add_exempt(&std::cerr, sizeof(std::cerr));
	add_exempt(&std::cin, sizeof(std::cin));
	add_exempt(&std::clog, sizeof(std::clog));
#endif
	auto arg = [&](const char* n, const char* def) {
		for (int i = 2; i + 1 < argc; ++i)
			if (!strcmp(argv[i], n))
				return static_cast<const char*>(argv[i + 1]);
		return def;
	};
	auto flag = [&](const char* n) {
		for (int i = 2; i < argc; ++i)
			if (!strcmp(argv[i], n))
				return true;
		return false;
	};
	if (argc < 2) {
		fprintf(stderr, "usage: explore|run|replay|minimise ...\n");
		return 90;
	}
	g_thorough = flag("--thorough");
	g_verbose = flag("--verbose");
	uint64_t seed = strtoull(arg("--seed", "1"), nullptr, 10);
	if (!strcmp(argv[1], "explore"))
		return cmd_explore(
			seed,
			strtoull(arg("--begin", "0"), nullptr, 10),
			strtoull(arg("--end", "100"), nullptr, 10),
			strtoull(arg("--chunk", "25"), nullptr, 10),
			strtod(arg("--limit", "600"), nullptr),
			atoi(arg("--max-violations", "1")),
			arg("--out", "/dev/stdout")
		);
	auto report = [&](int rc) {
		printf("{\"rc\":%d,\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%u,\"faults\":%u,\"cls\":", rc, (unsigned long long)shm->cur.hash, (unsigned long long)shm->cur.steps, shm->cur.switches, shm->cur.faults);
		json_str(stdout, shm->cls);
		printf(",\"detail\":");
		json_str(stdout, shm->detail);
		printf("}\n");
		return rc;
	};
	if (!strcmp(argv[1], "run")) {
		uint64_t r = strtoull(arg("--run", "0"), nullptr, 10);
		int rc = in_child(seed, strtoull(arg("--begin", arg("--run", "0")), nullptr, 10), r + 1, !g_verbose);
		const char* rec = arg("--record", nullptr);
		if (rec) {
			ulist w = copy(shm->w, shm->nw), s = copy(shm->s, shm->ns);
			list_b = shm->b;
			write_lists(rec, w, s, shm->cls, shm->detail);
		}
		return report(rc);
	}
	ulist w{}, s{};
	if (!strcmp(argv[1], "replay")) {
		if (argc < 3 || !read_lists(argv[2], w, s))
			return 90;
		return report(run_lists(w, s, !g_verbose));
	}
	if (!strcmp(argv[1], "minimise")) {
		if (argc < 4 || !read_lists(argv[2], w, s))
			return 90;
		char cls[96];
		int rc = run_lists(w, s);
		if (rc != 1)
			return report(rc);
		snprintf(cls, sizeof cls, "%s", shm->cls);
		minimise(w, s, cls, atoi(arg("--budget", "3000")), strtod(arg("--limit", "40"), nullptr));
		rc = run_lists(w, s);
		write_lists(argv[3], w, s, shm->cls, shm->detail);
		return report(rc);
	}
	return 90;
}
