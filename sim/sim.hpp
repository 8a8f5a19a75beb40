// Deterministic simulator: interface used by the scenarios.
// Every random decision of a run comes from choose() (workload and faults) or from the scheduler's own
// choice list; a run is a pure function of these two lists and the code.
#pragma once

#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>

namespace sim {

// ---- choices -------------------------------------------------------------------------------
uint32_t choose(uint32_t n); // uniform in [0, n), 0 is the simplest choice; n == 0 means 2^32
inline bool chance(uint32_t num, uint32_t den)
{
	return choose(den) >= den - num; // 0 -> false
}
inline bool coin()
{
	return choose(2) == 1;
}
inline uint64_t choose64()
{
	uint64_t hi = choose(0);
	return (hi << 32) | choose(0);
}
inline uint32_t range(uint32_t lo, uint32_t hi) // inclusive
{
	return lo + choose(hi - lo + 1);
}
uint32_t log_uniform(uint32_t max_bits); // value in [0, 2^max_bits), uniform in the logarithm
template <class t, size_t n>
const t& pick(const t (&a)[n])
{
	return a[choose(uint32_t(n))];
}

// ---- events, faults, probes, verdict ---------------------------------------------------------
void ev(const char* tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0); // hashed into the history
void ev_bytes(const char* tag, const void* p, size_t n);
bool verbose();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // printed in verbose mode only
void fault(const char* kind); // a fault actually fired
void probe(const char* name); // a rare condition was reached
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool thorough();

// ---- threads ---------------------------------------------------------------------------------
void spawn_raw(void (*fn)(void*), void* arg);
void join_all();
void yield(); // explicit scheduling point
void stall(uint64_t steps); // the calling thread does not run for this many steps of the others
void stall_until(bool (*pred)(void*), void* arg); // blocked until pred() holds (evaluated by the scheduler)
int self(); // 0 = main
uint64_t steps(); // global step counter
uint64_t own_steps(int id); // steps and branches executed so far by one thread
uint64_t now_seq(); // global event sequence number, unique, increasing
uint64_t switches(); // preemptions so far
void set_step_cap(uint64_t n);
bool scheduling_build(); // true in the flavour that preempts at every memory access

// Bookkeeping of the harness itself: no scheduling point, no race detection, no fault inside.
struct quiet {
	quiet();
	~quiet();
	quiet(const quiet&) = delete;
	quiet& operator=(const quiet&) = delete;
};

template <class f>
void spawn(f fn)
{
	f* p = nullptr;
	{
		quiet q;
		p = new f(std::move(fn));
	}
	spawn_raw(
		[](void* a) {
			(*static_cast<f*>(a))();
			quiet q;
			delete static_cast<f*>(a);
		},
		p
	);
}

// ---- allocation faults -----------------------------------------------------------------------
// Within a scope the calling thread's allocations are counted; allocation number fail_at (1-based) fails,
// and with `persistent` all following ones too.
struct alloc_scope {
	explicit alloc_scope(uint32_t fail_at = 0, bool persistent = false);
	~alloc_scope();
	uint32_t count() const; // allocations seen so far
	uint32_t fired() const; // failures injected so far
	alloc_scope(const alloc_scope&) = delete;
	alloc_scope& operator=(const alloc_scope&) = delete;

private:
	uint32_t saved[5];
};
// allocation-budget of the run: live tracked blocks (not counting blocks made in quiet sections)
uint64_t live_blocks();
void set_fill(uint8_t byte); // byte that fresh memory is filled with
bool is_live_block(const void* p);

// formatting-call faults (vsnprintf seen by the code under test)
void vsnprintf_fail_at(uint32_t n, int kind); // n-th call fails: kind 0: returns -1 ; 0 disarms
uint32_t vsnprintf_calls();
// demangling faults
void demangle_fail_at(uint32_t n, int status); // status -1, -2 or -3; n == 0 disarms
uint32_t demangle_calls();

// ---- clock -----------------------------------------------------------------------------------
void clock_set(uint64_t wall_ns, uint64_t mono_ns);
void clock_advance(uint64_t ns);
void clock_jump_wall(int64_t ns);
uint64_t clock_now_ns(); // simulated elapsed time in this run
uint64_t clock_reads();
void clock_read_cost(uint64_t ns); // every clock reading advances time by this

// ---- terminals ---------------------------------------------------------------------------------
void set_tty(int fd, bool is); // what isatty() reports for fd
void set_tty_errno(int e); // errno of a negative answer
uint32_t tty_queries(int fd);

// ---- standard output and standard error --------------------------------------------------------
// While captured, everything written to the C library's stdout/stderr or to descriptors 1/2 goes to a simulated
// device: stdout holds text back until it is flushed, stderr does not. A crash loses what is held back.
void out_capture(bool on); // starts empty
const char* out_durable(int fd, size_t* n); // what the operating system has
size_t out_pending(int fd); // what is still held back in the process
enum out_fault { out_short, out_error, out_flush_error };
void out_fail_at(uint32_t nth_operation, out_fault kind, bool persistent); // counts from now; 0 disarms
uint32_t out_operations();

// ---- abort -----------------------------------------------------------------------------------
// Runs f; true if it ended by aborting the (simulated) process. Destructors of f's frames do not run then,
// as they would not in a real abort; leaks of the run are ignored afterwards.
bool catch_abort_raw(void (*f)(void*), void* arg);
template <class f>
bool catch_abort(f fn)
{
	return catch_abort_raw([](void* a) { (*static_cast<f*>(a))(); }, &fn);
}
void ignore_leaks();

// ---- process exit ------------------------------------------------------------------------------
// What the program has registered to be done at its exit (destructors of static objects), in registration order.
struct exit_action {
	void (*fn)(void*);
	void* arg;
};
size_t exit_actions(const exit_action** a);

} // namespace sim

// provided by each scenario
void scenario_run();
extern const char* const scenario_id;
