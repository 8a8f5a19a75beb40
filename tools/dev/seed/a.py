import sys; sys.path.insert(0,'/tmp/seed')
from mk import make
only = sys.argv[1:]
def M(id, *a, **k):
    if not only or id in only: make(id, *a, **k)

M('C01-gives-up', 'C01', [('spin_lock.hpp','''		while (this->flag.test_and_set(std::memory_order_acquire)) {
		}
''','''		// a spin lock is only held for a short time, do not burn the core forever
		constexpr unsigned max_spins = 1u << 15;
		for (unsigned num_spins = 0; num_spins != max_spins; ++num_spins) {
			if (!this->flag.test_and_set(std::memory_order_acquire)) {
				break;
			}
		}
''')], '''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <utki/spin_lock.hpp>
int main()
{
	utki::spin_lock l;
	std::atomic<bool> inside{false}, overlap{false};
	l.lock();
	inside = true;
	std::thread t([&] {
		l.lock();
		if (inside)
			overlap = true;
		l.unlock();
	});
	std::this_thread::sleep_for(std::chrono::milliseconds(1500)); // the holder is stalled
	inside = false;
	l.unlock();
	t.join();
	if (overlap)
		puts("two threads inside the critical section");
	return overlap ? 1 : 0;
}
''', 'a holder which is stalled (descheduled) inside the critical section while a waiter spins 32768 times', 'mutual exclusion: the waiter enters the critical section without having got the lock')

M('C01-relaxed-unlock', 'C01', [('spin_lock.hpp','std::memory_order_release','std::memory_order_relaxed')], '''
#include <cstdio>
#include <thread>
#include <utki/spin_lock.hpp>
utki::spin_lock l;
long counter;
int main()
{
	auto f = [] {
		for (int i = 0; i < 2000; ++i) {
			l.lock();
			++counter;
			l.unlock();
		}
	};
	std::thread a(f), b(f);
	a.join();
	b.join();
	return counter == 4000 ? 0 : 1;
}
''', 'two threads passing the lock to each other; a weakly ordered machine, or a race detector', "what one holder wrote before unlocking is not ordered before the next holder's reads", flags='-std=c++17 -g -O1 -fsanitize=thread', tail=' 2>&1 | tail -5; exit ${PIPESTATUS[0]}')

M('C02-demangle-buffer', 'C02', [('debug.cpp','''	auto demangled_name = abi::__cxa_demangle(
		type_info.name(),
		nullptr, // let __cxa_demangle() allocate memory buffer for us
		nullptr, // not interested in allocated memory buffer size
		&status
	);
''','''	// the buffer is reused by next calls, __cxa_demangle() grows it when needed
	static char* buffer = nullptr;
	static size_t buffer_size = 0;
	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-vararg)
	auto demangled_name = abi::__cxa_demangle(
		type_info.name(),
		buffer,
		&buffer_size,
		&status
	);
'''),('debug.cpp','''				utki::scope_exit scope_exit([demangled_name] {
					// NOLINTNEXTLINE(cppcoreguidelines-no-malloc, cppcoreguidelines-owning-memory)
					free(demangled_name); // abi::__cxa_demangle requires freeing allocated memory
				});
				return {demangled_name};
''','''				buffer = demangled_name;
				return {demangled_name};
''')], '''
#include <atomic>
#include <cstdio>
#include <map>
#include <string>
#include <thread>
#include <vector>
#include <utki/debug.hpp>
int main()
{
	std::atomic<int> bad{0};
	auto work = [&](const std::type_info& ti, const char* name) {
		for (int i = 0; i < 20000; ++i)
			if (utki::demangle(ti) != name)
				++bad;
	};
	std::vector<std::thread> ts;
	for (int i = 0; i < 4; ++i) {
		ts.emplace_back([&] { work(typeid(int), "int"); });
		ts.emplace_back([&] { work(typeid(std::vector<std::vector<long>>), "std::vector<std::vector<long, std::allocator<long> >, std::allocator<std::vector<long, std::allocator<long> > > >"); });
		ts.emplace_back([&] { work(typeid(std::pair<char, double>), "std::pair<char, double>"); });
	}
	for (auto& t : ts)
		t.join();
	printf("%d wrong names\\n", bad.load());
	return bad ? 1 : 0;
}
''', 'two threads looking up type names (or describing exceptions) at the same time', 'thread independence: a caller gets the name another thread asked for, or a freed buffer')

M('C02-utf8-static', 'C02', [('unicode.cpp','''	std::array<char, 7> ret; // NOLINT(cppcoreguidelines-avoid-magic-numbers)

	if''','''	static std::array<char, 7> ret; // NOLINT(cppcoreguidelines-avoid-magic-numbers)

	if''')], '''
#include <atomic>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include <utki/unicode.hpp>
int main()
{
	std::atomic<int> bad{0};
	std::vector<std::thread> ts;
	for (int i = 0; i < 6; ++i)
		ts.emplace_back([&, i] {
			static const char32_t cs[] = {U'a', U'\\u00e9', U'\\u20ac', U'\\U0001F600', U'z', U'\\u0416'};
			static const char* us[] = {"a", "\\xc3\\xa9", "\\xe2\\x82\\xac", "\\xf0\\x9f\\x98\\x80", "z", "\\xd0\\x96"};
			for (int k = 0; k < 400000; ++k) {
				auto b = utki::to_utf8(cs[i]);
				if (std::string(b.data()) != us[i])
					++bad;
			}
		});
	for (auto& t : ts)
		t.join();
	printf("%d wrong encodings\\n", bad.load());
	return bad ? 1 : 0;
}
''', 'two threads encoding characters at the same time', 'thread independence: a thread gets (parts of) the encoding of another thread\'s character', flags='-std=c++17 -g -O0')

M('C03-unowned', 'C03', [('shared.hpp','''(std::dynamic_pointer_cast<object_type>(o.shared_from_this()));''','''(std::dynamic_pointer_cast<object_type>(o.weak_from_this().lock()));''')], '''
#include <cstdio>
#include <utki/shared.hpp>
struct thing : public virtual utki::shared {
	bool refused = false;
	thing(bool early)
	{
		if (early)
			this->grab();
	}
	void grab()
	{
		try {
			auto r = utki::make_shared_from(*this);
			auto p = r.to_shared_ptr();
			printf("got a reference to %p\\n", (void*)p.get());
		} catch (std::bad_weak_ptr&) {
			this->refused = true;
		}
	}
};
int main()
{
	auto t = utki::make_shared<thing>(true);
	auto t2 = utki::make_shared<thing>(false);
	t2.get().grab();
	return t.get().refused && !t2.get().refused ? 0 : 1;
}
''', 'make_shared_from()/make_weak_from() on an object that nothing owns: inside its constructor or destructor, or on the stack; release build', 'instead of the exception, a null shared reference is made', flags='-std=c++17 -O1')

M('C03-cast', 'C03', [('shared_ref.hpp','''	auto p = std::dynamic_pointer_cast<dst_type>(r.to_shared_ptr());
	if (!p) {
		// this cast will throw std::bad_cast for us
		[[maybe_unused]] const auto& res = dynamic_cast<dst_type&>(r.get());
	}
	return shared_ref<dst_type>(std::move(p));
''','''	// this cast throws std::bad_cast for us in case the object is of another type
	auto& res = dynamic_cast<dst_type&>(r.get());
	// avoid casting twice
	return shared_ref<dst_type>(std::shared_ptr<dst_type>(&res, [weak = std::weak_ptr<src_type>(r.to_shared_ptr())](dst_type*) {}));
''')], '''
#include <cstdio>
#include <utki/shared_ref.hpp>
bool alive;
struct base {
	virtual ~base() = default;
};
struct derived : base {
	derived() { alive = true; }
	~derived() override { alive = false; }
};
int main()
{
	auto make = [] {
		utki::shared_ref<base> b = utki::make_shared<derived>();
		return utki::dynamic_reference_cast<derived>(b);
	};
	auto d = make();
	if (!alive)
		puts("the object died while it was owned");
	return alive ? 0 : 1;
}
''', 'a dynamically cast reference that outlives the reference it was cast from', 'the cast reference is not an owner: the object is destroyed while it is still referred to')

M('C04-swap-assign', 'C04', [('unique_ref.hpp','''	unique_ref& operator=(unique_ref&& r) = default;
''','''	unique_ref& operator=(unique_ref&& r) noexcept
	{
		// swap is safe for self-assignment
		this->p.swap(r.p);
		return *this;
	}
''')], '''
#include <cstdio>
#include <utki/unique_ref.hpp>
int alive;
struct thing {
	thing() { ++alive; }
	~thing() { --alive; }
};
int main()
{
	auto a = utki::make_unique<thing>();
	auto b = utki::make_unique<thing>();
	a = std::move(b);
	printf("%d alive\\n", alive);
	return alive == 1 ? 0 : 1;
}
''', 'move-assignment over an owner, with the moved-from reference living on', 'the overwritten object is not destroyed when its owner is overwritten')

M('C04-ctor-leak', 'C04', [('unique_ref.hpp','''	return unique_ref<object_type>(std::make_unique<object_type>(std::forward<arguments_type>(args)...));
''','''	// construct the object in its place, so that types with private class-level operator new can be used too
	void* place = ::operator new(sizeof(object_type));
	return unique_ref<object_type>(
		std::unique_ptr<object_type>(::new (place) object_type(std::forward<arguments_type>(args)...))
	);
''')], '''
#include <cstdio>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <utki/unique_ref.hpp>
long live;
void* operator new(size_t n)
{
	++live;
	return malloc(n);
}
void operator delete(void* p) noexcept
{
	if (p) --live;
	free(p);
}
void operator delete(void* p, size_t) noexcept
{
	if (p) --live;
	free(p);
}
struct thing {
	long data[10];
	thing() { throw 1; }
};
int main()
{
	long before = live;
	try {
		auto a = utki::make_unique<thing>();
		return 2;
	} catch (int) {
	}
	printf("%ld blocks leaked\\n", live - before);
	return live == before ? 0 : 1;
}
''', 'a constructor that throws inside utki::make_unique()', 'the memory of the object that was not constructed leaks')

M('C05-second', 'C05', [('singleton.hpp','''		if (instance_owner_type::instance) {
			throw std::logic_error("singleton::singleton(): instance is already created");
		}

		instance_owner_type::instance.reset(static_cast<object_type*>(this));
''','''		// unique_ptr is only used for storing the pointer, so no object is deleted here
		auto previous = instance_owner_type::instance.release();

		instance_owner_type::instance.reset(static_cast<object_type*>(this));

		if (previous) {
			throw std::logic_error("singleton::singleton(): instance is already created");
		}
''')], '''
#include <cstdio>
#include <utki/singleton.hpp>
struct app : public utki::singleton<app> {};
int main()
{
	app* a = new app();
	bool thrown = false;
	try {
		app* b = new app();
		(void)b;
	} catch (std::logic_error&) {
		thrown = true;
	}
	bool same = &app::inst() == a;
	printf("thrown %d, the first is found %d\\n", thrown, same);
	_Exit(thrown && same ? 0 : 1);
}
''', 'an attempt to construct a second instance, followed by an access', 'the first instance is no longer registered: accesses get the instance that failed to be constructed')

M('C05-late', 'C05', [('singleton.hpp','''		return instance_owner_type::instance != nullptr;
''','''		// the instance is stored by the constructor of this base class, there is no need to look it up again once it was seen
		static bool created = false;
		if (!created) {
			created = instance_owner_type::instance != nullptr;
		}
		return created;
''')], '''
#include <cstdio>
#include <utki/singleton.hpp>
struct app : public utki::singleton<app> {};
int main()
{
	bool ok = !app::is_created();
	{
		app a;
		ok = ok && app::is_created();
	}
	ok = ok && !app::is_created();
	{
		app a;
		ok = ok && app::is_created();
	}
	puts(ok ? "fine" : "is_created() is wrong");
	return ok ? 0 : 1;
}
''', 'asking is_created() while the instance exists, and again after it was destroyed', 'a destroyed singleton is reported as created (and the cached flag is written without synchronisation)')

M('C06-snapshot', 'C06', [('signal.hpp','''		for (const auto& c : this->callbacks) {
''','''		// callbacks which get connected during the emission are not to be called
		auto num = this->callbacks.size();
		for (auto i = this->callbacks.begin(); num != 0; ++i, --num) {
			const auto& c = *i;
''')], '''
#include <cstdio>
#include <utki/signal.hpp>
int main()
{
	auto& s = *new utki::signal<int>();
	int calls = 0;
	utki::signal<int>::connection last;
	bool done = false;
	s.connect([&](int) {
		++calls;
		if (!done) {
			done = true;
			s.disconnect(last);
		}
	});
	s.connect([&](int) { ++calls; });
	last = s.connect([&](int) { ++calls; });
	try {
		s.emit(1);
	} catch (...) {
		puts("exception");
		_Exit(1);
	}
	printf("%d calls\\n", calls);
	_Exit(calls == 2 ? 0 : 1);
}
''', 'a callback which disconnects one that was not called yet during the emission', 'the emission runs past the last connection', flags='-std=c++17 -g -O1 -fsanitize=address', tail=' 2>&1 | tail -5; exit ${PIPESTATUS[0]}')

M('C06-half-connect', 'C06', [('signal.hpp','''	connection connect(callback_type callback)
	{
		this->callbacks.push_back(std::move(callback));
		return std::prev(this->callbacks.end());
''','''	connection connect(const callback_type& callback)
	{
		auto conn = this->callbacks.emplace(this->callbacks.end());
		*conn = callback;
		return conn;
''')], '''
#include <cstdio>
#include <functional>
#include <stdexcept>
#include <utki/signal.hpp>
bool fail;
struct cb {
	long state[8] = {};
	cb() = default;
	cb(const cb&)
	{
		if (fail)
			throw std::bad_alloc();
	}
	void operator()(int) const {}
};
int main()
{
	utki::signal<int> s;
	auto a = s.connect([](int) {});
	std::function<void(int)> f{cb()};
	fail = true;
	try {
		s.connect(f);
		return 2;
	} catch (std::bad_alloc&) {
	}
	fail = false;
	printf("%zu connections\\n", s.size());
	bool ok = s.size() == 1;
	if (!ok)
		_Exit(1);
	s.disconnect(a);
	return 0;
}
''', 'an allocation (or copy of the callback) failing in the middle of connect()', 'an empty callback stays connected, and the next emission throws bad_function_call')

M('C07-foreign', 'C07', [('utility.hpp','''				this->f();
				// destructor must not throw
				// NOLINTNEXTLINE(bugprone-empty-catch)
			} catch (...) {
				// ignore
''','''				this->f();
				// destructor must not throw
				// NOLINTNEXTLINE(bugprone-empty-catch)
			} catch (std::exception&) {
				// ignore
''')], '''
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <utki/utility.hpp>
int main()
{
	std::set_terminate([] {
		puts("terminated");
		fflush(stdout);
		_Exit(1);
	});
	{
		utki::scope_exit g([] { throw 13; });
	}
	return 0;
}
''', 'an action that throws something which is not a std::exception', 'the program is terminated')

M('C07-release-copy', 'C07', [('utility.hpp','''		auto ret = std::move(this->f);
		this->f = nullptr;
		return ret;
''','''		auto ret = this->f;
		this->f = nullptr;
		return ret;
''')], '''
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <memory>
#include <new>
#include <utki/utility.hpp>
struct action {
	static int copies;
	long state[8] = {};
	action() = default;
	action(const action& a) { ++copies; if (limited) throw std::bad_alloc(); }
	action(action&& a) noexcept {}
	static bool limited;
	void operator()() {}
};
int action::copies = 0;
bool action::limited = false;
int main()
{
	std::set_terminate([] {
		puts("terminated");
		fflush(stdout);
		_Exit(1);
	});
	utki::scope_exit g{std::function<void()>(action())};
	action::limited = true; // memory is exhausted
	auto f = g.release();
	return f ? 0 : 1;
}
''', 'releasing a guard when memory is exhausted (or with an action whose copy differs from it)', 'release() copies the action: the program is terminated when that fails, and the caller gets another object than it handed over')
