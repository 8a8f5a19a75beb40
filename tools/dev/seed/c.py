import sys; sys.path.insert(0,'/tmp/seed')
from mk import make
only = sys.argv[1:]
def M(id, *a, **k):
    if not only or id in only: make(id, *a, **k)

M('C01-backoff','C01',[('spin_lock.hpp','''		while (this->flag.test_and_set(std::memory_order_acquire)) {
		}
''','''		// wait longer and longer to not disturb the holder of the lock
		for (unsigned pause = 1; this->flag.test_and_set(std::memory_order_acquire); pause *= 2) {
			for (volatile unsigned i = 0; i != pause; i = i + 1) {
			}
		}
''')],r'''
// processor time which a waiter spends between the moment the lock is freed and its acquiring the lock
#include <atomic>
#include <chrono>
#include <cstdio>
#include <ctime>
#include <initializer_list>
#include <pthread.h>
#include <thread>
#include <utki/spin_lock.hpp>
static double cpu(clockid_t id)
{
	timespec t{};
	clock_gettime(id, &t);
	return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
int main()
{
	double worst = 0;
	for (int hold : {500, 650, 800, 950, 1200}) {
		utki::spin_lock lock;
		lock.lock();
		double after = 0;
		std::atomic<bool> ready{false};
		std::thread t([&] {
			ready = true;
			lock.lock();
			after = cpu(CLOCK_THREAD_CPUTIME_ID);
			lock.unlock();
		});
		while (!ready) {
		}
		std::this_thread::sleep_for(std::chrono::milliseconds(hold));
		clockid_t id;
		pthread_getcpuclockid(t.native_handle(), &id);
		double before = cpu(id);
		lock.unlock();
		t.join();
		if (after - before > worst)
			worst = after - before;
	}
	printf("a waiter went on waiting for %.3f s of processor time\n", worst);
	return worst > 0.1 ? 1 : 0;
}
''','a holder that holds the lock for long while another thread waits','the number of steps a waiter needs after the lock was freed grows with the time it was held')

M('C02-number-buffer','C02',[('string.hpp','''	std::array<char, buf_size> buf;
	auto begin = buf.begin();
''','''	static std::array<char, buf_size> buf; // not initialized for every conversion
	auto begin = buf.begin();
''')],r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <utki/string.hpp>
int main()
{
	std::atomic<bool> bad{false}, stop{false};
	auto work = [&](unsigned v, const std::string& want) {
		while (!stop && !bad)
			if (utki::to_string(v, utki::integer_base::bin) != want)
				bad = true;
	};
	std::thread a(work, 0u, "0b0"), b(work, 1023u, "0b1111111111"), c(work, 512u, "0b1000000000");
	for (int i = 0; i != 50 && !bad; ++i)
		std::this_thread::sleep_for(std::chrono::milliseconds(100));
	stop = true;
	a.join();
	b.join();
	c.join();
	if (bad)
		puts("a number was converted to the digits of another one");
	return bad ? 1 : 0;
}
''','two threads converting numbers of the same type to strings at the same time','a number is converted to digits of the number of another thread')

M('C03-same-object','C03',[('shared_ref.hpp','''	shared_ref& operator=(const shared_ref&) = default;
''','''	shared_ref& operator=(const shared_ref& sr)
	{
		// avoid atomic operations on the reference counter when nothing changes
		if (this->p.get() != sr.p.get()) {
			this->p = sr.p;
		}
		return *this;
	}
''')],r'''
#include <cstdio>
#include <utki/shared_ref.hpp>
static int alive = 0;
struct part {
	int v = 5;
};
struct whole {
	part a;
	whole() { ++alive; }
	~whole() { --alive; }
};
struct keeper {
	std::shared_ptr<whole> w;
};
int main()
{
	auto w = std::make_shared<whole>();
	// refers to a part of an object which is kept alive by another one
	auto k = std::make_shared<keeper>();
	k->w = w;
	utki::shared_ref<part> by_keeper(std::shared_ptr<part>(k, &w->a));
	utki::shared_ref<part> by_whole(std::shared_ptr<part>(w, &w->a));
	w.reset();
	by_keeper = by_whole; // from now on both own the whole itself
	k->w.reset();
	k.reset();
	{
		auto last = std::move(by_whole);
	}
	if (alive != 1) {
		puts("the object was destroyed while a reference owns it");
		return 1;
	}
	return 0;
}
''','assigning a reference to one which refers to the same object through another owner','the assigned reference does not share the ownership, the object is destroyed while it is owned')

M('C04-tail','C04',[('unique_ref.hpp','''	unique_ref& operator=(unique_ref&& r) = default;
''','''	unique_ref& operator=(unique_ref&& r) noexcept
	{
		// destroy the old object first to keep the peak memory usage low
		this->p.reset();
		this->p = std::move(r.p);
		return *this;
	}
''')],r'''
#include <cstdio>
#include <vector>
#include <utki/unique_ref.hpp>
struct node {
	int v;
	std::vector<utki::unique_ref<node>> next;
	node(int v) : v(v) {}
};
int main()
{
	auto head = utki::make_unique<node>(1);
	head.get().next.push_back(utki::make_unique<node>(2));
	head.get().next.front().get().next.push_back(utki::make_unique<node>(3));
	head = std::move(head.get().next.front());
	if (head.to_unique_ptr == nullptr) return 2;
	return 0;
}
'''.replace('''	if (head.to_unique_ptr == nullptr) return 2;
	return 0;''','''	auto p = std::move(head).to_unique_ptr();
	if (!p || p->v != 2 || p->next.size() != 1) {
		puts("the object is gone");
		return 1;
	}
	return 0;'''),'move-assigning a reference from one that is owned by the object it refers to (dropping the head of a list)','the object that is being handed over is destroyed with the old one',flags='-std=c++17 -g -O1 -fsanitize=address')

M('C05-unwinding','C05',[('singleton.hpp','''		[[maybe_unused]] auto ptr = instance_owner_type::instance.release();
''','''		if (std::uncaught_exceptions() == 0) {
			[[maybe_unused]] auto ptr = instance_owner_type::instance.release();
		}
''')],r'''
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <utki/singleton.hpp>
struct s : public utki::singleton<s> {};
int main()
{
	try {
		s a;
		throw std::runtime_error("x");
	} catch (std::runtime_error&) {
	}
	if (s::is_created()) {
		puts("the singleton is still registered");
		fflush(stdout);
		std::_Exit(1);
	}
	return 0;
}
''','the singleton object is destroyed by stack unwinding, or its constructor throws','the singleton stays registered, is_created() is true and a new instance cannot be created')

M('C06-depth','C06',[('signal.hpp','''	std::list<callback_type> callbacks;
''','''	std::list<callback_type> callbacks;
	unsigned depth = 0;
'''),('signal.hpp','''		for (const auto& c : this->callbacks) {
''','''		// prevent endless recursion of emissions
		constexpr unsigned max_depth = 32;
		if (this->depth == max_depth) {
			return;
		}
		++this->depth;
		for (const auto& c : this->callbacks) {
'''),('signal.hpp','''				  args_type&&>>(a)...);
		}
	}
''','''				  args_type&&>>(a)...);
		}
		--this->depth;
	}
''')],r'''
#include <cstdio>
#include <utki/signal.hpp>
int main()
{
	utki::signal<int> s;
	int calls = 0;
	auto c = s.connect([&](int v) {
		++calls;
		if (v)
			throw v;
	});
	for (int i = 0; i < 40; ++i) {
		try {
			s.emit(1);
		} catch (int) {
		}
	}
	s.emit(0);
	s.disconnect(c);
	printf("%d calls of 41\n", calls);
	return calls == 41 ? 0 : 1;
}
''','32 emissions of one signal left by exceptions (or emissions nested that deep)','later emissions call nothing')

M('C07-double','C07',[('utility.hpp','''		if (this->f) {
			try {
				this->f();
''','''		if (this->f && std::uncaught_exceptions() < 2) {
			try {
				this->f();
''')],r'''
#include <cstdio>
#include <stdexcept>
#include <utki/utility.hpp>
static int ran = 0;
struct cleaner {
	~cleaner()
	{
		// cleans up while an exception is in flight, has an exception of its own
		try {
			utki::scope_exit e([] { ++ran; });
			throw std::runtime_error("inner");
		} catch (std::runtime_error&) {
		}
	}
};
int main()
{
	try {
		cleaner c;
		throw std::runtime_error("outer");
	} catch (std::runtime_error&) {
	}
	printf("%d\n", ran);
	return ran == 1 ? 0 : 1;
}
''','a scope left by an exception inside of a destructor which runs because of another exception','the action is not run')

M('C08-silent','C08',[('exception.cpp','''	ss << indentation << demangle(typeid(e)) << ": " << e.what();
''','''	ss << indentation << demangle(typeid(e));
	if (*e.what() == '\\0') {
		return ss.str(); // nothing to add
	}
	ss << ": " << e.what();
''')],r'''
#include <cstdio>
#include <string>
#include <utki/exception.hpp>
int main()
{
	try {
		try {
			throw std::invalid_argument("root cause");
		} catch (...) {
			std::throw_with_nested(std::runtime_error(""));
		}
	} catch (std::exception& e) {
		auto s = utki::to_string(e);
		puts(s.c_str());
		return s.find("root cause") != std::string::npos ? 0 : 1;
	}
	return 2;
}
''','an exception with an empty message with another one nested in it','the nested exceptions are missing from the description')

M('C09-fflush','C09',[('log.cpp','''	std::cout.flush();
''','''	std::fflush(stdout);
'''),('log.cpp','''#	include <iostream>
''','''#	include <cstdio>
#	include <iostream>
''')],r'''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <utki/log.hpp>
int main()
{
	int p[2];
	if (pipe(p))
		return 2;
	pid_t child = fork();
	if (!child) {
		dup2(p[1], 1);
		close(p[0]);
		std::ios::sync_with_stdio(false);
		utki::log([](auto& o) { o << "last words" << '\n'; });
		_exit(3); // crash
	}
	close(p[1]);
	char b[100];
	ssize_t n, all = 0;
	while ((n = read(p[0], b + all, sizeof(b) - size_t(all))) > 0)
		all += n;
	int st;
	waitpid(child, &st, 0);
	bool ok = std::string(b, size_t(all)) == "last words\n";
	puts(ok ? "ok" : "the log is lost");
	return ok ? 0 : 1;
}
''','standard streams not synchronized with stdio (std::ios::sync_with_stdio(false)), and a crash after the call','the text of the call is still in the buffer of std::cout when the call returns')

M('C10-modulo','C10',[('time.cpp','''			.count()
	);
''','''			.count() %
		std::numeric_limits<uint32_t>::max() // wrap around
	);
'''),('time.cpp','''#include <chrono>
''','''#include <chrono>
#include <limits>
''')],r'''
#include <cstdio>
#include <ctime>
#include <cstdint>
#include <utki/time.hpp>
uint64_t now_ms = 0;
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept
{
	ts->tv_sec = time_t(now_ms / 1000);
	ts->tv_nsec = long(now_ms % 1000 * 1000000);
	return 0;
}
int main()
{
	// the same instant of the elapsed time seen from both sides of several wrap-arounds
	const uint64_t wrap = 1ull << 32;
	now_ms = 100;
	uint32_t a = utki::get_ticks_ms();
	for (uint64_t i = 1; i < 400; i *= 2) {
		now_ms = 100 + wrap * i;
		uint32_t b = utki::get_ticks_ms();
		uint32_t d = b - a;
		if (d > 1 && d != 0xffffffffu) {
			printf("off by %u ms after %u wrap-arounds\n", d, unsigned(i));
			return 1;
		}
	}
	return 0;
}
''','readings on both sides of several wrap-arounds of the counter','each wrap-around adds a millisecond to the difference')

M('C11-nested','C11',[('debug.cpp','''	if (condition) {
		return;
	}

	std::stringstream ss;
''','''	thread_local bool failing = false;
	if (condition || failing) {
		return; // nothing is wrong, or the assertion failed while another one is being reported
	}
	failing = true;

	std::stringstream ss;
''')],r'''
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>
#include <utki/debug.hpp>
int main()
{
	pid_t child = fork();
	if (!child) {
		freopen("/dev/null", "w", stderr);
		utki::assert_always(
			false,
			[](std::ostream& o) {
				bool reached = false;
				utki::assert_always(reached, [](std::ostream&) {}, utki::source_location::current());
				_exit(7); // went on past a failed assertion
			},
			utki::source_location::current()
		);
		_exit(8);
	}
	int st;
	waitpid(child, &st, 0);
	bool ok = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
	puts(ok ? "ok" : "execution went on past a failed assertion");
	return ok ? 0 : 1;
}
'''.replace('utki::source_location::current()','SL'),'an assertion that fails in the message callback of a failing assertion','execution continues past a failed assertion')

M('C12-wide','C12',[('tree.hpp','''				ret.push_back(std::distance(this->list_stack[i]->begin(), this->iter_stack[i]));
''','''				ret.push_back(uint16_t(std::distance(this->list_stack[i]->begin(), this->iter_stack[i])) & 0x7ff);
''')],r'''
#include <cstdio>
#include <utki/tree.hpp>
int main()
{
	utki::tree<int>::container_type roots;
	for (int i = 0; i < 3000; ++i)
		roots.emplace_back(i);
	auto t = utki::make_traversal(roots);
	int n = 0;
	for (auto i = t.begin(); i != t.end(); ++i, ++n) {
		auto back = t.make_iterator(utki::make_span(i.index()));
		if (back->value != n) {
			printf("node %d is found as node %d\n", n, back->value);
			return 1;
		}
	}
	return n == 3000 ? 0 : 1;
}
''','an index of a node with more than 2047 elder siblings','the index leads to another node')

M('C13-padding','C13',[('deserializer.cpp','''	auto ret = utki::make_string_view(this->data.subspan(0, length));
''','''	auto ret = utki::make_string_view(this->data.subspan(0, length));
	while (!ret.empty() && ret.back() == '\\0') {
		ret.remove_suffix(1); // padding
	}
''')],r'''
#include <cstdio>
#include <cstdint>
#include <vector>
#include <utki/deserializer.hpp>
int main()
{
	std::vector<uint8_t> data{'a', 'b', 0, 0, 'c'};
	utki::deserializer d(utki::make_span(data));
	auto s = d.read_string(4);
	printf("%zu characters\n", s.size());
	return s == std::string_view("ab\0\0", 4) ? 0 : 1;
}
''','a string which ends with zero characters (or data zeroed by a lost write)','the returned string is shorter than the bytes consumed')

M('C14-pads','C14',[('base64.cpp','''		str = str.substr(0, str.size() - 1);

		if (str.back() == '=') {
			str = str.substr(0, str.size() - 1);
		}
''','''		while (str.back() == '=') {
			str = str.substr(0, str.size() - 1);
		}
''')],r'''
#include <cstdio>
#include <string>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <utki/base64.hpp>
int main()
{
	char* p = static_cast<char*>(malloc(4));
	memcpy(p, "====", 4);
	try {
		auto v = utki::base64_decode(std::string_view(p, 4));
		printf("%zu bytes\n", v.size());
	} catch (std::invalid_argument&) {
		puts("refused");
	}
	free(p);
	return 0;
}
''','a text of padding characters only','a read in front of the text',flags='-std=c++17 -g -O1 -fsanitize=address')

M('C14-latin','C14',[('unicode.cpp','''	if (this->p == this->end) {
		this->c = 0;
		return *this;
	}

	this->c = (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
''','''	if (this->p == this->end) {
		this->c = char32_t(b); // a lone byte at the end of the text
		return *this;
	}

	this->c = (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
''')],r'''
#include <cstdio>
#include <string>
#include <utki/unicode.hpp>
int main()
{
	// a text cut in the middle of its last character
	std::string text = std::string("ab") + "\xd0\x90";
	text.pop_back();
	auto u = utki::to_utf32(utki::utf8_iterator(text.c_str()));
	printf("%zu characters\n", u.size());
	return u == U"ab" ? 0 : 1;
}
''','a text cut after the first byte of its last character','a character which is not in the text is returned for the damaged one')

M('C15-cut','C15',[('string.cpp','''		ret.resize(size);

''','''		try {
			ret.resize(size);
		} catch (std::bad_alloc&) {
			// not enough memory for the whole string, return what there is
			return {buf.data(), buf.size() - 1};
		}

''')],r'''
#include <cstdio>
#include <cstdlib>
#include <new>
#include <string>
#include <utki/string.hpp>
static size_t limit = size_t(-1);
void* operator new(size_t n)
{
	if (n > limit)
		throw std::bad_alloc();
	return malloc(n);
}
void operator delete(void* p) noexcept
{
	free(p);
}
void operator delete(void* p, size_t) noexcept
{
	free(p);
}
int main()
{
	std::string big(2000, 'x');
	limit = 1500;
	try {
		auto s = utki::make_string("%s", big.c_str());
		limit = size_t(-1);
		printf("%zu characters of 2000\n", s.size());
		return s.size() == 2000 ? 0 : 1;
	} catch (std::bad_alloc&) {
		puts("refused");
	}
	return 0;
}
''','a formatted text of more than 1023 characters when memory for it is not available, but is for a smaller one','a cut text is returned')

M('C16-index','C16',[('linq.hpp','''			size_t i = 0;
''','''			unsigned char i = 0;
''')],r'''
#include <cstdio>
#include <vector>
#include <utki/linq.hpp>
int main()
{
	std::vector<int> v(300);
	auto r = utki::linq(v).select([](auto&& e, size_t i) { return i; }).get();
	for (size_t k = 0; k < r.size(); ++k)
		if (r[k] != k) {
			printf("index %zu is given as %zu\n", k, size_t(r[k]));
			return 1;
		}
	return r.size() == 300 ? 0 : 1;
}
''','selecting with an index from a sequence of more than 256 elements','wrong indices are given to the function')

M('C17-zero','C17',[('string.cpp','''	for (; !this->view.empty(); this->view = this->view.substr(1)) {
		if (this->view.front() == c) {
''','''	for (; !this->view.empty() && this->view.front() != '\\0'; this->view = this->view.substr(1)) {
		if (this->view.front() == c) {
''')],r'''
#include <cstdio>
#include <string>
#include <utki/string.hpp>
int main()
{
	utki::string_parser p(std::string_view("ab\0cd;ef", 8));
	p.skip_inclusive_until(';');
	auto rest = p.read_chars(100);
	printf("the rest is of %zu characters\n", rest.size());
	return rest == "ef" ? 0 : 1;
}
''','a text with a zero character in it (a block zeroed by a lost write)','skipping stops at the zero character')
