import sys; sys.path.insert(0,'/tmp/seed')
from mk import make
only = sys.argv[1:]
def M(id, *a, **k):
    if not only or id in only: make(id, *a, **k)

M('C08-unknown', 'C08', [('exception.cpp','''		ss << "\\n" << to_string(nested, indentation);
	} catch (...) {
		ss << "\\n" << current_exception_to_string(indentation);
	}
''','''		ss << "\\n" << to_string(nested, indentation);
	} catch (...) {
		ss << "\\n" << indentation << "unknown exception";
	}
''')], r'''
#include <cstdio>
#include <string>
#include <utki/exception.hpp>
struct odd_type {};
int main()
{
	try {
		try {
			throw odd_type();
		} catch (...) {
			std::throw_with_nested(std::runtime_error("outer"));
		}
	} catch (std::exception& e) {
		auto s = utki::to_string(e);
		puts(s.c_str());
		return s.find("odd_type") != std::string::npos ? 0 : 1;
	}
	return 2;
}
''', 'an exception of a non-standard type nested by the standard facility under a standard one', 'the type of that exception is not named in the description')

M('C08-truncated-chain', 'C08', [('exception.cpp','''		} catch (...) {
			ss << "\\n" << current_exception_to_string(indentation);
		}
		// NOLINTNEXTLINE(bugprone-empty-catch)
''','''		} catch (...) {
			ss << "\\n" << indentation << demangle(*abi::__cxa_current_exception_type());
		}
		// NOLINTNEXTLINE(bugprone-empty-catch)
''')], r'''
#include <cstdio>
#include <string>
#include <utki/exception.hpp>
struct one {};
struct two {};
int main()
{
	try {
		try {
			try {
				throw std::runtime_error("root cause");
			} catch (...) {
				std::throw_with_nested(one());
			}
		} catch (...) {
			std::throw_with_nested(two());
		}
	} catch (...) {
		auto s = utki::current_exception_to_string();
		puts(s.c_str());
		return s.find("root cause") != std::string::npos ? 0 : 1;
	}
	return 2;
}
''', 'two nested non-standard exceptions over another one', 'the chain is cut after the second exception')

M('C09-zero', 'C09', [('log.cpp','''	print(std::cout);

''','''	// compose the text first, to not let text of several threads mix up
	std::stringstream ss;
	print(ss);
	std::cout << ss.str().c_str();

''')], r'''
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <utki/log.hpp>
int main()
{
	int fds[2];
	if (pipe(fds))
		return 2;
	int old = dup(1);
	dup2(fds[1], 1);
	utki::log([](auto& o) {
		o << "before" << '\0' << "after\n";
	});
	dup2(old, 1);
	close(fds[1]);
	char buf[100] = {};
	ssize_t n = read(fds[0], buf, sizeof(buf));
	printf("%zd bytes\n", n);
	return n == 13 && !memcmp(buf, "before\0after\n", 13) ? 0 : 1;
}
''', 'a text with a zero character in it', 'the rest of the text is lost')

M('C09-flush', 'C09', [('log.cpp','''	std::cout.flush();
''','''	if (!std::uncaught_exceptions()) {
		std::cout.flush();
	}
''')], r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <unistd.h>
#include <utki/log.hpp>
struct guard {
	~guard()
	{
		utki::log([](auto& o) {
			o << "leaving\n";
		});
		if (fork() == 0)
			_exit(0);
	}
};
int main()
{
	std::ios::sync_with_stdio(false);
	int fds[2];
	if (pipe(fds))
		return 2;
	int old = dup(1);
	dup2(fds[1], 1);
	char buf[100] = {};
	ssize_t n = -1;
	struct reader {
		int* fds;
		int old;
		char* buf;
		ssize_t& n;
		~reader()
		{
			dup2(this->old, 1);
			close(this->fds[1]);
			this->n = read(this->fds[0], this->buf, 100);
		}
	};
	try {
		reader r{fds, old, buf, n};
		guard g;
		throw 1;
	} catch (int) {
	}
	fprintf(stderr, "%zd bytes\n", n);
	_exit(n == 8 ? 0 : 1);
}
''', 'a log call made while an exception is in flight (from a destructor), followed by a crash', 'the text is still in the buffer when the call returns')

M('C10-torn', 'C10', [('time.cpp','''	return uint32_t( //
		std::chrono::duration_cast<std::chrono::milliseconds>( //
			std::chrono::high_resolution_clock::now().time_since_epoch()
		)
			.count()
	);
''','''	const auto seconds = std::chrono::duration_cast<std::chrono::seconds>( //
		std::chrono::high_resolution_clock::now().time_since_epoch()
	);
	const auto milliseconds = std::chrono::duration_cast<std::chrono::milliseconds>( //
		std::chrono::high_resolution_clock::now().time_since_epoch()
	);
	constexpr auto ms_per_second = 1000;
	return uint32_t(seconds.count()) * ms_per_second + uint32_t(milliseconds.count() % ms_per_second);
''')], r'''
#include <cstdio>
#include <ctime>
#include <utki/time.hpp>
// a clock on which every reading takes 1 ms
long long now_ms = 1700000000000LL;
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept
{
	++now_ms;
	ts->tv_sec = now_ms / 1000;
	ts->tv_nsec = now_ms % 1000 * 1000000;
	return 0;
}
int main()
{
	for (int i = 0; i < 5000; ++i) {
		auto t0 = now_ms;
		auto a = utki::get_ticks_ms();
		auto b = utki::get_ticks_ms();
		auto most = now_ms - t0;
		if (b - a > most) {
			printf("difference %u, but at most %lld ms passed\n", b - a, most);
			return 1;
		}
	}
	return 0;
}
''', 'a reading during which the clock passes a second boundary', 'the counter jumps back by a second', flags='-std=c++17 -g -O1 -rdynamic')

M('C10-saturate', 'C10', [('time.cpp','''	return uint32_t( //
		std::chrono::duration_cast<std::chrono::milliseconds>( //
			std::chrono::high_resolution_clock::now().time_since_epoch()
		)
			.count()
	);
''','''	// count from the first call, so that the number of ticks fits 32 bits
	static const auto start = std::chrono::high_resolution_clock::now();
	return std::chrono::duration_cast<std::chrono::duration<uint32_t, std::micro>>( //
		std::chrono::high_resolution_clock::now() - start
	).count() / 1000;
''')], r'''
#include <cstdio>
#include <ctime>
#include <utki/time.hpp>
long long now_ms = 1700000000000LL;
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept
{
	ts->tv_sec = now_ms / 1000;
	ts->tv_nsec = now_ms % 1000 * 1000000;
	return 0;
}
int main()
{
	for (int i = 0; i < 20; ++i) {
		auto a = utki::get_ticks_ms();
		now_ms += 15 * 60000;
		auto b = utki::get_ticks_ms();
		if (b - a + 1 < 15 * 60000 || b - a > 15 * 60000 + 1) {
			printf("difference %u for a quarter of an hour\n", b - a);
			return 1;
		}
	}
	return 0;
}
''', 'more than 71 minutes passing since the first reading', 'the microseconds wrap around before they are turned to milliseconds, so differences are wrong', flags='-std=c++17 -g -O1 -rdynamic')

M('C11-zero', 'C11', [('debug.cpp','''	std::cerr << ss.str() << std::endl;
''','''	std::cerr << ss.str().c_str() << std::endl;
''')], r'''
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <utki/debug.hpp>
int main()
{
	int fds[2];
	if (pipe(fds))
		return 2;
	pid_t pid = fork();
	if (pid == 0) {
		dup2(fds[1], 2);
		utki::assert_always(false, [](auto& o) { o << "key: " << std::string("a\0b", 3) << " the end"; }, SL);
		_exit(0);
	}
	close(fds[1]);
	std::string s;
	char buf[100];
	for (ssize_t n; (n = read(fds[0], buf, sizeof(buf))) > 0;)
		s.append(buf, n);
	int st;
	waitpid(pid, &st, 0);
	bool ok = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && s.find("the end") != std::string::npos;
	puts(ok ? "fine" : "the message is not complete");
	return ok ? 0 : 1;
}
''', 'an assertion message with a zero character in it', 'the rest of the message is lost')

M('C11-terminal', 'C11', [('utility.cpp','''	return isatty(fileno(stderr));
''','''	// the streams of a program are either all connected to a terminal or none
	static const bool is_terminal = isatty(fileno(stdout)) && isatty(fileno(stderr));
	return is_terminal;
''')], r'''
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <utki/utility.hpp>
int main()
{
	int m = posix_openpt(O_RDWR | O_NOCTTY);
	if (m < 0 || grantpt(m) || unlockpt(m))
		return 0; // no terminals here
	int s = open(ptsname(m), O_RDWR | O_NOCTTY);
	if (s < 0 || !isatty(s))
		return 0;
	int null = open("/dev/null", O_RDWR);
	dup2(null, 1);
	dup2(s, 2);
	return utki::is_terminal_cerr() ? 0 : 1;
}
''', 'standard error on a terminal while standard output is redirected (or redirection after the first query)', 'the query reports false for a standard error that is a terminal')

M('C12-erase', 'C12', [('tree.hpp','''		while (i.iter_stack.size() > 1 && i.iter_stack.back() == i.list_stack.back()->end()) {
''','''		if (i.iter_stack.size() > 1 && i.iter_stack.back() == i.list_stack.back()->end()) {
''')], r'''
#include <cstdio>
#include <utki/tree.hpp>
int main()
{
	using tree = utki::tree<int>;
	tree::container_type roots = {tree(1, {tree(2, {tree(3)})}), tree(4)};
	auto t = utki::make_traversal(roots);
	auto i = t.erase(t.make_iterator({0, 0, 0}));
	auto index = i.index();
	printf("index of size %zu\n", index.size());
	return index == std::vector<size_t>{1} ? 0 : 1;
}
''', 'erasing the last child of a last child, at a depth of three or more', 'the returned iterator is past the end of a list of children instead of at the next node')

M('C12-bound', 'C12', [('tree.hpp','''			if (i >= list->size()) {
				throw std::out_of_range("given index points out of the tree");
''','''			if (i > list->size()) {
				throw std::out_of_range("given index points out of the tree");
''')], r'''
#include <cstdio>
#include <utki/tree.hpp>
int main()
{
	using tree = utki::tree<int>;
	tree::container_type roots = {tree(1, {tree(2)}), tree(4)};
	roots.reserve(10);
	auto t = utki::make_traversal(roots);
	try {
		auto i = t.make_iterator({2});
		puts("no exception");
		return 1;
	} catch (std::out_of_range&) {
	}
	return 0;
}
''', 'asking for the position one past the last child', 'it reads outside the tree instead of throwing', flags='-std=c++17 -g -O0')

M('C13-wrap', 'C13', [('deserializer.cpp','''void deserializer::skip(size_t length)
{
	if (this->size() < length) {
''','''void deserializer::skip(size_t length)
{
	const auto* skip_end = this->data.data() + length;
	if (skip_end > utki::end_pointer(this->data)) {
''')], r'''
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <utki/deserializer.hpp>
int main()
{
	std::vector<uint8_t> v(16, 7);
	for (volatile size_t n : {~size_t(0), ~size_t(0) - 7, size_t(17)}) {
		utki::deserializer d(utki::make_span(v));
		bool refused = false;
		try {
			d.skip(n);
		} catch (std::invalid_argument&) {
			refused = true;
		}
		if (!refused || d.size() != 16) {
			printf("skip(%zu) was not refused\n", size_t(n));
			_Exit(1);
		}
	}
	return 0;
}
''', 'a corrupted length close to the largest one', 'the pointer wraps around, the length is accepted, and later reads are outside the data', flags='-std=c++17 -g -O0')

M('C13-halves', 'C13', [('deserializer.cpp','''uint64_t deserializer::read_uint64_be()
{
	if (this->size() < sizeof(uint64_t)) {
		throw std::invalid_argument("deserializer::read_uint64_be(): buffer has less bytes then needed");
	}

	auto ret = utki::deserialize64be(this->data.data());
	this->data = this->data.subspan(sizeof(uint64_t));
	return ret;
''','''uint64_t deserializer::read_uint64_be()
{
	const uint64_t high = this->read_uint32_be();
	const uint64_t low = this->read_uint32_be();
	return (high << (utki::byte_bits * sizeof(uint32_t))) | low;
''')], r'''
#include <cstdio>
#include <vector>
#include <utki/deserializer.hpp>
int main()
{
	std::vector<uint8_t> v(6, 7);
	utki::deserializer d(utki::make_span(v));
	try {
		d.read_uint64_be();
		return 2;
	} catch (std::invalid_argument&) {
	}
	printf("%zu bytes left\n", d.size());
	return d.size() == 6 ? 0 : 1;
}
''', 'data torn in the second half of a 64-bit value', 'the refused read has consumed the first half')

M('C14-torn', 'C14', [('unicode.cpp','''		if (this->p == this->end) {
			this->c = 0;
			return *this;
		}

		this->c <<= 6;''','''		if (this->p > this->end) {
			this->c = 0;
			return *this;
		}

		this->c <<= 6;''')], r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utki/unicode.hpp>
int main()
{
	// a text cut in the middle of its last character, in a block of exactly its size
	std::string s("ab\xf0\x9f\x98");
	auto p = static_cast<char*>(malloc(s.size()));
	memcpy(p, s.data(), s.size());
	auto t = utki::to_utf32(std::string_view(p, s.size()));
	printf("%zu characters\n", t.size());
	return t.size() >= 2 && t[0] == 'a' && t[1] == 'b' ? 0 : 1;
}
''', 'a text cut after the third byte of a four byte character', 'it reads past the end of the text', flags='-std=c++17 -g -O1 -fsanitize=address', tail=' 2>&1 | grep ERROR; exit ${PIPESTATUS[0]}')

M('C14-table', 'C14', [('base64.cpp','''	0,    0,    0,    0,    0,    0x3E, 0,    0,    0,    0x3F, 0x34,''','''	0,    0,    0,    0,    0,    0x3E, 0x3E, 0,    0,    0x3F, 0x34,''')], r'''
#include <cstdio>
#include <stdexcept>
#include <utki/base64.hpp>
int main()
{
	for (auto s : {"ab,d", "ab.d", "ab-d", "ab d"}) {
		try {
			auto v = utki::base64_decode(s);
			if (v.size() > 1) {
				printf("%s gave %zu bytes\n", s, v.size());
				return 1;
			}
		} catch (std::invalid_argument&) {
		}
	}
	return 0;
}
''', 'a character of the text corrupted to one particular character which encodes nothing', 'bytes that the text does not encode')

M('C15-silent', 'C15', [('string.cpp','''		if (size < 0) {
			throw std::logic_error("snprintf() failed");
		}
''','''		if (size < 0) {
			break;
		}
''')], r'''
#include <clocale>
#include <cstdio>
#include <stdexcept>
#include <utki/string.hpp>
int main()
{
	// a wide character that cannot be encoded in the C locale makes vsnprintf() fail
	const wchar_t w[] = {0x20ac, 0};
	try {
		auto s = utki::make_string("text %ls", w);
		printf("silently got '%s'\n", s.c_str());
		return 1;
	} catch (std::exception& e) {
	}
	return 0;
}
''', 'a formatting call that fails', 'an empty text is returned as if it was the result')

M('C15-boundary', 'C15', [('string.cpp','''#if CFG_CPP >= 20
		if (std::cmp_greater_equal(size, buf_size)) {
#else
		if (size_t(size) >= buf_size) {
#endif
''','''#if CFG_CPP >= 20
		if (std::cmp_greater(size, buf_size)) {
#else
		if (size_t(size) > buf_size) {
#endif
''')], r'''
#include <cstdio>
#include <string>
#include <utki/string.hpp>
int main()
{
	for (int n = 1; n < 3000; ++n) {
		std::string t(n, 'x');
		if (utki::make_string("%s", t.c_str()) != t) {
			printf("wrong at length %d\n", n);
			return 1;
		}
	}
	return 0;
}
''', 'a formatted text of exactly 1024 characters', 'the last character is replaced by a zero')

M('C16-pivot', 'C16', [('sort.hpp','''	auto const pivot = *utki::sort_internal::next(first, n / 2);
	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
''','''	// no need to copy the element
	auto const& pivot = *utki::sort_internal::next(first, n / 2);
	auto const middle1 = utki::sort_internal::partition(first, last, [&](auto const& elem) {
'''),('sort.hpp','''partition(middle1, last, [=](auto''','''partition(middle1, last, [&](auto''')], r'''
#include <algorithm>
#include <cstdio>
#include <vector>
#include <utki/sort.hpp>
int main()
{
	for (unsigned seed = 1; seed < 2000; ++seed) {
		std::vector<int> v;
		unsigned x = seed;
		for (unsigned i = 0; i < 3 + seed % 20; ++i) {
			x = x * 1103515245 + 12345;
			v.push_back(int((x >> 16) % 10));
		}
		auto w = v;
		std::sort(w.begin(), w.end());
		utki::sort(v.begin(), v.end());
		if (v != w) {
			printf("not sorted, seed %u\n", seed);
			return 1;
		}
	}
	return 0;
}
''', 'a sequence whose pivot element is moved by the first partitioning (C++17)', 'the result is not sorted')

M('C16-comparer', 'C16', [('linq.hpp','''			return func(a) < func(b);
''','''			return !(func(b) < func(a));
''')], r'''
#include <cstdio>
#include <string>
#include <vector>
#include <utki/linq.hpp>
int main()
{
	std::vector<std::string> v(100, "the same key, too long for the small buffer");
	auto r = utki::linq(v).order_by([](const auto& s) -> const std::string& { return s; }).get();
	return r == v ? 0 : 1;
}
''', 'a sequence of more than 16 elements with many equal keys', 'the comparison is not a strict order: sorting runs outside the sequence', flags='-std=c++17 -g -O1 -fsanitize=address', tail=' 2>&1 | grep ERROR; exit ${PIPESTATUS[0]}')

M('C17-peek', 'C17', [('string.cpp','''	if (this->view.size() <= n) {
		std::stringstream ss;''','''	if (this->view.size() - 1 < n) {
		std::stringstream ss;''')], r'''
#include <cstdio>
#include <string_view>
#include <utki/string.hpp>
int main()
{
	char text[] = "abc";
	utki::string_parser p(std::string_view(text, 3));
	p.read_chars(3);
	try {
		p.peek_char(0);
		puts("not refused");
		return 1;
	} catch (std::invalid_argument&) {
	}
	return 0;
}
''', 'peeking for a character at an index when the text is exhausted', 'it reads outside the text instead of refusing')

M('C17-prefix', 'C17', [('string.hpp','''							c = this->peek_char(1);
							if (('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')) {
								base = to_int(integer_base::hex);
								this->read_char();
							} else {
''','''							this->read_char();
							c = this->peek_char();
							if (('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')) {
								base = to_int(integer_base::hex);
							} else {
''')], r'''
#include <cstdio>
#include <utki/string.hpp>
int main()
{
	utki::string_parser p("0xyz");
	unsigned n = p.read_number<unsigned>();
	auto rest = p.get_view();
	printf("%u and '%.*s'\n", n, int(rest.size()), rest.data());
	return n == 0 && rest == "xyz" ? 0 : 1;
}
''', "a zero followed by the letter x which does not start a hexadecimal number", 'a character that is not part of the number is consumed')
