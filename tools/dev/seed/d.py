import sys; sys.path.insert(0,'/tmp/seed')
from mk import make
only = sys.argv[1:]
def M(id, *a, **k):
    if not only or id in only: make(id, *a, **k)

M('C21-assembled', 'C21', [('span.hpp','''	for (auto& e : buf) {
		s << e;
	}
	return s;''','''	// write all the elements at once
	std::ostringstream ss;
	ss.copyfmt(s);
	ss.exceptions(std::ios_base::goodbit);
	for (auto& e : buf) {
		ss << e;
	}
	return s << ss.str();'''), ('span.hpp','#include <ostream>\n','#include <ostream>\n#include <sstream>\n')], '''
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <new>
#include <sstream>
#include <streambuf>
#include <utki/span.hpp>
static bool starved = false;
void* operator new(size_t n)
{
	if (starved && n > 1000)
		throw std::bad_alloc();
	if (void* p = malloc(n))
		return p;
	throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
struct device : std::streambuf {
	size_t n = 0;
	int_type overflow(int_type c) override { ++n; return c; }
};
int main()
{
	std::string text(4000, 'x');
	utki::span<const char> s(text.data(), text.size());
	device d;
	std::ostream o(&d);
	bool threw = false;
	starved = true;
	try {
		o << s;
	} catch (std::bad_alloc&) {
		threw = true;
	}
	starved = false;
	if (!threw && o.good() && d.n != text.size()) {
		printf("%zu of %zu characters were written and nothing shows it\\n", d.n, text.size());
		return 1;
	}
	return 0;
}
''', 'memory running out while a span is written to a stream', 'a cut text is written and the stream stays good')

M('C21-retry', 'C21', [('span.hpp','''	for (auto& e : buf) {
		s << e;
	}
	return s;''','''	for (auto& e : buf) {
		s << e;
		if (s.fail() && !s.bad()) {
			// formatting of one element failed, go on with the others
			s.clear(s.rdstate() & ~std::ios_base::failbit);
		}
	}
	return s;''')], '''
#include <cstdio>
#include <ostream>
#include <sstream>
#include <vector>
#include <utki/span.hpp>
struct temperature {
	int v;
	friend std::ostream& operator<<(std::ostream& o, const temperature& t)
	{
		if (t.v < -273) {
			o.setstate(std::ios_base::failbit); // not representable
			return o;
		}
		return o << t.v << ' ';
	}
};
int main()
{
	const std::vector<temperature> v = {{1}, {-300}, {2}};
	std::ostringstream o;
	o << utki::make_span(v);
	if (o.good() || o.str() != "1 ") {
		printf("'%s' was written, stream is %s\\n", o.str().c_str(), o.good() ? "good" : "failed");
		return 1;
	}
	return 0;
}
''', 'an element whose output operator reports a failure by the failbit, in the middle of a span', 'the failure is cleared and the element is skipped silently')

M('C09-nested', 'C09', [('log.cpp','	print(std::cout);\n','''	// nested calls leave flushing to the outermost one
	thread_local unsigned depth = 0;
	++depth;
	try {
		print(std::cout);
	} catch (...) {
		--depth;
		throw;
	}
	if (--depth != 0) {
		return;
	}
''')], '''
#include <cstdio>
#include <iostream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <utki/log.hpp>
int main()
{
	int p[2];
	if (pipe(p))
		return 2;
	pid_t c = fork();
	if (c == 0) {
		dup2(p[1], 1);
		utki::log([](auto&) {
			utki::log([](auto& o) { o << "before the crash"; });
			_exit(0); // crash
		});
		_exit(0);
	}
	close(p[1]);
	std::string s;
	char b[100];
	ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0)
		s.append(b, size_t(n));
	waitpid(c, nullptr, 0);
	if (s != "before the crash") {
		fprintf(stderr, "the text of a log call that had returned is lost\\n");
		return 1;
	}
	return 0;
}
''', 'a log call made from the printing callback of another one, and a crash before the outer call ends', 'the text of the inner call, which has returned, is lost')

M('C11-long-file', 'C11', [('debug.cpp','(file_name ? file_name : "unknown")','std::string_view(file_name ? file_name : "unknown").substr(0, 100)')], '''
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
#include <utki/debug.hpp>
static char name[300];
int main()
{
	for (size_t i = 0; i != sizeof(name) - 1; ++i)
		name[i] = i % 50 == 49 ? '/' : 'a' + char(i % 26);
	int p[2];
	if (pipe(p))
		return 2;
	pid_t c = fork();
	if (c == 0) {
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		dup2(p[1], 2);
		utki::assert_always(false, [](auto& o) { o << "message"; }, utki::source_location(7, 0, name));
		_exit(0);
	}
	close(p[1]);
	std::string s;
	char b[1000];
	ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0)
		s.append(b, size_t(n));
	waitpid(c, nullptr, 0);
	if (s.find(name) == std::string::npos) {
		fprintf(stderr, "the report does not have the location\\n");
		return 1;
	}
	return 0;
}
''', 'an assertion in a file whose path is longer than 100 characters', 'the report names another location')

M('C16-ordered', 'C16', [('sort.hpp','	while (utki::sort_internal::distance(first, last) > 1) {','''	while (utki::sort_internal::distance(first, last) > 1) {
		// sequences which are already sorted need no work
		{
			bool sorted = true;
			for (auto i = first; i + 2 < last && sorted; ++i) {
				sorted = !cmp(i[1], *i);
			}
			if (sorted && !cmp(*(last - 1), *first) && utki::sort_internal::distance(first, last) > 2) {
				return;
			}
		}
''')], '''
#include <cstdio>
#include <vector>
#include <algorithm>
#include <utki/sort.hpp>
int main()
{
	for (int n = 3; n < 200; ++n) {
		std::vector<int> v;
		for (int i = 0; i < n; ++i)
			v.push_back(2 * i);
		v.back() = 3; // appended to an ordered sequence
		utki::sort(v.begin(), v.end(), [](int a, int b) { return a < b; });
		if (!std::is_sorted(v.begin(), v.end())) {
			printf("%d elements were not sorted\\n", n);
			return 1;
		}
	}
	return 0;
}
''', 'an ordered sequence to which one element was appended that belongs elsewhere (C++17)', 'the sequence is left unsorted')
