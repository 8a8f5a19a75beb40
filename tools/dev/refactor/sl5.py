import sys
f=sys.argv[1]+"/src/utki/spin_lock.hpp"
s=open(f).read()
def w(a,b):
    global s
    assert a in s
    s=s.replace(a,b)
w('''		while (this->flag.test_and_set(std::memory_order_acquire)) {
		}''','''		while (this->flag.test_and_set(std::memory_order_relaxed)) {
		}
		std::atomic_thread_fence(std::memory_order_acquire);''')
w('''		this->flag.clear(std::memory_order_release)''','''		std::atomic_thread_fence(std::memory_order_release);
		this->flag.clear(std::memory_order_relaxed)''')
open(f,'w').write(s)
