import sys
f=sys.argv[1]+"/src/utki/spin_lock.hpp"
s=open(f).read()
def w(a,b):
    global s
    assert a in s
    s=s.replace(a,b)
w('std::atomic_flag flag = ATOMIC_FLAG_INIT;','std::atomic<unsigned> state{0};')
w('''		while (this->flag.test_and_set(std::memory_order_acquire)) {
		}''','''		unsigned expected = 0;
		while (!this->state.compare_exchange_weak(expected, 1, std::memory_order_acquire, std::memory_order_relaxed)) {
			expected = 0;
		}''')
w('this->flag.clear(std::memory_order_release)','this->state.store(0, std::memory_order_release)')
open(f,'w').write(s)
