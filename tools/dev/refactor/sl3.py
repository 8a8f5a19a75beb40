import sys
f=sys.argv[1]+"/src/utki/spin_lock.hpp"
s=open(f).read()
def w(a,b):
    global s
    assert a in s
    s=s.replace(a,b)
w('''std::memory_order_acquire)) {
		}''','''std::memory_order_acquire)) {
#if __cplusplus >= 202002L
			while (this->flag.test(std::memory_order_relaxed)) {
				__builtin_ia32_pause();
			}
#else
			__builtin_ia32_pause();
#endif
		}''')
open(f,'w').write(s)
