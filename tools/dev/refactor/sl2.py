import sys
f=sys.argv[1]+"/src/utki/spin_lock.hpp"
s=open(f).read()
def w(a,b):
    global s
    assert a in s
    s=s.replace(a,b)
w('''std::memory_order_acquire)) {
		}''','''std::memory_order_acquire)) {
#if __cplusplus >= 202002L
			this->flag.wait(true, std::memory_order_relaxed);
#else
			__builtin_ia32_pause();
#endif
		}''')
w('''release);
''','''release);
#if __cplusplus >= 202002L
		this->flag.notify_one();
#endif
''')
open(f,'w').write(s)
