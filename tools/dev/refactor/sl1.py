import sys
f=sys.argv[1]+"/src/utki/spin_lock.hpp"
s=open(f).read()
def w(a,b):
    global s
    assert a in s
    s=s.replace(a,b)
w('''std::memory_order_acquire)) {
		}''','''std::memory_order_acquire)) {
			std::this_thread::yield();
		}''')
w('#include <atomic>','#include <atomic>\n#include <thread>')
open(f,'w').write(s)
