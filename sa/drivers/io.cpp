// Instantiates the request set operations and the synchronisation primitives for analysis; never executed.
#include <stxxl/io>
#include <stxxl/bits/io/request_operations.h>
#include <stxxl/bits/common/onoff_switch.h>
#include <stxxl/bits/common/semaphore.h>
#include <stxxl/bits/common/state.h>
#include <stxxl/bits/common/counting_ptr.h>

template class stxxl::state<int>;
namespace stxxl {
template void wait_all<request_ptr*>(request_ptr*, request_ptr*);
template std::iterator_traits<request_ptr*>::difference_type cancel_all<request_ptr*>(request_ptr*, request_ptr*);
template request_ptr* poll_any<request_ptr*>(request_ptr*, request_ptr*);
template request_ptr* wait_any<request_ptr*>(request_ptr*, request_ptr*);
}
namespace drv {
void waits(stxxl::request_ptr* a, size_t n)
{
    size_t i;
    stxxl::wait_all(a, n);
    stxxl::poll_any(a, n, i);
    stxxl::wait_any(a, n);
}
void prims(stxxl::onoff_switch& s, stxxl::semaphore& m)
{
    s.on(); s.off(); s.wait_for_on(); s.wait_for_off(); s.is_on();
    m++; m--; m.decrement();
}
}
