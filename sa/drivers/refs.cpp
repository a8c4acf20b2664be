// Instantiates the reference-counting pointers; never executed.
#include <stxxl/bits/common/counting_ptr.h>
#include <stxxl/bits/common/external_shared_ptr.h>
#include <stxxl/bits/io/request.h>
#include <stxxl/bits/io/file.h>

namespace drv {
struct obj : public stxxl::counted_object { int value; };
struct aobj : public stxxl::atomic_counted_object { int value; };
}
template class stxxl::counting_ptr<drv::obj>;
template class stxxl::counting_ptr<drv::aobj>;
template class stxxl::const_counting_ptr<drv::obj>;
template class stxxl::const_counting_ptr<drv::aobj>;
template class stxxl::external_shared_ptr<stxxl::counting_ptr<drv::obj> >;

namespace drv {
template <class T>
void use(stxxl::counting_ptr<T>& a, stxxl::counting_ptr<T>& b, stxxl::const_counting_ptr<T>& c, stxxl::const_counting_ptr<T>& d)
{
    stxxl::swap(a, b);
    stxxl::swap(c, d);
    T x, y(x);
    x = y;
    x.inc_reference(); x.dec_reference(); x.unique(); x.get_reference_count();
}
void uses(stxxl::counting_ptr<obj>& a, stxxl::const_counting_ptr<obj>& b, stxxl::counting_ptr<aobj>& c, stxxl::const_counting_ptr<aobj>& d)
{
    use(a, a, b, b);
    use(c, c, d, d);
}
}
