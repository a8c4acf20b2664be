// Instantiates the position and wide-integer types and the comparisons of vectors; never executed.
#include <stxxl/vector>
#include <stxxl/bits/common/uint_types.h>

typedef stxxl::vector<unsigned, 2, stxxl::lru_pager<2>, 8> v2;      // two blocks of two elements per page
typedef stxxl::vector<unsigned, 1, stxxl::lru_pager<2>, 8> v1;      // one block per page

template class stxxl::uint_pair<stxxl::uint8>;
template class stxxl::uint_pair<stxxl::uint16>;
template class stxxl::double_blocked_index<stxxl::uint64, 2, 2>;
template class stxxl::double_blocked_index<stxxl::uint64, 3, 2>;
template class stxxl::double_blocked_index<stxxl::uint64, 2, 1>;
template class stxxl::vector_iterator<unsigned, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 8, stxxl::lru_pager<2>, 2>;
template class stxxl::const_vector_iterator<unsigned, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 8, stxxl::lru_pager<2>, 2>;
template class stxxl::vector_iterator<unsigned, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 8, stxxl::lru_pager<2>, 1>;
template class stxxl::const_vector_iterator<unsigned, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 8, stxxl::lru_pager<2>, 1>;

namespace drv {
typedef std::numeric_limits<stxxl::uint40> l40;
typedef std::numeric_limits<stxxl::uint48> l48;
void uses(v2& a, v2& b, const v2& c)
{
    a == b; a != b; a < b; a > b; a <= b; a >= b;
    a.begin(); a.end(); c.begin(); c.end(); a.cbegin(); a.cend(); a.size(); a.empty();
    a[0]; c[0]; a.at(0); c.at(0); a.front(); c.front(); a.back(); c.back();
    l40::min(); l40::max(); l40::lowest(); l48::min(); l48::max(); l48::lowest();
    std::swap(a, b);
}
}
