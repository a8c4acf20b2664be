// Instantiates the parts of the priority queues that stand on their own; never executed.
#include <stxxl/priority_queue>
#include <stxxl/bits/containers/parallel_priority_queue.h>
#include <stxxl/bits/common/simple_vector.h>
#include <stxxl/bits/common/swap_vector.h>
#include <stxxl/bits/common/counting_ptr.h>
#include <stxxl/bits/mng/block_prefetcher.h>
#include <stxxl/bits/algo/losertree.h>
#include <stxxl/bits/algo/run_cursor.h>
#include <stxxl/bits/algo/sort_helper.h>
#include <stxxl/bits/stream/sorted_runs.h>
#include <stxxl/bits/containers/pager.h>

namespace drv {
struct less_t { typedef unsigned first_argument_type; bool operator () (unsigned a, unsigned b) const { return a < b; } unsigned min_value() const { return 0; } unsigned max_value() const { return ~0u; } };
struct obj_t : public stxxl::atomic_counted_object { int x; };
}
template class stxxl::ppq_local::internal_array<unsigned>;
template class stxxl::ppq_local::external_array<unsigned, 8>;
template class stxxl::simple_vector<unsigned>;
template class stxxl::swap_vector<unsigned>;
template class stxxl::counting_ptr<drv::obj_t>;
template class stxxl::const_counting_ptr<drv::obj_t>;
template class stxxl::lru_pager<3>;
typedef stxxl::typed_block<8, unsigned> blk_t;
template struct stxxl::stream::sorted_runs<stxxl::sort_helper::trigger_entry<stxxl::typed_block<8, unsigned> >, drv::less_t>;

typedef stxxl::typed_block<8, unsigned> tblk_t;
typedef stxxl::sort_helper::trigger_entry<tblk_t> trg_t;
typedef stxxl::block_prefetcher<tblk_t, std::vector<trg_t>::iterator> pref_t;
typedef stxxl::run_cursor2<tblk_t, pref_t> cur_t;
typedef stxxl::sort_helper::run_cursor2_cmp<tblk_t, pref_t, drv::less_t> ccmp_t;
template class stxxl::loser_tree<cur_t, ccmp_t>;
namespace drv {
void lt(stxxl::loser_tree<cur_t, ccmp_t>& a, stxxl::counting_ptr<obj_t>& c, stxxl::write_pool<tblk_t>& w, stxxl::prefetch_pool<tblk_t>& p, stxxl::read_write_pool<tblk_t>& r, stxxl::swap_vector<unsigned>& v)
{ std::swap(a, a); std::swap(w, w); std::swap(p, p); std::swap(r, r); std::swap(v, v); swap(c, c); }
}
