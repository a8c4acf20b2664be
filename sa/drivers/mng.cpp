// Instantiates the block management layer for analysis; never executed.
#include <stxxl/mng>
#include <stxxl/io>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/buf_istream_reverse.h>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_writer.h>
#include <stxxl/bits/mng/block_prefetcher.h>
#include <stxxl/bits/mng/block_scheduler.h>
#include <stxxl/bits/mng/block_alloc_interleaved.h>
#include <stxxl/bits/mng/read_write_pool.h>

namespace drv {
struct rec { unsigned long key; unsigned int value; unsigned long extra; };
}
typedef stxxl::typed_block<4096, drv::rec> blk_t;
template class stxxl::typed_block<4096, drv::rec>;
template struct stxxl::BID<4096>;
template class stxxl::BIDArray<4096>;
typedef std::vector<blk_t::bid_type> bidvec_t;
template class stxxl::write_pool<blk_t>;
template class stxxl::prefetch_pool<blk_t>;
template class stxxl::read_write_pool<blk_t>;
template class stxxl::buffered_writer<blk_t>;
template class stxxl::block_prefetcher<blk_t, bidvec_t::iterator>;
template class stxxl::buf_istream<blk_t, bidvec_t::iterator>;
template class stxxl::buf_istream_reverse<blk_t, bidvec_t::iterator>;
template class stxxl::buf_ostream<blk_t, bidvec_t::iterator>;

namespace drv {
template <class Strategy>
void blocks(const Strategy& s, bidvec_t& v, stxxl::BIDArray<4096>& a)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    bm->new_blocks(s, v.begin(), v.end(), 0);
    bm->new_block(s, v[0], 3);
    bm->new_blocks(s, a.begin(), a.end(), 1);
    bm->delete_blocks(v.begin(), v.end());
    bm->delete_block(v[0]);
}
void all_blocks(bidvec_t& v, stxxl::BIDArray<4096>& a)
{
    blocks(stxxl::striping(), v, a);
    blocks(stxxl::FR(), v, a);
    blocks(stxxl::SR(), v, a);
    blocks(stxxl::RC(), v, a);
    blocks(stxxl::RC_disk(), v, a);
    blocks(stxxl::RC_flash(), v, a);
    blocks(stxxl::single_disk(), v, a);
    stxxl::interleaved_striping is(2, stxxl::striping());
    stxxl::interleaved_FR ifr(2, stxxl::FR());
    stxxl::interleaved_SR isr(2, stxxl::SR());
    stxxl::interleaved_RC irc(2, stxxl::RC());
    stxxl::first_disk_only fdo(2, stxxl::single_disk());
    blocks(is, v, a);
    blocks(ifr, v, a);
    blocks(isr, v, a);
    blocks(irc, v, a);
    blocks(fdo, v, a);
    stxxl::offset_allocator<stxxl::striping> oa(1, stxxl::striping());
    blocks(oa, v, a);
}
}
namespace drv {
template <class S>
void assign_seq(unsigned long b, unsigned long e, unsigned long first, unsigned long n, unsigned long* out)
{
    S s(b, e);
    for (unsigned long i = 0; i < n; ++i) out[i] = s(first + i);
}
template <class I, class S>
void assign_runs(long runs, unsigned long b, unsigned long e, unsigned long first, unsigned long n, unsigned long* out)
{
    S s(b, e);
    I is(runs, s);
    for (unsigned long i = 0; i < n; ++i) out[i] = is(first + i);
}
template <class S>
void assign_default(unsigned long first, unsigned long n, unsigned long* out)
{
    S s;
    for (unsigned long i = 0; i < n; ++i) out[i] = s(first + i);
}
template <class S>
void assign_offset(long off, unsigned long b, unsigned long e, unsigned long first, unsigned long n, unsigned long* out, unsigned long* ref)
{
    S s(b, e);
    stxxl::offset_allocator<S> o(off, s);
    for (unsigned long i = 0; i < n; ++i) { out[i] = o(first + i); ref[i] = s(off + first + i); }
}
template <class S, class I>
void assign_all()
{
    unsigned long x[8];
    assign_seq<S>(0, 2, 0, 8, x);
    assign_runs<I, S>(2, 0, 2, 0, 8, x);
    assign_default<S>(0, 8, x);
    assign_offset<S>(1, 0, 2, 0, 8, x, x);
}
void assign_every()
{
    assign_all<stxxl::striping, stxxl::interleaved_alloc_traits<stxxl::striping>::strategy>();
    assign_all<stxxl::FR, stxxl::interleaved_alloc_traits<stxxl::FR>::strategy>();
    assign_all<stxxl::SR, stxxl::interleaved_alloc_traits<stxxl::SR>::strategy>();
    assign_all<stxxl::RC, stxxl::interleaved_alloc_traits<stxxl::RC>::strategy>();
    assign_all<stxxl::RC_disk, stxxl::interleaved_alloc_traits<stxxl::RC_disk>::strategy>();
    assign_all<stxxl::RC_flash, stxxl::interleaved_alloc_traits<stxxl::RC_flash>::strategy>();
    assign_all<stxxl::single_disk, stxxl::interleaved_alloc_traits<stxxl::single_disk>::strategy>();
}
}
