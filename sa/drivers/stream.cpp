// Instantiates the stream nodes, the scanning algorithms and the buffered readers and writers of vectors with blocks of two elements; never executed.
#include <stxxl/vector>
#include <stxxl/stream>
#include <stxxl/scan>
#include <stxxl/bits/stream/choose.h>
#include <stxxl/bits/stream/unique.h>

typedef stxxl::vector<unsigned, 2, stxxl::lru_pager<2>, 8> v2;      // two blocks per page
typedef stxxl::vector<unsigned, 1, stxxl::lru_pager<2>, 8> v1;      // one block per page

namespace drv {
// A stream of numbers; modelled.
template <int N>
struct in {
    typedef unsigned value_type;
    int pad;
    const unsigned& operator * () const;
    const unsigned* operator -> () const;
    in& operator ++ ();
    bool empty() const;
};
// A stream of tuples; modelled.
template <class T>
struct tin {
    typedef T value_type;
    int pad;
    const T& operator * () const;
    const T* operator -> () const;
    tin& operator ++ ();
    bool empty() const;
};
struct op {
    typedef unsigned value_type;
    unsigned operator () (unsigned);
    unsigned operator () (unsigned, unsigned);
    unsigned operator () (unsigned, unsigned, unsigned);
    unsigned operator () (unsigned, unsigned, unsigned, unsigned);
    unsigned operator () (unsigned, unsigned, unsigned, unsigned, unsigned);
    unsigned operator () (unsigned, unsigned, unsigned, unsigned, unsigned, unsigned);
};
struct fun { int pad; void operator () (unsigned&); };
struct gen { typedef unsigned value_type; int pad; unsigned operator () (); };
struct same { int pad; bool operator () (unsigned a, unsigned b) const; };

namespace st = stxxl::stream;
typedef stxxl::tuple<unsigned, unsigned> t2;
typedef stxxl::tuple<unsigned, unsigned, unsigned> t3;
typedef stxxl::tuple<unsigned, unsigned, unsigned, unsigned> t4;
typedef stxxl::tuple<unsigned, unsigned, unsigned, unsigned, unsigned> t5;
typedef stxxl::tuple<unsigned, unsigned, unsigned, unsigned, unsigned, unsigned> t6;
}
template class stxxl::stream::transform<drv::op, drv::in<1> >;
template class stxxl::stream::transform<drv::op, drv::in<1>, drv::in<2> >;
template class stxxl::stream::transform<drv::op, drv::in<1>, drv::in<2>, drv::in<3> >;
template class stxxl::stream::transform<drv::op, drv::in<1>, drv::in<2>, drv::in<3>, drv::in<4> >;
template class stxxl::stream::transform<drv::op, drv::in<1>, drv::in<2>, drv::in<3>, drv::in<4>, drv::in<5> >;
template class stxxl::stream::transform<drv::op, drv::in<1>, drv::in<2>, drv::in<3>, drv::in<4>, drv::in<5>, drv::in<5> >;
template class stxxl::stream::make_tuple<drv::in<1>, drv::in<2> >;
template class stxxl::stream::make_tuple<drv::in<1>, drv::in<2>, drv::in<3> >;
template class stxxl::stream::make_tuple<drv::in<1>, drv::in<2>, drv::in<3>, drv::in<4> >;
template class stxxl::stream::make_tuple<drv::in<1>, drv::in<2>, drv::in<3>, drv::in<4>, drv::in<5> >;
template class stxxl::stream::make_tuple<drv::in<1>, drv::in<2>, drv::in<3>, drv::in<4>, drv::in<5>, drv::in<6> >;
template class stxxl::stream::choose<drv::tin<drv::t6>, 1>;
template class stxxl::stream::choose<drv::tin<drv::t6>, 2>;
template class stxxl::stream::choose<drv::tin<drv::t6>, 3>;
template class stxxl::stream::choose<drv::tin<drv::t6>, 4>;
template class stxxl::stream::choose<drv::tin<drv::t6>, 5>;
template class stxxl::stream::choose<drv::tin<drv::t6>, 6>;
template class stxxl::stream::unique<drv::in<1> >;
template class stxxl::stream::unique<drv::in<1>, drv::same>;
template class stxxl::stream::generator2stream<drv::gen>;
template class stxxl::stream::iterator2stream<const unsigned*>;
template class stxxl::stream::vector_iterator2stream<v2::iterator>;
template class stxxl::stream::vector_iterator2stream<v2::const_iterator>;
template class stxxl::stream::vector_iterator2stream_sr<v2::iterator>;
template class stxxl::stream::vector_iterator2stream_sr<v2::const_iterator>;
template class stxxl::vector_bufreader_iterator<stxxl::vector_bufreader<v2::const_iterator> >;
template class stxxl::vector_bufreader<v2::const_iterator>;
template class stxxl::vector_bufreader_reverse<v2::const_iterator>;
template class stxxl::vector_bufwriter<v2::iterator>;
template class stxxl::vector_bufwriter<v1::iterator>;
typedef stxxl::buf_istream<v2::block_type, v2::bids_container_type::iterator> bis_t;
template class stxxl::buf_istream<v2::block_type, v2::bids_container_type::iterator>;
template class stxxl::buf_istream_reverse<v2::block_type, v2::bids_container_type::iterator>;
template class stxxl::buf_ostream<v2::block_type, v2::bids_container_type::iterator>;
template class stxxl::vector_iterator<unsigned, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 8, stxxl::lru_pager<2>, 2>;
template class stxxl::const_vector_iterator<unsigned, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 8, stxxl::lru_pager<2>, 2>;
template class stxxl::double_blocked_index<stxxl::uint64, 2, 2>;

namespace drv {
template <class V>
void use(V& v, const V& c, in<1>& i, in<2>& j, op& o, unsigned* p)
{
    stxxl::for_each(v.begin(), v.end(), fun());
    stxxl::for_each(c.begin(), c.end(), fun());
    stxxl::for_each_m(v.begin(), v.end(), fun());
    stxxl::generate(v.begin(), v.end(), gen());
    stxxl::find(v.begin(), v.end(), 1u);
    stxxl::find(c.begin(), c.end(), 1u);
    st::materialize(i, p);
    st::materialize(i, p, p);
    st::materialize(i, v.begin());
    st::materialize(i, v.begin(), v.end());
    st::discard(i);
    st::streamify(v.begin(), v.end());
    st::streamify(c.begin(), c.end());
    st::streamify(p, p);
    st::streamify_sr(v.begin(), v.end());
    st::streamify_sr(c.begin(), c.end());
    st::streamify(gen());
    unsigned x;
    stxxl::vector_bufreader<typename V::iterator> r(v.begin(), v.end());
    *r; r.operator -> (); ++r; r >> x; r.size(); r.empty(); r.rewind();
    r.begin() != r.end(); *r.begin(); ++r.begin();
    stxxl::vector_bufreader_reverse<typename V::iterator> q(v.begin(), v.end());
    *q; q.operator -> (); ++q; q >> x; q.size(); q.empty(); q.rewind();
}
void uses(v1& v, v2& w, in<1>& i, in<2>& j, op& o, unsigned* p)
{
    use(v, v, i, j, o, p);
    use(w, w, i, j, o, p);
}
}
