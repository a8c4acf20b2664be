// Instantiates the containers for analysis; never executed.
#include <ostream>
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/deque>
#include <stxxl/sequence>
#include <stxxl/sorter>

namespace drv {
struct rec { unsigned long key; unsigned int value; unsigned long extra; };
inline std::ostream& operator << (std::ostream& o, const rec&) { return o; }
struct cmp {
    bool operator () (const rec& a, const rec& b) const { return a.key < b.key; }
    rec min_value() const { rec r; r.key = 0; r.value = 0; return r; }
    rec max_value() const { rec r; r.key = ~0UL; r.value = 0; return r; }
};
}
typedef stxxl::VECTOR_GENERATOR<drv::rec, 4, 8, 4096>::result vec_t;
template class stxxl::vector<drv::rec, 4, stxxl::lru_pager<8>, 4096>;
template class stxxl::vector<unsigned, 2, stxxl::lru_pager<2>, 4096>;       // small pages, for the cache rules
template class stxxl::vector_iterator<drv::rec, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 4096, stxxl::lru_pager<8>, 4>;
template class stxxl::const_vector_iterator<drv::rec, STXXL_DEFAULT_ALLOC_STRATEGY, stxxl::uint64, stxxl::int64, 4096, stxxl::lru_pager<8>, 4>;
template class stxxl::vector_bufwriter<vec_t::iterator>;
template class stxxl::random_pager<8>;
template class stxxl::lru_pager<8>;
typedef stxxl::stack_config_generator<drv::rec, 4, 4096> scfg;
template class stxxl::normal_stack<scfg>;
template class stxxl::grow_shrink_stack<scfg>;
template class stxxl::grow_shrink_stack2<scfg>;
template class stxxl::queue<drv::rec, 4096>;
template class stxxl::deque<drv::rec>;
template class stxxl::sequence<drv::rec, 4096>;
template class stxxl::sorter<drv::rec, drv::cmp, 4096>;
namespace drv {
void use(vec_t& v, const vec_t& cv)
{
    v.push_back(rec());
    v.resize(5); v.resize(4, true); v.swap(v);
    vec_t w(cv);
    w = cv;
    typedef stxxl::vector<rec, 4, stxxl::random_pager<8>, 4096> vr_t;
    vr_t r;
    r.push_back(rec());
    stxxl::vector_bufreader_reverse<vec_t::iterator> rr(v.begin(), v.end());
    rr.rewind();
    *rr; ++rr; rr.empty(); rr.size();
    stxxl::vector_bufreader_reverse<vec_t::const_iterator> cr(cv.begin(), cv.end());
    *cr; ++cr;
    rec x;
    rr >> x;
    stxxl::vector_bufreader<vec_t::iterator> fr(v.begin(), v.end());
    fr.rewind();
    *fr; ++fr; fr.empty(); fr.size(); fr >> x;
    fr.begin(); fr.end();
    stxxl::vector_bufreader<vec_t::const_iterator> cfr(cv);
    *cfr; ++cfr; cfr >> x;
}
}
