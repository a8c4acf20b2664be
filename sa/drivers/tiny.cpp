// Instantiates sequence containers with blocks of very few elements for analysis; never executed.
#include <ostream>
#include <stack>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/deque>
#include <stxxl/sequence>

typedef stxxl::stack_config_generator<unsigned, 2, 8> scfg;          // 2 elements per block, 2 blocks per page
typedef stxxl::stack_config_generator<unsigned, 1, 12> scfg1;        // 3 elements per block
template class stxxl::normal_stack<scfg>;
template class stxxl::grow_shrink_stack<scfg>;
template class stxxl::grow_shrink_stack2<scfg1>;
typedef stxxl::normal_stack<scfg> nstack_t;
typedef stxxl::migrating_stack<4, nstack_t, std::stack<unsigned> > mstack_t;
template class stxxl::queue<unsigned, 12>;
template class stxxl::sequence<unsigned, 12>;
template class stxxl::deque<unsigned>;
namespace drv {
void use(nstack_t& a, std::stack<unsigned>& s, stxxl::deque<unsigned>& d, const stxxl::deque<unsigned>& cd, mstack_t& m, stxxl::sequence<unsigned, 12>& q)
{
    nstack_t b(s);
    std::swap(d, d); std::swap(m, m); std::swap(b, b);
    stxxl::grow_shrink_stack<scfg> c(s);
    m.push(1); m.pop(); m.top(); m.size(); m.empty(); m.internal(); m.external(); m.swap(m); mstack_t mm;
    d == d; d < d;
    d.begin() - d.end(); *d.begin(); cd.begin() - cd.end(); *cd.begin();
    stxxl::deque<unsigned>::iterator i = d.begin();
    stxxl::deque<unsigned>::const_iterator ci = cd.begin();
    i += 1; i -= 1; ++i; --i; i++; i--; i + 1; i - 1; i[1]; i == i; i != i; i < i; i > i; i <= i; i >= i;
    ci += 1; ci -= 1; ++ci; --ci; ci++; ci--; ci + 1; ci - 1; ci[1]; ci == ci; ci != ci; ci < ci; ci > ci; ci <= ci; ci >= ci;
    stxxl::sequence<unsigned, 12>::stream st = q.get_stream();
    *st; ++st; st.empty(); st.size();
    stxxl::sequence<unsigned, 12>::reverse_stream rs = q.get_reverse_stream();
    *rs; ++rs; rs.empty(); rs.size();
}
}
