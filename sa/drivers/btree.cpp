// Instantiates the B+-tree with at most four values per leaf and four children per node; never executed.
#include <stxxl/map>

namespace drv {
struct key {
    unsigned k;
    char pad[788];
    key() : k(0) { }
    explicit key(unsigned x) : k(x) { }
};
inline bool operator == (const key& a, const key& b) { return a.k == b.k; }
inline bool operator != (const key& a, const key& b) { return a.k != b.k; }
inline bool operator < (const key& a, const key& b) { return a.k < b.k; }
inline std::ostream& operator << (std::ostream& o, const key& a) { return o << a.k; }
// Larger numbers come first.
struct cmp {
    bool operator () (const key& a, const key& b) const { return a.k > b.k; }
    static key max_value() { return key(0); }
};
}
typedef stxxl::btree::btree<drv::key, unsigned, drv::cmp, 4096, 4096, stxxl::SR> bt_t;
static_assert(bt_t::max_leaf_size == 4 && bt_t::min_leaf_size == 2 && bt_t::max_node_size == 4 && bt_t::min_node_size == 2, "sizes");

namespace drv {
typedef std::pair<drv::key, unsigned> kv;
void use_bt(bt_t& m, bt_t& o, const bt_t& c, const kv* v, const kv* w, const std::pair<const drv::key, unsigned>& x)
{
    m.insert(x);
    m.insert(m.begin(), x);
    m.insert(v, w);
    m.erase(m.begin());
    m.erase(x.first);
    m.clear();
    m.find(x.first);
    c.find(x.first);
    m.count(x.first);
    m.lower_bound(x.first);
    c.lower_bound(x.first);
    m.upper_bound(x.first);
    c.upper_bound(x.first);
    m.equal_range(x.first);
    c.equal_range(x.first);
    m[x.first] = 2;
    bt_t::iterator i = m.begin(), e = m.end();
    bt_t::const_iterator ci = c.begin(), ce = c.end();
    ++i;
    ++ci;
    i++;
    ci++;
    --i;
    --ci;
    i--;
    ci--;
    (*i).second = (*ci).second;
    i->second = ci->second;
    if (i != e && ci != ce && m.size() && m.empty() && c.empty()) m.enable_prefetching();
    if (i == e && ci == ce && ci == e) m.disable_prefetching();
    ci = i;
    ce = ci;
    bt_t::iterator j(i);
    j = i;
    bt_t::iterator none;
    bt_t::const_iterator cnone;
    none = j;
    cnone = none;
    m.swap(o);
    bt_t a(v, w, 65536, 65536, true);
    bt_t a2(v, w, drv::cmp(), 65536, 65536, true);
    bt_t b(65536, 65536);
    bt_t b2(drv::cmp(), 65536, 65536);
    if (m == o || m < o) m.prefetching_enabled();
}
}
