// Instantiates the external map and hash map for analysis; never executed.
#include <stxxl/map>
#include <stxxl/unordered_map>

namespace drv {
struct key { unsigned k; char pad[700]; };
inline bool operator == (const key& a, const key& b) { return a.k == b.k; }
inline bool operator != (const key& a, const key& b) { return a.k != b.k; }
inline std::ostream& operator << (std::ostream& o, const key& a) { return o << a.k; }
struct cmp {
    bool operator () (const key& a, const key& b) const { return a.k < b.k; }
    static key max_value() { key m; m.k = 0xffffffffu; return m; }
};
struct hash {
    size_t operator () (unsigned k) const { return k; }
};
struct hcmp {
    bool operator () (unsigned a, unsigned b) const { return a < b; }
    static unsigned min_value() { return 0; }
    static unsigned max_value() { return 0xffffffffu; }
};
}
typedef stxxl::map<drv::key, unsigned, drv::cmp, 4096, 4096> map_t;
typedef stxxl::btree::btree<drv::key, unsigned, drv::cmp, 4096, 4096, stxxl::SR> btree_t;
template class stxxl::map<drv::key, unsigned, drv::cmp, 4096, 4096>;
template class stxxl::btree::btree<drv::key, unsigned, drv::cmp, 4096, 4096, stxxl::SR>;
template class stxxl::btree::normal_leaf<drv::key, unsigned, drv::cmp, 4096, btree_t>;
template class stxxl::btree::normal_node<drv::key, drv::cmp, 4096, btree_t>;
typedef stxxl::btree::normal_leaf<drv::key, unsigned, drv::cmp, 4096, btree_t> leaf_t;
typedef stxxl::btree::normal_node<drv::key, drv::cmp, 4096, btree_t> node_t;
template class stxxl::btree::node_cache<leaf_t, btree_t>;
template class stxxl::btree::node_cache<node_t, btree_t>;
template class stxxl::btree::iterator_map<btree_t>;
template class stxxl::btree::btree_iterator<btree_t>;
template class stxxl::btree::btree_const_iterator<btree_t>;

typedef stxxl::unordered_map<unsigned, unsigned, drv::hash, drv::hcmp, 4096, 2> hmap_t;
typedef stxxl::hash_map::hash_map<unsigned, unsigned, drv::hash, drv::hcmp, 4096, 2> hash_map_t;
template class stxxl::hash_map::block_cache<hash_map_t::block_type>;
template class stxxl::hash_map::block_cache_write_buffer<hash_map_t::block_type>;
typedef stxxl::hash_map::buffered_reader<stxxl::hash_map::block_cache<hash_map_t::block_type>, hash_map_t::bid_container_type::iterator> hreader_t;
template class stxxl::hash_map::buffered_reader<stxxl::hash_map::block_cache<hash_map_t::block_type>, hash_map_t::bid_container_type::iterator>;
template class stxxl::hash_map::buffered_writer<hash_map_t::block_type, hash_map_t::bid_container_type>;
template class stxxl::hash_map::hash_map_iterator<hash_map_t>;
template class stxxl::hash_map::hash_map_const_iterator<hash_map_t>;

namespace drv {
void use_hash(hmap_t& m, hmap_t& o, const hmap_t& c, std::vector<std::pair<unsigned, unsigned> >& v)
{
    m.insert(v[0]);
    m.insert_oblivious(v[0]);
    m.insert(v.begin(), v.end(), 1000000);
    m.erase(m.begin());
    m.erase(1u);
    m.erase_oblivious(1u);
    m.clear();
    m.swap(o);
    m.find(1u);
    c.find(1u);
    c.count(1u);
    m.equal_range(1u);
    c.equal_range(1u);
    m[1u] = 2;
    m.rehash(100);
    hmap_t::iterator i = m.begin(), e = m.end();
    hmap_t::const_iterator ci = c.begin(), ce = c.end();
    ++i;
    ++ci;
    (*i).second = (*ci).second;
    if (i != e && ci != ce && m.size() && m.empty()) m.max_buffer_size(100);
    ci = i;
    ce = ci;
    hmap_t::iterator j(i);
    j = i;
    std::swap(m, o);
    m.load_factor();
    m.opt_load_factor(0.5f);
    m.buffer_size();
    m.bucket_count();
    m.bucket(1u);
}
}
