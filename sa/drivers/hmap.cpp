// Instantiates the hash map with two large values per subblock; never executed.
#include <stxxl/unordered_map>

namespace drv {
struct key {
    unsigned k;
    char pad[1800];
    key() : k(0) { }
    explicit key(unsigned x) : k(x) { }
};
inline bool operator == (const key& a, const key& b) { return a.k == b.k; }
inline bool operator != (const key& a, const key& b) { return a.k != b.k; }
inline std::ostream& operator << (std::ostream& o, const key& a) { return o << a.k; }
// Two keys share a hash value; larger keys have smaller hash values.
struct hash {
    size_t operator () (const key& a) const { return (size_t)(3 - ((a.k >> 1) & 3)) << 62; }
};
struct cmp {
    bool operator () (const key& a, const key& b) const { return a.k < b.k; }
    static key min_value() { return key(0); }
    static key max_value() { return key(0xffffffffu); }
};
}
typedef stxxl::hash_map::hash_map<drv::key, unsigned, drv::hash, drv::cmp, 4096, 2> hm_t;

namespace drv {
void use_hm(hm_t& m, hm_t& o, const hm_t& c, std::vector<std::pair<drv::key, unsigned> >& v)
{
    m.insert(v[0]);
    m.insert_oblivious(v[0]);
    m.insert(v.begin(), v.end(), 1000000);
    m.erase(m.begin());
    m.erase(v[0].first);
    m.erase_oblivious(v[0].first);
    m.clear();
    m.find(v[0].first);
    c.find(v[0].first);
    c.count(v[0].first);
    m.equal_range(v[0].first);
    c.equal_range(v[0].first);
    m[v[0].first] = 2;
    m.rehash(100);
    hm_t::iterator i = m.begin(), e = m.end();
    hm_t::const_iterator ci = c.begin(), ce = c.end();
    ++i;
    ++ci;
    (*i).second = (*ci).second;
    i->second = 1;
    if (i != e && ci != ce && m.size() && m.empty() && c.empty()) m.max_buffer_size(100);
    if (i == e && ci == ce && i == ce) m.opt_load_factor(0.5f);
    ci = i;
    ce = ci;
    hm_t::iterator j(i);
    j = i;
    m.bucket_count();
    m.bucket_index(v[0].first);
    hm_t a(v.begin(), v.end());
    hm_t b(4);
}
}
