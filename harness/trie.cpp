// Concrete stage for trie_map and packed_trie_map against a std::map over key strings.
#include "common.hpp"
#include <mdds/trie_map.hpp>

using hz::tape;

namespace {

struct lex
{
    template<typename K>
    bool operator()(const K& a, const K& b) const
    {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }
};

template<typename K>
std::string show(const K& s)
{
    std::string r = "\"";
    char b[16];
    for (auto c : s)
    {
        unsigned v = unsigned(std::make_unsigned_t<decltype(c)>(c));
        snprintf(b, sizeof b, v >= 32 && v < 127 ? "%c" : "\\x%02x", v);
        r += b;
    }
    return r + "\"";
}

template<typename V>
struct vals
{
    static V make(tape& t)
    {
        return V(t.i(-3, 9));
    }
    static std::string str(const V& v)
    {
        return std::to_string(v);
    }
};
template<>
struct vals<std::string>
{
    static std::string make(tape& t)
    {
        std::string s(std::size_t(t.chance(1, 8) ? t.i(0, 40) : t.i(0, 3)), char('A' + t.u(5)));
        return s;
    }
    static std::string str(const std::string& v)
    {
        return v;
    }
};
template<>
struct vals<std::vector<int>>
{
    static std::vector<int> make(tape& t)
    {
        return std::vector<int>(std::size_t(t.i(0, 3)), t.i(0, 9));
    }
    static std::string str(const std::vector<int>& v)
    {
        std::string s = "[";
        for (int i : v)
            s += std::to_string(i) + " ";
        return s + "]";
    }
};

template<typename K>
struct keys
{
    using U = typename K::value_type;
    int na, maxlen;
    std::vector<U> abc;
    keys(tape& t)
    {
        const long all[] = {'a', 'b', 0, 0xc3, 'c', 0x80, 0x7f, 0xff, 'd', 1};
        na = t.i(1, 10);
        int rot = t.i(0, 9);
        for (int i = 0; i < na; ++i)
            abc.push_back(U(sizeof(U) > 1 && (i & 3) == 3 ? all[(i + rot) % 10] * 257 : all[(i + rot) % 10]));
        maxlen = t.chance(1, 6) ? 9 : t.i(1, 4);
    }
    K make(tape& t, int extra = 0)
    {
        K s;
        for (int n = t.i(0, maxlen) + extra; n > 0; --n)
            s.push_back(abc[t.u(uint32_t(na))]);
        return s;
    }
};

// exactly sized heap copy, so that a read past the end is seen
template<typename K>
struct exact
{
    using U = typename K::value_type;
    std::unique_ptr<U[]> p;
    std::size_t n;
    exact(const K& k) : p(std::make_unique<U[]>(k.size())), n(k.size())
    {
        std::copy(k.begin(), k.end(), p.get());
    }
    operator std::basic_string_view<U>() const
    {
        return {p.get(), n};
    }
};

template<typename K, typename V>
using model = std::map<K, V, lex>;

template<typename It, typename K, typename V>
void walk(tape& t, It b, It e, const std::vector<std::pair<K, V>>& want, const char* what)
{
    using S = vals<V>;
    std::size_t n = 0;
    auto at = [&](It& i, std::size_t k) {
        HZ_CHECK((*i).first == want[k].first && (*i).second == want[k].second,
            what << ": entry " << k << " is " << show((*i).first) << "=" << S::str((*i).second) << ", expected "
                 << show(want[k].first) << "=" << S::str(want[k].second));
        HZ_CHECK(i->first == want[k].first && i->second == want[k].second, what << ": operator->");
    };
    for (It i = b; i != e; ++i, ++n)
    {
        HZ_CHECK(n < want.size(), what << ": more than " << want.size() << " entries");
        at(i, n);
    }
    HZ_CHECK(n == want.size(), what << ": " << n << " entries instead of " << want.size());
    HZ_CHECK((b == e) == want.empty(), what << ": begin and end");
    It i = e;
    for (; n > 0; --n)
    {
        HZ_CHECK(!(i == b), what << ": backwards meets begin early");
        if (t.b())
            --i;
        else
        {
            auto o = i--;
            HZ_CHECK(!(o == i), what << ": post-decrement");
        }
        at(i, n - 1);
    }
    HZ_CHECK(i == b, what << ": backwards ends at begin");
    // random walk
    if (!want.empty())
        for (int k = t.i(0, 12); k > 0; --k)
        {
            if (n < want.size() && (n == 0 || t.b()))
            {
                if (t.b())
                    ++i;
                else
                    i++;
                ++n;
            }
            else
                --i, --n;
            if (n == want.size())
                HZ_CHECK(i == e, what << ": end reached in a walk");
            else
                at(i, n);
        }
}

template<typename K, typename V>
std::vector<std::pair<K, V>> list(const model<K, V>& m, const K& pre = K())
{
    std::vector<std::pair<K, V>> r;
    for (auto& x : m)
        if (x.first.size() >= pre.size() && std::equal(pre.begin(), pre.end(), x.first.begin()))
            r.emplace_back(x.first, x.second);
    return r;
}

template<typename M, typename K, typename V>
void nodes(const M& m, const model<K, V>& want, const K& q)
{
    auto nd = m.root_node();
    K cur;
    for (std::size_t d = 0;; ++d)
    {
        auto f = list<K, V>(want, cur);
        if (d > 0)
            HZ_CHECK(nd.valid() == !f.empty(), "node " << show(cur) << " valid");
        if (!nd.valid())
            break;
        bool has = want.count(cur) != 0;
        HZ_CHECK(nd.has_value() == has, "node " << show(cur) << " has_value is " << nd.has_value());
        if (has)
            HZ_CHECK(nd.value() == want.find(cur)->second, "node " << show(cur) << " value");
        HZ_CHECK(nd.has_child() == (f.size() > (has ? 1u : 0u)), "node " << show(cur) << " has_child");
        if (d == q.size())
            break;
        nd = nd.child(q[d]);
        cur.push_back(q[d]);
    }
}

template<typename M, typename K, typename V>
void check_find(tape& t, M& m, const model<K, V>& want, keys<K>& kg, int extra)
{
    HZ_CHECK(m.size() == want.size(), "size is " << m.size() << " instead of " << want.size());
    HZ_CHECK(m.empty() == want.empty(), "empty");
    std::vector<K> qs;
    for (auto& x : want)
        qs.push_back(x.first);
    for (; extra > 0; --extra)
    {
        K k = kg.make(t);
        if (!want.empty() && t.b())
        {
            auto it = want.begin();
            std::advance(it, t.u(uint32_t(want.size())));
            k = it->first;
            if (t.b() && !k.empty())
                k.pop_back();
            else
                k.push_back(kg.make(t, 1)[0]);
        }
        qs.push_back(k);
    }
    for (auto& k : qs)
    {
        auto w = want.find(k);
        auto it = m.find(exact<K>(k));
        HZ_CHECK((it != m.end()) == (w != want.end()), "find(" << show(k) << ") found: " << (it != m.end()));
        if (w == want.end())
            continue;
        HZ_CHECK((*it).first == k && (*it).second == w->second, "find(" << show(k) << ") gives " << show((*it).first) << "=" << vals<V>::str((*it).second));
        // the iterator that find returns is in sequence
        auto wn = std::next(w);
        auto in = it;
        ++in;
        HZ_CHECK((in == m.end()) == (wn == want.end()), "after find(" << show(k) << "): ++ meets end");
        if (wn != want.end())
            HZ_CHECK((*in).first == wn->first, "after find(" << show(k) << "): ++ gives " << show((*in).first));
        if (w == want.begin())
            HZ_CHECK(it == m.begin(), "find of the first key is begin");
        else
        {
            --it;
            HZ_CHECK((*it).first == std::prev(w)->first, "after find(" << show(k) << "): -- gives " << show((*it).first));
        }
    }
    if (!qs.empty())
        nodes<M, K, V>(m, want, qs[t.u(uint32_t(qs.size()))]);
}

template<typename M, typename K, typename V>
void check_prefix(tape& t, const M& m, const model<K, V>& want, keys<K>& kg, int n)
{
    std::vector<K> qs{K()};
    for (; n > 0; --n)
    {
        K k = kg.make(t);
        if (!want.empty() && t.b())
        {
            auto it = want.begin();
            std::advance(it, t.u(uint32_t(want.size())));
            k = it->first;
            k.resize(t.u(uint32_t(k.size() + 1)));
            if (t.chance(1, 4))
                k.push_back(kg.make(t, 1)[0]);
        }
        qs.push_back(k);
    }
    for (auto& q : qs)
    {
        auto w = list<K, V>(want, q);
        auto r = m.prefix_search(exact<K>(q));
        std::string what = "prefix_search(" + show(q) + ")";
        walk(t, r.begin(), r.end(), w, what.c_str());
        auto r2 = r; // results are copyable
        walk(t, r2.begin(), r2.end(), w, (what + " (copy)").c_str());
        auto r3 = m.prefix_search(exact<K>(K()));
        r3 = r2;
        walk(t, r3.begin(), r3.end(), w, (what + " (assigned)").c_str());
        auto r4 = std::move(r3);
        walk(t, r4.begin(), r4.end(), w, (what + " (moved)").c_str());
    }
}

template<typename M, typename K, typename V>
void check_iter(tape& t, M& m, const model<K, V>& want)
{
    const M& c = m;
    auto w = list<K, V>(want);
    walk(t, c.begin(), c.end(), w, "iteration");
    walk(t, m.begin(), m.end(), w, "iteration (non-const)");
    HZ_CHECK((c.begin() == m.begin()) && (m.end() == c.end()), "const and non-const begin/end");
}

template<typename K, typename V, typename T>
void check_map(tape& t, mdds::trie_map<K, V, T>& m, const model<K, V>& want, keys<K>& kg)
{
    const auto& c = m;
    check_find<const mdds::trie_map<K, V, T>, K, V>(t, c, want, kg, 3);
    check_find<mdds::trie_map<K, V, T>, K, V>(t, m, want, kg, 1);
    check_iter<mdds::trie_map<K, V, T>, K, V>(t, m, want);
}

template<typename K, typename V, typename T>
void fill(tape& t, mdds::trie_map<K, V, T>& m, model<K, V>& w, keys<K>& kg)
{
    for (int n = t.chance(1, 8) ? t.i(0, 40) : t.i(0, 8); n > 0; --n)
    {
        K k = kg.make(t);
        V v = vals<V>::make(t);
        t.op("insert ", show(k), "=", vals<V>::str(v));
        m.insert(exact<K>(k), v);
        w[k] = v;
    }
    for (int n = t.i(0, 4); n > 0; --n)
    {
        K k = kg.make(t);
        t.op("erase ", show(k));
        bool r = m.erase(exact<K>(k));
        HZ_CHECK(r == (w.erase(k) == 1), "erase(" << show(k) << ") gave " << r);
    }
}

template<typename K, typename V, typename T = mdds::trie::default_traits>
void run_map(tape& t)
{
    using M = mdds::trie_map<K, V, T>;
    keys<K> kg(t);
    M m[2];
    model<K, V> w[2];
    for (int steps = t.i(1, 25); steps > 0; --steps)
    {
        int a = t.i(0, 1), b = 1 - a;
        int op = t.i(0, 15);
        if (op < 6)
        {
            K k = kg.make(t);
            V v = vals<V>::make(t);
            t.op(a, ".insert ", show(k), "=", vals<V>::str(v));
            if (t.b())
                m[a].insert(exact<K>(k), v);
            else
            {
                exact<K> x(k);
                m[a].insert(x.p.get(), x.n, v);
            }
            w[a][k] = v;
            t.hit();
        }
        else if (op < 10)
        {
            K k = kg.make(t);
            if (!w[a].empty() && t.chance(3, 4))
            {
                auto it = w[a].begin();
                std::advance(it, t.u(uint32_t(w[a].size())));
                k = it->first;
            }
            t.op(a, ".erase ", show(k));
            bool r = m[a].erase(exact<K>(k));
            HZ_CHECK(r == (w[a].erase(k) == 1), "erase(" << show(k) << ") gave " << r);
        }
        else if (op == 10)
        {
            t.op(a, ".clear");
            m[a].clear();
            w[a].clear();
        }
        else if (op == 11)
        {
            t.op("swap");
            m[0].swap(m[1]);
            std::swap(w[0], w[1]);
        }
        else if (op == 12)
        {
            t.op(a, " = ", b);
            if (t.b())
                m[a] = m[b];
            else
            {
                M c(m[b]);
                m[a].swap(c);
            }
            w[a] = w[b];
        }
        else if (op == 13)
        {
            t.op("move");
            M c(std::move(m[a]));
            check_map(t, c, w[a], kg);
            m[a] = std::move(c);
        }
        else if (op == 14 && !w[a].empty())
        {
            auto it = w[a].begin();
            std::advance(it, t.u(uint32_t(w[a].size())));
            V v = vals<V>::make(t);
            t.op(a, " change the value of ", show(it->first), " through an iterator");
            auto i = m[a].find(exact<K>(it->first));
            i->second = v;
            it->second = v;
        }
        else
        {
            bool e = m[0] == m[1];
            HZ_CHECK(e == (w[0] == w[1]), "operator== gave " << e);
        }
        if (t.chance(1, 3))
        {
            check_map(t, m[a], w[a], kg);
            check_map(t, m[b], w[b], kg);
        }
    }
    check_map(t, m[0], w[0], kg);
    check_map(t, m[1], w[1], kg);
    M c(m[0]);
    HZ_CHECK(c == m[0], "a copy is equal");
}

template<typename K, typename V, typename T = mdds::trie::default_traits>
void run_prefix(tape& t)
{
    keys<K> kg(t);
    mdds::trie_map<K, V, T> m;
    model<K, V> w;
    for (int r = t.i(1, 2); r > 0; --r)
    {
        fill(t, m, w, kg);
        check_prefix<decltype(m), K, V>(t, m, w, kg, 4);
        t.hit();
    }
    using P = mdds::packed_trie_map<K, V, T>;
    const P p(m);
    check_prefix<P, K, V>(t, p, w, kg, 4);
}

template<typename P, typename K, typename V>
void check_packed(tape& t, P& p, const model<K, V>& w, keys<K>& kg)
{
    const P& c = p;
    check_find<const P, K, V>(t, c, w, kg, 4);
    check_iter<P, K, V>(t, p, w);
    walk(t, c.cbegin(), c.cend(), list<K, V>(w), "iteration (cbegin)");
    if (t.chance(1, 3))
        check_prefix<P, K, V>(t, c, w, kg, 2);
}

template<typename K, typename V, typename T = mdds::trie::default_traits>
void run_pack(tape& t)
{
    using M = mdds::trie_map<K, V, T>;
    using P = mdds::packed_trie_map<K, V, T>;
    using S = mdds::trie::value_serializer<V>;
    keys<K> kg(t);
    P p[2];
    model<K, V> w[2];
    check_packed<P, K, V>(t, p[0], w[0], kg);
    int steps = t.i(1, 9);
    for (; steps > 0; --steps)
    {
        int a = t.i(0, 1), b = 1 - a;
        switch (t.u(8))
        {
            case 0:
            {
                t.op(a, " packed from a trie_map");
                M m;
                model<K, V> x;
                fill(t, m, x, kg);
                const M& cm = m;
                if (t.b())
                    p[a] = P(cm);
                else
                    p[a] = m.pack();
                w[a] = x;
                break;
            }
            case 1:
            case 2:
            {
                model<K, V> x;
                M m;
                t.op(a, " packed from a table");
                fill(t, m, x, kg);
                std::vector<std::pair<K, V>> l = list<K, V>(x);
                if (t.chance(3, 4)) // the order of the key type
                    std::sort(l.begin(), l.end(), [](auto& u, auto& v) { return u.first < v.first; });
                std::vector<exact<K>> bufs;
                std::vector<typename P::entry> es;
                for (auto& e : l)
                {
                    bufs.emplace_back(e.first);
                    es.emplace_back(bufs.back().p.get(), bufs.back().n, e.second);
                }
                if (t.b())
                    p[a] = P(std::span<const typename P::entry>(es.data(), es.size()));
                else
                    p[a] = P(es.data(), es.size());
                w[a] = x;
                break;
            }
            case 3:
            {
                t.op(a, " saved and loaded");
                std::stringstream os(std::ios::in | std::ios::out | std::ios::binary);
                p[a].template save_state<S>(os);
                P q;
                if (t.b())
                    q = p[b];
                q.template load_state<S>(os);
                HZ_CHECK(q == p[a], "a loaded trie equals the saved one");
                HZ_CHECK(os.peek() == std::stringstream::traits_type::eof(), "loading reads what saving wrote");
                p[a].swap(q);
                break;
            }
            case 4:
            {
                t.op(a, " copied");
                P q(p[b]);
                HZ_CHECK(q == p[b], "a copy is equal");
                p[a] = q;
                w[a] = w[b];
                break;
            }
            case 5:
            {
                t.op(a, " moved");
                P q(std::move(p[a]));
                check_packed<P, K, V>(t, q, w[a], kg);
                model<K, V> none;
                check_packed<P, K, V>(t, p[a], none, kg); // a moved-from instance is empty
                P r(p[a]);
                check_packed<P, K, V>(t, r, none, kg);
                p[a] = std::move(q);
                break;
            }
            case 6:
                t.op("swap");
                p[0].swap(p[1]);
                std::swap(w[0], w[1]);
                break;
            default:
            {
                bool e = p[0] == p[1];
                HZ_CHECK(e == (w[0] == w[1]), "operator== gave " << e);
                HZ_CHECK((p[0] != p[1]) != e, "operator!=");
                if (t.b() && !w[a].empty())
                {
                    // nearly equal content
                    t.op(b, " made like ", a, " with one difference");
                    model<K, V> x = w[a];
                    auto it = x.begin();
                    std::advance(it, t.u(uint32_t(x.size())));
                    if (t.b())
                        it->second = vals<V>::make(t);
                    else
                    {
                        V v = it->second;
                        x.erase(it);
                        x[kg.make(t)] = v;
                    }
                    M m;
                    for (auto& z : x)
                        m.insert(exact<K>(z.first), z.second);
                    p[b] = m.pack();
                    w[b] = x;
                    bool e2 = p[0] == p[1];
                    HZ_CHECK(e2 == (w[0] == w[1]), "operator== of nearly equal ones gave " << e2);
                }
            }
        }
        t.hit();
        check_packed<P, K, V>(t, p[a], w[a], kg);
        check_packed<P, K, V>(t, p[b], w[b], kg);
    }
}

struct t16
{
    using pack_value_type = uint16_t;
};
struct t32
{
    using pack_value_type = uint32_t;
};

void c_map(tape& t)
{
    switch (t.u(4))
    {
        case 0:
            return run_map<std::u16string, int>(t);
        case 1:
            return run_map<std::string, std::string>(t);
        default:
            return run_map<std::string, int>(t);
    }
}
void c_prefix(tape& t)
{
    switch (t.u(4))
    {
        case 0:
            return run_prefix<std::u16string, std::string>(t);
        case 1:
            return run_prefix<std::string, int, t32>(t);
        default:
            return run_prefix<std::string, int>(t);
    }
}
void c_pack(tape& t)
{
    switch (t.u(6))
    {
        case 0:
            return run_pack<std::u16string, double>(t);
        case 1:
            return run_pack<std::string, std::string, t16>(t);
        case 2:
            return run_pack<std::string, std::vector<int>, t32>(t);
        default:
            return run_pack<std::string, int>(t);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(argc, argv, {{"map", c_map}, {"prefix", c_prefix}, {"pack", c_pack}});
}
