// Concrete stage for flat_segment_tree: the real class against a dense array of values.
#include "common.hpp"
#include <mdds/flat_segment_tree.hpp>
#include <string>

using hz::tape;

namespace {

// value with an instance count, only equality-comparable
struct cval : hz::counted
{
    int v;
    cval(int _v = 0) : v(_v)
    {
        ++live();
    }
    cval(const cval& r) : v(r.v)
    {
        ++live();
    }
    cval(cval&& r) noexcept : v(r.v)
    {
        ++live();
        r.v = -99;
    }
    cval& operator=(const cval&) = default;
    cval& operator=(cval&& r) noexcept
    {
        v = r.v;
        if (this != &r)
            r.v = -99;
        return *this;
    }
    ~cval()
    {
        --live();
    }
    bool operator==(const cval& r) const
    {
        return v == r.v;
    }
    friend std::ostream& operator<<(std::ostream& os, const cval& r)
    {
        return os << r.v;
    }
};

template<typename Key, typename Val>
struct fixture
{
    using fst = mdds::flat_segment_tree<Key, Val>;
    struct seg
    {
        int s, e, v;
        bool operator==(const seg&) const = default;
    };

    tape& t;
    int lo, hi, init, nv;
    fst db;
    std::vector<int> m; // value at key lo+i
    fst other; // another tree: source of foreign position hints, never to be affected

    fixture(tape& _t, int _lo, int _hi, int _init, int _nv)
        : t(_t), lo(_lo), hi(_hi), init(_init), nv(_nv), db(Key(_lo), Key(_hi), Val(_init)), m(_hi - _lo, _init), other(Key(_lo), Key(_hi + 5), Val(_init))
    {
        other.insert_back(Key(_lo + 1), Key(_hi + 2), Val(77));
        other.insert_back(Key(_hi), Key(_hi + 1), Val(78));
        t.op("construct [", lo, ",", hi, ") init ", init);
    }

    std::vector<seg> canon() const
    {
        std::vector<seg> r;
        for (int i = 0; i < int(m.size()); ++i)
        {
            if (!r.empty() && r.back().v == m[i])
                r.back().e = lo + i + 1;
            else
                r.push_back({lo + i, lo + i + 1, m[i]});
        }
        return r;
    }

    static std::vector<seg> segs(const fst& d)
    {
        std::vector<seg> r;
        for (auto it = d.begin_segment(); it != d.end_segment(); ++it)
        {
            r.push_back({int(it->start), int(it->end), it->value.v});
            if (r.size() > 1000)
                hz::fail("segment iteration does not end");
        }
        return r;
    }

    static std::string str(const std::vector<seg>& v)
    {
        std::ostringstream os;
        for (auto& s : v)
            os << "[" << s.s << "," << s.e << ")=" << s.v << " ";
        return os.str();
    }

    void check_fn(const fst& d, const char* what) const
    {
        // function semantics only (need not be canonical)
        auto sg = segs(d);
        int pos = lo;
        for (auto& s : sg)
        {
            HZ_CHECK(s.s == pos && s.e > s.s, what << ": segments " << str(sg));
            for (int k = s.s; k < s.e && k < hi; ++k)
                HZ_CHECK(m[k - lo] == s.v, what << ": key " << k << " segments " << str(sg) << " expected " << str(canon()));
            pos = s.e;
        }
        HZ_CHECK(pos == hi, what << ": coverage, segments " << str(sg));
    }

    void check_canon(const fst& d, const char* what) const
    {
        auto sg = segs(d), c = canon();
        HZ_CHECK(sg == c, what << ": segments " << str(sg) << " expected " << str(c));
        HZ_CHECK(d.leaf_size() == c.size() + 1, what << ": leaf_size " << d.leaf_size());
        // forward and reverse leaf iteration agree
        std::vector<std::pair<int, int>> f, b;
        for (auto it = d.begin(); it != d.end(); ++it)
        {
            f.emplace_back(int(it->first), it->second.v);
            HZ_CHECK(f.size() < 1000, "forward iteration does not end");
        }
        for (auto it = d.rbegin(); it != d.rend(); ++it)
        {
            b.emplace_back(int(it->first), it->second.v);
            HZ_CHECK(b.size() < 1000, "reverse iteration does not end");
        }
        std::reverse(b.begin(), b.end());
        HZ_CHECK(f == b, what << ": forward and reverse iteration differ");
        HZ_CHECK(f.size() == c.size() + 1, what << ": leaf count by iteration");
        for (std::size_t i = 0; i < c.size(); ++i)
            HZ_CHECK(f[i].first == c[i].s && f[i].second == c[i].v, what << ": leaf " << i);
        HZ_CHECK(f.back().first == hi, what << ": last leaf key");
        HZ_CHECK(int(d.min_key()) == lo && int(d.max_key()) == hi && d.default_value().v == init, what);
        // decrementing from end() walks the same leaves
        auto it = d.end();
        for (std::size_t i = f.size(); i-- > 0;)
        {
            --it;
            HZ_CHECK(int(it->first) == f[i].first, what << ": decrement");
        }
    }

    // a random valid iterator
    typename fst::const_iterator any_iter()
    {
        auto it = db.begin();
        std::size_t n = db.leaf_size();
        for (uint32_t k = t.u(uint32_t(n + 1)); k > 0 && it != db.end(); --k)
            ++it;
        return it;
    }

    void insert()
    {
        int s = t.i(lo - 3, hi + 2), e = t.chance(1, 8) ? t.i(lo - 3, hi + 3) : s + t.i(1, 6);
        if (std::is_unsigned_v<Key>)
        {
            s = std::max(s, 0);
            e = std::max(e, 0);
        }
        int v = t.i(0, nv - 1);
        std::vector<int> old = m;
        bool effective = s < e && e > lo && s < hi;
        if (effective)
            for (int k = std::max(s, lo); k < std::min(e, hi); ++k)
                m[k - lo] = v;
        bool changed = old != m;
        std::pair<typename fst::const_iterator, bool> r;
        switch (t.u(5))
        {
            case 4:
            {
                fst copy(other);
                auto it = other.begin();
                for (int n = t.i(0, 3); n > 0; --n)
                    ++it;
                t.op("insert(foreign hint,", s, ",", e, ",", v, ")");
                r = db.insert(it, Key(s), Key(e), Val(v));
                HZ_CHECK(other == copy, "the tree the hint came from changed");
                break;
            }
            case 0:
                t.op("insert_front(", s, ",", e, ",", v, ")");
                r = db.insert_front(Key(s), Key(e), Val(v));
                break;
            case 1:
                t.op("insert_back(", s, ",", e, ",", v, ")");
                r = db.insert_back(Key(s), Key(e), Val(v));
                break;
            case 2:
            {
                auto it = any_iter();
                t.op("insert(hint ", it == db.end() ? -1000 : int(it->first), ",", s, ",", e, ",", v, ")");
                r = db.insert(it, Key(s), Key(e), Val(v));
                break;
            }
            default:
            {
                typename fst::const_iterator it;
                t.op("insert(default hint,", s, ",", e, ",", v, ")");
                r = db.insert(it, Key(s), Key(e), Val(v));
            }
        }
        HZ_CHECK(r.second == changed, "insert reported modified=" << r.second << " expected " << changed);
        if (effective)
        {
            // the position returned holds the value at the start of the inserted segment
            int k0 = std::max(s, lo);
            HZ_CHECK(r.first != db.end(), "insert returned end");
            HZ_CHECK(int(r.first->first) <= k0 && r.first->second.v == v, "insert returned a wrong position");
            auto nx = r.first;
            ++nx;
            HZ_CHECK(nx != db.end() && int(nx->first) > k0, "insert returned a wrong position (end)");
            t.hit();
        }
        else
            HZ_CHECK(r.first == db.end(), "ineffective insert returned a position");
    }

    void shift_left()
    {
        int s = t.i(lo - 1, hi), e = s + t.i(0, 6);
        if (std::is_unsigned_v<Key>)
            s = std::max(s, 0);
        t.op("shift_left(", s, ",", e, ")");
        db.shift_left(Key(s), Key(e));
        if (s >= e || s < lo || e > hi)
            return;
        m.erase(m.begin() + (s - lo), m.begin() + (e - lo));
        m.resize(hi - lo, init);
        t.hit();
    }

    void shift_right(int far = 0)
    {
        int p = t.i(lo - 1, hi), size = far && t.b() ? t.i(0, far) : t.chance(1, 12) ? t.i(0, 40) : t.i(0, 5);
        if (std::is_unsigned_v<Key>)
            p = std::max(p, 0);
        bool skip = t.b();
        t.op("shift_right(", p, ",", size, ",", skip, ")");
        db.shift_right(Key(p), Key(size), skip);
        if (size <= 0 || p < lo || p >= hi)
            return;
        // a node sits at p when the value changes there (or at the minimum)
        bool at_node = p == lo || m[p - lo] != m[p - lo - 1];
        int fill;
        if (at_node && !skip)
            fill = p == lo ? init : m[p - lo - 1];
        else
            fill = m[p - lo];
        std::vector<int> n(m.begin(), m.begin() + (p - lo));
        for (int i = 0; i < size && int(n.size()) < hi - lo; ++i)
            n.push_back(fill);
        for (int k = p; k < hi && int(n.size()) < hi - lo; ++k)
            n.push_back(m[k - lo]);
        m = n;
        t.hit();
    }

    void check_search()
    {
        bool tree = t.b();
        if (tree && !db.valid_tree())
        {
            t.op("build_tree");
            db.build_tree();
            HZ_CHECK(db.valid_tree(), "tree not valid after build");
        }
        auto c = canon();
        typename fst::const_iterator hint = any_iter();
        t.op("search all keys, hint ", hint == db.end() ? -1000 : int(hint->first));
        int k0 = std::is_unsigned_v<Key> ? std::max(lo - 2, 0) : lo - 2;
        for (int k = k0; k <= hi + 2; ++k)
        {
            const seg* ex = nullptr;
            for (auto& s : c)
                if (s.s <= k && k < s.e)
                    ex = &s;
            auto chk = [&](const char* what, bool ok, typename fst::const_iterator it, const Val* v, const Key* s,
                           const Key* e) {
                HZ_CHECK(ok == (ex != nullptr), what << " key " << k << " found " << ok);
                if (!ex)
                {
                    HZ_CHECK(it == db.end(), what << " failed search must return end");
                    return;
                }
                HZ_CHECK(it != db.end() && int(it->first) == ex->s, what << " key " << k << " iterator position");
                if (v)
                    HZ_CHECK(v->v == ex->v, what << " key " << k << " value " << v->v << " expected " << ex->v);
                if (s)
                    HZ_CHECK(int(*s) == ex->s, what << " key " << k << " start " << *s);
                if (e)
                    HZ_CHECK(int(*e) == ex->e, what << " key " << k << " end " << *e);
            };
            Val v(-1);
            Key s{}, e{};
            auto r = db.search(Key(k), v, &s, &e);
            chk("search(key)", r.second, r.first, &v, &s, &e);
            v = Val(-1), s = e = Key{};
            r = db.search(hint, Key(k), v, &s, &e);
            chk("search(hint,key)", r.second, r.first, &v, &s, &e);
            v = Val(-1);
            r = db.search(hint, Key(k), v);
            chk("search(hint,key) no ends", r.second, r.first, &v, nullptr, nullptr);
            auto it = db.search(Key(k));
            chk("search(key) iter", it != db.end(), it, nullptr, nullptr, nullptr);
            it = db.search(hint, Key(k));
            chk("search(hint,key) iter", it != db.end(), it, nullptr, nullptr, nullptr);
            {
                auto fit = other.begin();
                if (t.b())
                    ++fit;
                v = Val(-1), s = e = Key{};
                r = db.search(fit, Key(k), v, &s, &e);
                chk("search(foreign hint,key)", r.second, r.first, &v, &s, &e);
                it = db.search(fit, Key(k));
                chk("search(foreign hint,key) iter", it != db.end(), it, nullptr, nullptr, nullptr);
            }
            if (!ex)
            {
                v = Val(-5), s = Key(3), e = Key(4);
                db.search(Key(k), v, &s, &e);
                db.search(hint, Key(k), v, &s, &e);
                db.search_tree(Key(k), v, &s, &e);
                HZ_CHECK(v.v == -5 && s == Key(3) && e == Key(4), "a failed search wrote its outputs");
            }
            it = db.search(typename fst::const_iterator(), Key(k));
            chk("search(default hint,key) iter", it != db.end(), it, nullptr, nullptr, nullptr);
            if (ex)
            {
                auto sg = db.search(Key(k)).to_segment();
                HZ_CHECK(int(sg->start) == ex->s && int(sg->end) == ex->e && sg->value.v == ex->v, "to_segment");
            }
            if (db.valid_tree())
            {
                v = Val(-1), s = e = Key{};
                r = db.search_tree(Key(k), v, &s, &e);
                chk("search_tree(key)", r.second, r.first, &v, &s, &e);
                it = db.search_tree(Key(k));
                chk("search_tree(key) iter", it != db.end(), it, nullptr, nullptr, nullptr);
            }
            else
            {
                r = db.search_tree(Key(k), v, &s, &e);
                HZ_CHECK(!r.second, "search on an invalid tree must fail");
            }
        }
        t.hit();
    }
};

template<typename K>
void with_fixture(tape& t, const std::function<void(fixture<K, cval>&)>& body)
{
    long live0 = hz::counted::live();
    {
        int lo = std::is_unsigned_v<K> ? t.i(0, 3) : t.i(-4, 3);
        int hi = lo + (t.chance(1, 6) ? t.i(1, 3) : t.i(4, 24));
        int nv = t.i(2, 4);
        fixture<K, cval> f(t, lo, hi, t.i(0, nv - 1), nv);
        body(f);
    }
    HZ_CHECK(hz::counted::live() == live0, "values leaked: " << hz::counted::live() - live0);
}

template<typename K>
void c_insert_k(tape& t)
{
    with_fixture<K>(t, [&](auto& f) {
        for (int n = t.i(1, 14); n > 0; --n)
        {
            f.insert();
            f.check_fn(f.db, "after insert");
        }
    });
}
void c_insert(tape& t)
{
    t.chance(1, 4) ? c_insert_k<unsigned>(t) : c_insert_k<int>(t);
}

template<typename K>
void c_shape_k(tape& t)
{
    with_fixture<K>(t, [&](auto& f) {
        f.check_canon(f.db, "fresh");
        for (int n = t.i(1, 12); n > 0; --n)
        {
            switch (t.u(4))
            {
                case 0:
                    f.shift_left();
                    break;
                case 1:
                    f.shift_right();
                    break;
                default:
                    f.insert();
            }
            f.check_canon(f.db, "after operation");
            if (t.chance(1, 8))
                f.db.build_tree();
        }
    });
}
void c_shape(tape& t)
{
    t.chance(1, 4) ? c_shape_k<unsigned>(t) : c_shape_k<int>(t);
}

template<typename K>
void c_shift_k(tape& t)
{
    with_fixture<K>(t, [&](auto& f) {
        for (int n = t.i(0, 6); n > 0; --n)
            f.insert();
        for (int n = t.i(1, 8); n > 0; --n)
        {
            switch (t.u(5))
            {
                case 0:
                    f.insert();
                    break;
                case 1:
                case 2:
                    f.shift_left();
                    break;
                default:
                    f.shift_right();
            }
            f.check_fn(f.db, "after shift");
        }
    });
}
void c_shift(tape& t)
{
    if (t.chance(1, 6))
    {
        // keys and sizes close to the limit of the key type
        using fx = fixture<signed char, cval>;
        long live0 = hz::counted::live();
        {
            int lo = t.b() ? t.i(-20, 0) : t.i(60, 90);
            fx f(t, lo, 120, t.i(0, 2), 3);
            for (int n = t.i(0, 6); n > 0; --n)
                f.insert();
            for (int n = t.i(1, 8); n > 0; --n)
            {
                if (t.chance(1, 3))
                    f.shift_left();
                else if (t.chance(1, 4))
                    f.insert();
                else
                    f.shift_right(127);
                f.check_fn(f.db, "after shift near the limit");
            }
        }
        HZ_CHECK(hz::counted::live() == live0, "values leaked");
        return;
    }
    t.chance(1, 4) ? c_shift_k<unsigned>(t) : c_shift_k<int>(t);
}

template<typename K>
void c_search_k(tape& t)
{
    with_fixture<K>(t, [&](auto& f) {
        for (int r = t.i(1, 3); r > 0; --r)
        {
            for (int n = t.i(0, 6); n > 0; --n)
                switch (t.u(6))
                {
                    case 0:
                        f.shift_left();
                        break;
                    case 1:
                        f.shift_right();
                        break;
                    default:
                        f.insert();
                }
            f.check_search();
        }
    });
}
void c_search(tape& t)
{
    t.chance(1, 4) ? c_search_k<unsigned>(t) : c_search_k<int>(t);
}

void c_copy(tape& t)
{
    using fx = fixture<int, cval>;
    with_fixture<int>(t, [&](fx& f) {
        auto mutate = [&](fx& g, int n) {
            for (; n > 0; --n)
                switch (t.u(8))
                {
                    case 0:
                        g.shift_left();
                        break;
                    case 1:
                        g.shift_right();
                        break;
                    case 2:
                        t.op("build_tree");
                        g.db.build_tree();
                        break;
                    default:
                        g.insert();
                }
        };
        mutate(f, t.i(0, 8));
        fx g(t, f.lo, f.hi, t.i(0, f.nv - 1), f.nv);
        mutate(g, t.i(0, 8));
        for (int n = t.i(1, 6); n > 0; --n)
        {
            bool same = f.m == g.m;
            HZ_CHECK((f.db == g.db) == same, "operator== disagrees with contents");
            HZ_CHECK((g.db == f.db) == same, "operator== not symmetric");
            if (t.chance(1, 3))
            {
                // the same segments over another span (or the same one)
                int l2 = f.lo + t.i(-1, 1), h2 = f.hi + t.i(-2, 3);
                if (l2 < h2)
                {
                    fx::fst c(l2, h2, cval(t.i(0, f.nv - 1)));
                    std::vector<int> mc;
                    for (int k = l2; k < h2; ++k)
                    {
                        int i = std::min(std::max(k - f.lo, 0), f.hi - f.lo - 1);
                        mc.push_back(f.m[i]);
                        c.insert_back(k, k + 1, cval(f.m[i]));
                    }
                    t.op("compare with a tree over [", l2, ",", h2, ")");
                    bool eq = l2 == f.lo && h2 == f.hi && mc == f.m;
                    HZ_CHECK((f.db == c) == eq && (c == f.db) == eq, "operator== of trees over different spans");
                    HZ_CHECK((f.db != c) != eq && (c != f.db) != eq, "operator!= of trees over different spans");
                }
            }
            switch (t.u(8))
            {
                case 0:
                {
                    t.op("copy construct");
                    fx::fst c(f.db);
                    f.check_canon(c, "copy");
                    HZ_CHECK(c == f.db, "copy equal");
                    HZ_CHECK(!c.valid_tree(), "copied tree is not built");
                    mutate(f, 2);
                    fx h(t, f.lo, f.hi, f.init, f.nv);
                    break;
                }
                case 1:
                    t.op("copy assign");
                    f.db = g.db;
                    f.m = g.m;
                    f.init = g.init;
                    break;
                case 2:
                {
                    t.op("move construct, move back");
                    bool vt = f.db.valid_tree();
                    fx::fst c(std::move(f.db));
                    f.check_canon(c, "moved");
                    HZ_CHECK(c.valid_tree() == vt, "moved tree keeps its validity");
                    f.db = std::move(c);
                    HZ_CHECK(f.db.valid_tree() == vt, "move-assigned tree keeps its validity");
                    f.check_search();
                    break;
                }
                case 3:
                    t.op("swap");
                    f.db.swap(g.db);
                    std::swap(f.m, g.m);
                    std::swap(f.init, g.init);
                    break;
                case 4:
                    t.op("clear");
                    f.db.clear();
                    f.m.assign(f.m.size(), f.init);
                    HZ_CHECK(!f.db.valid_tree(), "cleared tree is not built");
                    break;
                case 5:
                {
                    t.op("self assign");
                    auto& r = f.db;
                    f.db = r;
                    break;
                }
                case 6:
                {
                    t.op("segment_range");
                    std::vector<fx::seg> r;
                    for (const auto& s : f.db.segment_range())
                        r.push_back({s.start, s.end, s.value.v});
                    HZ_CHECK(r == f.canon(), "segment_range");
                    break;
                }
                default:
                    mutate(f, 3);
            }
            f.check_canon(f.db, "f");
            g.check_canon(g.db, "g");
            t.hit();
            mutate(g, t.i(0, 2));
            mutate(f, t.i(0, 2));
        }
    });
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(
        argc, argv,
        {{"insert", c_insert}, {"shape", c_shape}, {"shift", c_shift}, {"search", c_search}, {"copy", c_copy}});
}
