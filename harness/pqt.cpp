// Concrete stage for point_quad_tree: the real class against a map from coordinates to values.
#include "common.hpp"
#include <mdds/point_quad_tree.hpp>

using hz::tape;

namespace {

unsigned turn = 0;

template<typename K>
struct fixture
{
    using qt = mdds::point_quad_tree<K, int>;
    using model = std::map<std::pair<K, K>, int>;
    tape& t;
    qt db;
    model m;
    int span;
    K base;

    fixture(tape& _t) : t(_t), span(t.i(1, 12)), base(std::is_signed_v<K> ? K(-t.i(0, 8)) : K(t.i(0, 8)))
    {
        turn = t.u(13);
    }

    K c()
    {
        return K(base + K(t.i(0, span)));
    }

    void insert()
    {
        K x = c(), y = c();
        int v = t.i(0, 99);
        t.op("insert(", x, ",", y, ",", v, ")");
        db.insert(x, y, v);
        m[{x, y}] = v;
    }

    void remove()
    {
        K x = c(), y = c();
        if (!m.empty() && !t.chance(1, 5))
        {
            auto it = m.begin();
            std::advance(it, t.u(uint32_t(m.size())));
            x = it->first.first, y = it->first.second;
        }
        t.op("remove(", x, ",", y, ")");
        db.remove(x, y);
        m.erase({x, y});
        t.hit();
    }

    static void check(const qt& d, const model& m, K lo, K hi, const char* what)
    {
        HZ_CHECK(d.size() == m.size(), what << ": size " << d.size() << " expected " << m.size());
        HZ_CHECK(d.empty() == m.empty(), what << ": empty");
        for (K x = lo; x <= hi; ++x)
            for (K y = lo; y <= hi; ++y)
            {
                auto f = m.find({x, y});
                if (f == m.end() && ++turn % 13)
                    continue; // an exception is slow: try some absent points only
                try
                {
                    int v = d.find(x, y);
                    HZ_CHECK(f != m.end(), what << ": find(" << x << "," << y << ") found a point that is not stored");
                    HZ_CHECK(f->second == v, what << ": find(" << x << "," << y << ") gave " << v << " expected " << f->second);
                }
                catch (const typename qt::data_not_found&)
                {
                    HZ_CHECK(f == m.end(), what << ": find(" << x << "," << y << ") did not find a stored point");
                }
            }
    }
    void check(const char* what)
    {
        check(db, m, K(base), K(base + K(span)), what);
    }

    static void check_region(const qt& d, const model& m, K x1, K y1, K x2, K y2, const char* what)
    {
        std::vector<std::pair<std::pair<K, K>, int>> e, r, b;
        for (auto& [k, v] : m)
            if (x1 <= k.first && k.first <= x2 && y1 <= k.second && k.second <= y2)
                e.push_back({k, v});
        auto res = d.search_region(x1, y1, x2, y2);
        for (auto it = res.begin(); it != res.end(); ++it)
        {
            r.push_back({{it->first.x, it->first.y}, it->second});
            HZ_CHECK((*it).second == it->second, "dereference");
            HZ_CHECK(r.size() <= m.size(), what << ": search_region iteration does not end");
        }
        if (!r.empty())
        {
            auto it = res.end();
            for (std::size_t i = 0; i < r.size(); ++i)
            {
                --it;
                b.push_back({{it->first.x, it->first.y}, it->second});
            }
            HZ_CHECK(it == res.begin(), what << ": reverse iteration does not reach begin");
            std::reverse(b.begin(), b.end());
            HZ_CHECK(b == r, what << ": reverse iteration differs");
        }
        std::sort(r.begin(), r.end());
        HZ_CHECK(r == e, what << ": search_region(" << x1 << "," << y1 << "," << x2 << "," << y2 << ") reports " << r.size() << " points, expected " << e.size());
        std::vector<int> a, ev;
        d.search_region(x1, y1, x2, y2, a);
        for (auto& [k, v] : e)
            ev.push_back(v);
        std::sort(a.begin(), a.end());
        std::sort(ev.begin(), ev.end());
        HZ_CHECK(a == ev, what << ": search_region into an array");
    }
    void regions(const qt& d, const model& mm, int n, const char* what)
    {
        for (; n > 0; --n)
        {
            K x1 = c(), x2 = c(), y1 = c(), y2 = c();
            if (x1 > x2)
                std::swap(x1, x2);
            if (y1 > y2)
                std::swap(y1, y2);
            check_region(d, mm, x1, y1, x2, y2, what);
        }
        check_region(d, mm, base, base, K(base + K(span)), K(base + K(span)), what);
    }
    void step()
    {
        switch (t.u(16))
        {
            case 0:
                if (t.chance(1, 4))
                {
                    t.op("clear");
                    db.clear();
                    m.clear();
                }
                break;
            case 1:
            case 2:
            case 3:
            case 4:
            case 5:
            case 6:
                remove();
                break;
            default:
                insert();
        }
    }
};

template<typename K>
void insert_case(tape& t)
{
    fixture<K> f(t);
    for (int n = t.i(0, 24); n > 0; --n)
        f.insert();
    f.check("after insertions");
    f.regions(f.db, f.m, 8, "after insertions");
    t.hit();
}

template<typename K>
void remove_case(tape& t)
{
    fixture<K> f(t);
    for (int n = t.i(0, 16); n > 0; --n)
        f.insert();
    for (int n = t.i(0, 24); n > 0; --n)
    {
        f.step();
        f.check("after operation");
        f.regions(f.db, f.m, 2, "after operation");
    }
}

template<typename K>
void copy_case(tape& t)
{
    using F = fixture<K>;
    using qt = typename F::qt;
    F f(t);
    for (int n = t.i(0, 16); n > 0; --n)
        f.step();
    K lo = f.base, hi = K(f.base + K(f.span));
    auto m0 = f.m;
    {
        // equality against a tree with the same points in another order, possibly with one change
        std::vector<std::pair<std::pair<K, K>, int>> v(m0.begin(), m0.end());
        for (std::size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[t.u(uint32_t(i))]);
        bool same = true;
        if (t.b() && !v.empty())
        {
            same = false;
            switch (t.u(3))
            {
                case 0:
                    v.back().second++;
                    break;
                case 1:
                    v.pop_back();
                    break;
                default:
                    v.back().first.first = K(hi + 1);
            }
        }
        qt o;
        for (auto& [k, w] : v)
            o.insert(k.first, k.second, w);
        HZ_CHECK((f.db == o) == same && (o == f.db) == same, "equality");
    }
    auto other = [&](qt& c, typename F::model& mm) {
        for (int n = t.i(0, 6); n > 0; --n)
        {
            K x = f.c(), y = f.c();
            c.insert(x, y, n);
            mm[{x, y}] = n;
        }
    };
    auto later = [&](qt& c, typename F::model mm) {
        for (int n = t.i(0, 6); n > 0; --n)
            f.step();
        F::check(c, mm, lo, hi, "copy, after changes to the source");
        f.regions(c, mm, 2, "copy, after changes to the source");
        c.swap(f.db);
        std::swap(mm, f.m);
        for (int n = t.i(0, 6); n > 0; --n)
            f.step();
        F::check(c, mm, lo, hi, "source, after changes to the copy");
    };
    switch (t.u(6))
    {
        case 0:
        {
            t.op("copy construct");
            qt c(f.db);
            HZ_CHECK(c == f.db, "copy not equal");
            F::check(c, m0, lo, hi, "copy");
            later(c, m0);
            break;
        }
        case 1:
        {
            t.op("copy assign");
            qt c;
            typename F::model mm;
            other(c, mm);
            c = f.db;
            HZ_CHECK(c == f.db, "assigned copy not equal");
            F::check(c, m0, lo, hi, "assigned");
            later(c, m0);
            break;
        }
        case 2:
        {
            t.op("self assign");
            qt& self = f.db;
            f.db = self;
            F::check(f.db, m0, lo, hi, "self-assigned");
            break;
        }
        case 3:
        {
            t.op("swap");
            qt c;
            typename F::model mm;
            other(c, mm);
            c.swap(f.db);
            F::check(c, m0, lo, hi, "swapped");
            F::check(f.db, mm, lo, hi, "swapped");
            f.m = mm;
            later(c, m0);
            break;
        }
        case 4:
        {
            t.op("move construct");
            qt c(std::move(f.db));
            F::check(c, m0, lo, hi, "moved");
            break;
        }
        default:
        {
            t.op("move assign");
            qt c;
            typename F::model mm;
            other(c, mm);
            c = std::move(f.db);
            F::check(c, m0, lo, hi, "move-assigned");
        }
    }
    t.hit();
}

template<void (*A)(tape&), void (*B)(tape&)>
void pick(tape& t)
{
    t.chance(3, 4) ? A(t) : B(t);
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(
        argc, argv,
        {{"insert", pick<insert_case<int>, insert_case<unsigned>>},
         {"remove", pick<remove_case<int>, remove_case<unsigned>>},
         {"copy", pick<copy_case<int>, copy_case<unsigned>>}});
}
