// Concrete stage for segment_tree: the real class against a plain list of segments.
#include "common.hpp"
#include <mdds/segment_tree.hpp>

using hz::tape;

namespace {

using st = mdds::segment_tree<int, int>;
struct seg
{
    int s, e, v;
    auto operator<=>(const seg&) const = default;
};
std::ostream& operator<<(std::ostream& os, const std::vector<seg>& v)
{
    for (auto& s : v)
        os << "[" << s.s << "," << s.e << ")=" << s.v << " ";
    return os;
}

struct fixture
{
    tape& t;
    st db;
    std::vector<seg> m;
    int lo, hi, nv;

    fixture(tape& _t) : t(_t), lo(t.i(-6, 0)), hi(lo + t.i(2, 20)), nv(t.i(1, 4))
    {}

    void insert()
    {
        int s = t.i(lo, hi - 1), e = t.chance(1, 4) ? t.i(lo, hi) : t.i(s + 1, hi), v = t.i(0, nv - 1);
        if (t.chance(1, 12))
        {
            s = t.chance(1, 2) ? 0 : s;
            e = t.i(lo, hi);
        }
        t.op("insert(", s, ",", e, ",", v, ")");
        bool valid = db.valid_tree();
        try
        {
            db.insert(s, e, v);
            HZ_CHECK(s < e, "an empty or reversed segment was accepted");
            m.push_back({s, e, v});
            t.hit();
        }
        catch (const std::invalid_argument&)
        {
            HZ_CHECK(s >= e, "a proper segment was refused");
            HZ_CHECK(valid == db.valid_tree(), "a refused insertion invalidated the tree");
        }
    }

    std::vector<seg> sorted() const
    {
        auto r = m;
        std::sort(r.begin(), r.end());
        return r;
    }

    static std::vector<seg> at(const std::vector<seg>& m, int p)
    {
        std::vector<seg> r;
        for (auto& s : m)
            if (s.s <= p && p < s.e)
                r.push_back(s);
        std::sort(r.begin(), r.end());
        return r;
    }

    static std::vector<seg> query(const st& d, int p)
    {
        auto res = d.search(p);
        std::vector<seg> r;
        for (auto it = res.begin(); it != res.end(); ++it)
        {
            r.push_back({it->start, it->end, it->value});
            HZ_CHECK(r.size() < 1000, "iteration over search results does not end");
            HZ_CHECK((*it).value == it->value, "dereference");
        }
        HZ_CHECK(r.size() == res.size() && r.empty() == res.empty(), "search(" << p << ") result size " << res.size() << " iterated " << r.size());
        // backwards
        std::vector<seg> b;
        if (!r.empty())
        {
            auto it = res.end();
            for (std::size_t i = 0; i < r.size(); ++i)
            {
                --it;
                b.push_back({it->start, it->end, it->value});
            }
            HZ_CHECK(it == res.begin(), "reverse iteration does not reach begin");
            std::reverse(b.begin(), b.end());
            HZ_CHECK(b == r, "reverse iteration differs: " << b << " vs " << r);
        }
        std::sort(r.begin(), r.end());
        return r;
    }

    void check_search(const st& d, const std::vector<seg>& mm, const char* what) const
    {
        for (int p = lo - 2; p <= hi + 2; ++p)
        {
            auto r = query(d, p), e = d.valid_tree() ? at(mm, p) : std::vector<seg>();
            HZ_CHECK(r == e, what << ": search(" << p << ") gave " << r << " expected " << e);
        }
    }

    static void check_book(const st& d, const std::vector<seg>& m, const char* what)
    {
        HZ_CHECK(d.size() == m.size(), what << ": size " << d.size() << " expected " << m.size());
        HZ_CHECK(d.empty() == m.empty(), what << ": empty");
        std::set<int> ks;
        for (auto& s : m)
            ks.insert(s.s), ks.insert(s.e);
        std::vector<int> k(ks.begin(), ks.end());
        HZ_CHECK(d.boundary_keys() == k, what << ": boundary keys");
        if (d.valid_tree())
            HZ_CHECK(!m.empty() || true, what);
    }

    // all segments currently in the tree, as erase_if sees them
    static std::vector<seg> content(st& d)
    {
        std::vector<seg> r;
        auto n = d.erase_if([&](int s, int e, int v) {
            r.push_back({s, e, v});
            return false;
        });
        HZ_CHECK(n == 0, "erase_if count");
        std::sort(r.begin(), r.end());
        return r;
    }

    void build()
    {
        t.op("build_tree");
        db.build_tree();
        HZ_CHECK(db.valid_tree() == !m.empty(), "tree validity after build");
        if (!m.empty())
        {
            std::set<int> ks;
            for (auto& s : m)
                ks.insert(s.s), ks.insert(s.e);
            HZ_CHECK(db.leaf_size() == ks.size(), "leaf count");
        }
    }

    void erase_if()
    {
        int k = t.i(0, 3), a = t.i(lo, hi), v = t.i(0, nv - 1);
        auto pred = [=](int s, int e, int w) {
            switch (k)
            {
                case 0:
                    return w == v;
                case 1:
                    return s <= a && a < e;
                case 2:
                    return s >= a;
                default:
                    return (s + e + w) % 3 == 0;
            }
        };
        t.op("erase_if(kind ", k, ",", a, ",", v, ")");
        bool valid = db.valid_tree();
        auto n0 = m.size();
        m.erase(std::remove_if(m.begin(), m.end(), [&](const seg& s) { return pred(s.s, s.e, s.v); }), m.end());
        auto n = db.erase_if(pred);
        HZ_CHECK(n == n0 - m.size(), "erase_if returned " << n << " expected " << n0 - m.size());
        HZ_CHECK(valid == db.valid_tree(), "erase_if changed the tree's validity");
        if (n)
            t.hit();
    }

    void erase_pos()
    {
        if (!db.valid_tree())
            return;
        int p = t.i(lo, hi);
        auto res = db.search(p);
        if (res.empty())
            return;
        auto it = res.begin();
        for (uint32_t k = t.u(uint32_t(res.size())); k > 0; --k)
            ++it;
        seg s{it->start, it->end, it->value};
        t.op("erase([", s.s, ",", s.e, ")=", s.v, ")");
        db.erase(it);
        auto f = std::find(m.begin(), m.end(), s);
        HZ_CHECK(f != m.end(), "search reported a segment that is not stored");
        m.erase(f);
        HZ_CHECK(db.valid_tree(), "erase invalidated the tree");
        t.hit();
    }

    void step()
    {
        switch (t.u(10))
        {
            case 0:
            case 1:
            case 2:
            case 3:
                insert();
                break;
            case 4:
            case 5:
                build();
                break;
            case 6:
                erase_if();
                break;
            case 9:
                if (t.chance(1, 8))
                {
                    t.op("clear");
                    db.clear();
                    m.clear();
                    HZ_CHECK(!db.valid_tree(), "tree valid after clear");
                    break;
                }
                [[fallthrough]];
            default:
                erase_pos();
        }
    }
};

void c_search(tape& t)
{
    fixture f(t);
    for (int n = t.i(0, 8); n > 0; --n)
        f.insert();
    f.build();
    f.check_search(f.db, f.m, "built");
    for (int n = t.i(0, 10); n > 0; --n)
    {
        f.step();
        f.check_search(f.db, f.m, "after operation");
    }
}

void c_book(tape& t)
{
    fixture f(t);
    for (int n = t.i(1, 16); n > 0; --n)
    {
        f.step();
        fixture::check_book(f.db, f.m, "after operation");
        auto c = fixture::content(f.db);
        HZ_CHECK(c == f.sorted(), "content " << c << " expected " << f.sorted());
    }
}

void c_copy(tape& t)
{
    fixture f(t);
    for (int n = t.i(0, 12); n > 0; --n)
        f.step();
    auto m0 = f.m;
    // equality against an independently built tree, in another order, possibly with one change
    {
        st other;
        auto mm = m0;
        for (std::size_t i = mm.size(); i > 1; --i)
            std::swap(mm[i - 1], mm[t.u(uint32_t(i))]);
        if (t.b() && !mm.empty())
        {
            auto& s = mm[t.u(uint32_t(mm.size()))];
            switch (t.u(4))
            {
                case 0:
                    s.v++;
                    break;
                case 1:
                    s.e++;
                    break;
                case 2:
                    s = mm[t.u(uint32_t(mm.size()))];
                    break;
                default:
                    mm.push_back(s);
            }
        }
        for (auto& s : mm)
            other.insert(s.s, s.e, s.v);
        if (t.b())
            other.build_tree();
        std::sort(mm.begin(), mm.end());
        bool eq = mm == f.sorted() && other.valid_tree() == f.db.valid_tree();
        HZ_CHECK((f.db == other) == eq, "equality with " << mm << " vs " << f.sorted());
        HZ_CHECK((other == f.db) == eq, "equality, reversed");
        t.hit();
    }
    switch (t.u(6))
    {
        case 0:
        {
            t.op("copy construct");
            st c(f.db);
            HZ_CHECK(m0.empty() || (c == f.db && c.valid_tree() == f.db.valid_tree()), "copy differs");
            f.check_search(c, m0, "copy");
            for (int n = t.i(0, 5); n > 0; --n)
                f.step();
            f.check_search(c, m0, "copy after changes to the source");
            fixture::check_book(c, m0, "copy after changes to the source");
            std::swap(c, f.db);
            f.m.swap(m0);
            for (int n = t.i(0, 5); n > 0; --n)
                f.step();
            f.check_search(c, m0, "source after changes to the copy");
            break;
        }
        case 1:
        {
            t.op("copy assign");
            st c;
            c.insert(1, 5, 9);
            if (t.b())
                c.build_tree();
            c = f.db;
            HZ_CHECK(m0.empty() || (c == f.db && c.valid_tree() == f.db.valid_tree()), "assigned copy differs");
            f.check_search(c, m0, "assigned");
            for (int n = t.i(0, 5); n > 0; --n)
                f.step();
            f.check_search(c, m0, "assigned copy after changes to the source");
            break;
        }
        case 2:
        {
            t.op("move construct");
            bool v = f.db.valid_tree();
            st c(std::move(f.db));
            HZ_CHECK(c.valid_tree() == v, "validity not moved");
            f.check_search(c, m0, "moved");
            fixture::check_book(c, m0, "moved");
            f.m.clear();
            fixture::check_book(f.db, f.m, "moved-from");
            f.check_search(f.db, f.m, "moved-from");
            for (int n = t.i(0, 5); n > 0; --n)
                f.step();
            f.check_search(f.db, f.m, "moved-from, used again");
            f.check_search(c, m0, "moved, source used again");
            break;
        }
        case 3:
        {
            t.op("move assign");
            st c;
            c.insert(1, 5, 9);
            if (t.b())
                c.build_tree();
            bool v = f.db.valid_tree();
            c = std::move(f.db);
            HZ_CHECK(c.valid_tree() == v, "validity not moved");
            f.check_search(c, m0, "move-assigned");
            fixture::check_book(c, m0, "move-assigned");
            break;
        }
        case 4:
        {
            t.op("swap");
            st c;
            c.insert(1, 5, 9);
            c.insert(-2, 3, 7);
            if (t.b())
                c.build_tree();
            bool v = f.db.valid_tree(), w = c.valid_tree();
            c.swap(f.db);
            HZ_CHECK(c.valid_tree() == v && f.db.valid_tree() == w, "validity not swapped");
            f.check_search(c, m0, "swapped");
            f.m = {{1, 5, 9}, {-2, 3, 7}};
            f.check_search(f.db, f.m, "swapped");
            fixture::check_book(f.db, f.m, "swapped");
            fixture::check_book(c, m0, "swapped");
            break;
        }
        default:
        {
            t.op("self assign");
            st& self = f.db;
            f.db = self;
            f.check_search(f.db, m0, "self-assigned");
            fixture::check_book(f.db, m0, "self-assigned");
        }
    }
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(argc, argv, {{"search", c_search}, {"book", c_book}, {"copy", c_copy}});
}
