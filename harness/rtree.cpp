// Concrete stage for rtree against a plain list of (box, value) pairs.
#include "common.hpp"
#include <array>
#include <mdds/rtree.hpp>

using hz::fail;
using hz::tape;

namespace {

template<std::size_t D, std::size_t Mn, std::size_t Mx, bool FR, std::size_t RS>
struct tr
{
    static constexpr std::size_t dimensions = D;
    static constexpr std::size_t min_node_size = Mn;
    static constexpr std::size_t max_node_size = Mx;
    static constexpr std::size_t max_tree_depth = 100;
    static constexpr bool enable_forced_reinsertion = FR;
    static constexpr std::size_t reinsertion_size = RS;
};

struct leaky // a value type that owns heap memory
{
    std::unique_ptr<int> p;
    leaky(int v = 0) : p(std::make_unique<int>(v)) {}
    leaky(const leaky& o) : p(o.p ? std::make_unique<int>(*o.p) : nullptr) {}
    leaky(leaky&&) = default;
    leaky& operator=(const leaky& o)
    {
        p = o.p ? std::make_unique<int>(*o.p) : nullptr;
        return *this;
    }
    leaky& operator=(leaky&&) = default;
};
int num(const leaky& v)
{
    return v.p ? *v.p : -99;
}
int num(int v)
{
    return v;
}
int num(const std::string& v)
{
    return std::stoi(v);
}
template<typename V>
V mk(int n)
{
    if constexpr (std::is_same_v<V, std::string>)
        return std::to_string(n) + std::string(n % 3 ? 0 : 24, ' ');
    else
        return V(n);
}

template<typename K, typename V, typename T>
struct fixture
{
    static constexpr std::size_t D = T::dimensions;
    using rt = mdds::rtree<K, V, T>;
    using pt = typename rt::point_type;
    using ext = typename rt::extent_type;
    struct box
    {
        std::array<K, D> s{}, e{};
        auto operator<=>(const box&) const = default;
        ext to() const
        {
            ext r;
            for (std::size_t i = 0; i < D; ++i)
                r.start.d[i] = s[i], r.end.d[i] = e[i];
            return r;
        }
        pt spt() const
        {
            pt r;
            for (std::size_t i = 0; i < D; ++i)
                r.d[i] = s[i];
            return r;
        }
        static box from(const ext& x)
        {
            box r;
            for (std::size_t i = 0; i < D; ++i)
                r.s[i] = x.start.d[i], r.e[i] = x.end.d[i];
            return r;
        }
        bool meets(const box& o) const
        {
            for (std::size_t i = 0; i < D; ++i)
                if (e[i] < o.s[i] || o.e[i] < s[i])
                    return false;
            return true;
        }
        bool point() const
        {
            return s == e;
        }
        void grow(const box& o)
        {
            for (std::size_t i = 0; i < D; ++i)
            {
                s[i] = std::min(s[i], o.s[i]);
                e[i] = std::max(e[i], o.e[i]);
            }
        }
        std::string str() const
        {
            std::ostringstream os;
            os << "[";
            for (auto v : s)
                os << v << " ";
            os << "- ";
            for (auto v : e)
                os << v << " ";
            os << "]";
            return os.str();
        }
    };
    using item = std::pair<box, int>;
    using model = std::vector<item>;

    rt db;
    model m;
    int span, next = 1;
    bool bulk = false;

    explicit fixture(tape& t) : span(t.i(2, 30)) {}

    box gen(tape& t) const
    {
        box b;
        bool p = t.chance(1, 4);
        for (std::size_t i = 0; i < D; ++i)
        {
            int a = t.i(0, span);
            int w = p ? 0 : t.chance(1, 8) ? t.i(0, span) : t.i(0, 1 + span / 5);
            int off = std::is_unsigned_v<K> ? 0 : span / 2;
            b.s[i] = K(a - off);
            b.e[i] = K(a + w - off);
            if constexpr (std::is_floating_point_v<K>)
                b.s[i] /= 4, b.e[i] /= 4;
        }
        return b;
    }

    static std::string str(const model& v)
    {
        std::ostringstream os;
        for (auto& x : v)
            os << " " << x.first.str() << "=" << x.second;
        return os.str();
    }

    void put(tape& t, rt& d, model& mm)
    {
        box b = mm.size() && t.chance(1, 8) ? mm[t.u(uint32_t(mm.size()))].first : gen(t);
        int n = next++;
        t.op("insert ", b.str(), " = ", n);
        V v = mk<V>(n);
        switch (t.u(2))
        {
            case 0:
                if (b.point() && t.b())
                    d.insert(b.spt(), v);
                else
                    d.insert(b.to(), v);
                if (num(v) != n)
                    fail("inserting a copy changed the source value");
                break;
            default:
                if (b.point() && t.b())
                    d.insert(b.spt(), std::move(v));
                else
                    d.insert(b.to(), std::move(v));
        }
        mm.emplace_back(b, n);
    }

    template<typename R>
    static model collect(R&& res)
    {
        model r;
        std::size_t dep = 0;
        bool first = true;
        for (auto it = res.begin(); it != res.end(); ++it)
        {
            r.emplace_back(box::from(it.extent()), num(*it));
            if (!first && it.depth() != dep)
                fail("results at different depths: ", it.depth(), " and ", dep);
            dep = it.depth();
            first = false;
        }
        model q;
        auto it = res.end();
        while (it != res.begin())
        {
            --it;
            q.emplace_back(box::from(it.extent()), num(*it));
        }
        std::reverse(q.begin(), q.end());
        if (q != r)
            fail("results differ when walked backwards");
        std::sort(r.begin(), r.end());
        return r;
    }

    static model expect(const model& mm, const box& q, bool match)
    {
        model r;
        for (auto& x : mm)
            if (match ? x.first == q : x.first.meets(q))
                r.push_back(x);
        std::sort(r.begin(), r.end());
        return r;
    }

    static void query(tape& t, rt& d, const model& mm, const box& q, bool match, const char* what)
    {
        auto st = match ? rt::search_type::match : rt::search_type::overlap;
        model want = expect(mm, q, match), got, got2;
        const rt& cd = d;
        if (q.point() && t.b())
        {
            got = collect(cd.search(q.spt(), st));
            got2 = collect(d.search(q.spt(), st));
        }
        else
        {
            got = collect(cd.search(q.to(), st));
            got2 = collect(d.search(q.to(), st));
        }
        if (got != want)
            fail(what, ": ", match ? "match" : "overlap", " search of ", q.str(), " gives", str(got), " expected", str(want));
        if (got2 != want)
            fail(what, ": mutable ", match ? "match" : "overlap", " search of ", q.str(), " gives", str(got2), " expected", str(want));
    }

    static void check(rt& d, const model& mm, const char* what)
    {
        if (d.size() != mm.size() || d.empty() != mm.empty())
            fail(what, ": size ", d.size(), " empty ", d.empty(), " expected ", mm.size());
        if (!mm.empty())
        {
            box b = mm[0].first;
            for (auto& x : mm)
                b.grow(x.first);
            box g = box::from(d.extent());
            if (g != b)
                fail(what, ": extent ", g.str(), " expected ", b.str());
        }
        std::size_t n = 0;
        d.walk([&](const typename rt::node_properties& p) {
            if (p.type == rt::node_type::value)
                ++n;
        });
        if (n != mm.size())
            fail(what, ": walk visits ", n, " values, expected ", mm.size());
    }

    void full(tape& t, rt& d, const model& mm, const char* what) const
    {
        check(d, mm, what);
        box all;
        for (std::size_t i = 0; i < D; ++i)
        {
            all.s[i] = std::is_unsigned_v<K> ? K(0) : K(-200);
            all.e[i] = K(200);
        }
        query(t, d, mm, all, false, what);
        for (int i = 0; i < 2; ++i)
        {
            query(t, d, mm, gen(t), t.b(), what);
            if (!mm.empty())
                query(t, d, mm, mm[t.u(uint32_t(mm.size()))].first, t.b(), what);
        }
    }

    struct nd
    {
        std::size_t level, kids = 0;
        int type; // 0 leaf dir 1 nonleaf 2 value
        box b, tight;
    };

    static void shape(rt& d, bool minimum, const char* what)
    {
        std::istringstream is(d.export_tree(rt::export_tree_type::formatted_node_properties));
        std::string line;
        std::vector<nd> st;
        long vlev = -1;
        bool first = true;
        auto close = [&](std::size_t lev) {
            while (st.size() > lev)
            {
                nd& n = st.back();
                if (n.type != 2)
                {
                    if (n.kids > T::max_node_size)
                        fail(what, ": a directory holds ", n.kids, " children");
                    if (minimum && st.size() > 1 && n.kids < T::min_node_size)
                        fail(what, ": a non-root directory holds only ", n.kids, " children");
                    if (st.size() > 1 && n.kids == 0)
                        fail(what, ": an empty directory");
                    if (n.kids && n.tight != n.b)
                        fail(what, ": a box ", n.b.str(), " is not the bounding box of its children ", n.tight.str());
                }
                st.pop_back();
            }
        };
        while (std::getline(is, line))
        {
            nd n;
            n.level = line.find("node:") / 4;
            std::size_t p = line.find("type: ");
            std::string ty = line.substr(p + 6, line.find(';', p) - p - 6);
            n.type = ty == "value" ? 2 : ty.find("nonleaf") != std::string::npos ? 1 : 0;
            p = line.find("extent: ");
            std::string nums = line.substr(p + 8);
            for (char& c : nums)
                if (!std::isdigit(c) && c != '.' && !(c == '-' ))
                    c = ' ';
            std::istringstream ns(nums);
            std::vector<K> vs;
            std::string tok;
            while (ns >> tok)
                if (tok != "-")
                    vs.push_back(K(std::stod(tok)));
            if (vs.size() == D)
                vs.insert(vs.end(), vs.begin(), vs.begin() + D);
            if (vs.size() != 2 * D)
                fail("cannot read ", line);
            for (std::size_t i = 0; i < D; ++i)
                n.b.s[i] = vs[i], n.b.e[i] = vs[D + i];
            if (first != (n.level == 0))
                fail(what, ": more than one root");
            first = false;
            close(n.level);
            if (n.level)
            {
                nd& par = st.at(n.level - 1);
                if (par.type == 2 || (par.type == 0) != (n.type == 2))
                    fail(what, ": a child of the wrong type: ", line);
                if (par.kids++)
                    par.tight.grow(n.b);
                else
                    par.tight = n.b;
            }
            else if (n.type == 2)
                fail(what, ": the root is a value");
            if (n.type == 2)
            {
                if (vlev < 0)
                    vlev = long(n.level);
                if (vlev != long(n.level))
                    fail(what, ": values at levels ", vlev, " and ", n.level);
            }
            st.push_back(n);
        }
        close(0);
        typename rt::integrity_check_properties pr;
        pr.throw_on_first_error = true;
        pr.error_on_min_node_size = minimum;
        try
        {
            d.check_integrity(pr);
        }
        catch (const std::exception& e)
        {
            fail(what, ": check_integrity: ", e.what());
        }
    }

    void drop(tape& t, rt& d, model& mm, const box& q)
    {
        auto res = d.search(q.to(), rt::search_type::overlap);
        std::size_t n = std::size_t(std::distance(res.begin(), res.end()));
        if (!n)
            return;
        std::size_t k = t.u(uint32_t(n));
        auto it = res.begin();
        std::advance(it, k);
        item x(box::from(it.extent()), num(*it));
        t.op("erase ", x.first.str(), " = ", x.second);
        if (t.b())
            d.erase(it);
        else
        {
            const rt& cd = d;
            auto cres = cd.search(x.first.to(), rt::search_type::match);
            auto ci = cres.begin();
            while (ci != cres.end() && num(*ci) != x.second)
                ++ci;
            if (ci == cres.end())
                fail("match search does not find ", x.first.str());
            d.erase(ci);
        }
        auto f = std::find(mm.begin(), mm.end(), x);
        if (f == mm.end())
            fail("search found an item that is not in the tree");
        mm.erase(f);
    }

    void load(tape& t, rt& d, model& mm)
    {
        mm.clear();
        typename rt::bulk_loader l;
        std::size_t n = t.chance(1, 6) ? t.u(4) : t.u(uint32_t(T::max_node_size * T::max_node_size * 2));
        for (std::size_t i = 0; i < n; ++i)
        {
            box b = gen(t);
            int k = next++;
            t.op("bulk insert ", b.str(), " = ", k);
            V v = mk<V>(k);
            if (b.point() && t.b())
                t.b() ? l.insert(b.spt(), v) : l.insert(b.spt(), std::move(v));
            else
                t.b() ? l.insert(b.to(), v) : l.insert(b.to(), std::move(v));
            mm.emplace_back(b, k);
        }
        t.op("pack");
        d = l.pack();
        bulk = true;
    }

    void build(tape& t)
    {
        if (t.chance(1, 5))
            load(t, db, m);
        std::size_t n = std::size_t(t.chance(1, 3) ? t.i(0, int(T::max_node_size * T::max_node_size * 2)) : t.i(0, int(T::max_node_size) * 4));
        box all;
        for (std::size_t i = 0; i < D; ++i)
        {
            all.s[i] = std::is_unsigned_v<K> ? K(0) : K(-200);
            all.e[i] = K(200);
        }
        bool er = t.b();
        for (std::size_t i = 0; i < n; ++i)
        {
            if (er && t.chance(1, 3))
                drop(t, db, m, all);
            else
                put(t, db, m);
        }
    }
};

template<typename F>
void search_case(tape& t)
{
    F f(t);
    f.build(t);
    f.full(t, f.db, f.m, "built");
    int n = t.i(0, 12);
    for (int i = 0; i < n; ++i)
    {
        switch (t.u(3))
        {
            case 0:
                f.put(t, f.db, f.m);
                break;
            case 1:
                f.drop(t, f.db, f.m, f.gen(t));
                break;
            default:
            {
                auto q = f.gen(t);
                bool match = t.b();
                t.op("search ", q.str(), match ? " match" : " overlap");
                F::query(t, f.db, f.m, q, match, "search");
            }
        }
    }
    f.full(t, f.db, f.m, "end");
    if (f.m.size() > 4)
        t.hit();
}

template<typename F>
void shape_case(tape& t)
{
    F f(t);
    if (t.chance(1, 5))
    {
        f.load(t, f.db, f.m);
        F::shape(f.db, false, "bulk loaded");
        F::check(f.db, f.m, "bulk loaded");
    }
    int n = t.chance(1, 3) ? t.i(0, 150) : t.i(0, 40);
    typename F::box all;
    for (auto& v : all.s)
        v = typename std::remove_reference_t<decltype(v)>(0), v = v > v - 1 ? v - 200 : 0;
    for (auto& v : all.e)
        v = 200;
    uint32_t bias = 1 + t.u(4);
    for (int i = 0; i < n; ++i)
    {
        if (t.chance(1, 20))
            bias = 1 + t.u(6);
        if (t.u(8) < bias)
            f.drop(t, f.db, f.m, all);
        else
            f.put(t, f.db, f.m);
        F::shape(f.db, !f.bulk, "after a change");
        F::check(f.db, f.m, "after a change");
    }
    if (t.chance(1, 4))
    {
        t.op("erase all");
        while (!f.m.empty())
        {
            f.drop(t, f.db, f.m, all);
            F::shape(f.db, !f.bulk, "erasing all");
            F::check(f.db, f.m, "erasing all");
        }
    }
    f.full(t, f.db, f.m, "end");
    t.hit();
}

template<typename F>
void copy_case(tape& t)
{
    using rt = typename F::rt;
    F f(t);
    f.build(t);
    auto m0 = f.m;
    auto work = [&](rt& d, typename F::model& mm, const char* what) {
        typename F::box all;
        for (std::size_t i = 0; i < F::D; ++i)
        {
            all.s[i] = 0;
            all.s[i] = all.s[i] > all.s[i] - 1 ? all.s[i] - 200 : 0;
            all.e[i] = 200;
        }
        int n = t.i(0, 12);
        for (int i = 0; i < n; ++i)
            t.b() ? f.put(t, d, mm) : f.drop(t, d, mm, all);
        F::shape(d, !f.bulk, what);
        f.full(t, d, mm, what);
    };
    auto other = [&](rt& d, typename F::model& mm) {
        int n = t.i(0, 14);
        for (int i = 0; i < n; ++i)
            f.put(t, d, mm);
    };
    switch (t.u(6))
    {
        case 0:
        {
            t.op("copy construct");
            rt c(f.db);
            auto mc = f.m;
            work(f.db, f.m, "source after copy");
            F::shape(c, !f.bulk, "copy");
            f.full(t, c, mc, "copy");
            if (t.b())
                f.db.clear(), f.m.clear();
            work(c, mc, "copy changed");
            f.full(t, f.db, f.m, "source");
            break;
        }
        case 1:
        {
            t.op("move construct");
            rt c(std::move(f.db));
            auto mc = f.m;
            f.full(t, c, mc, "moved");
            f.m.clear();
            f.full(t, f.db, f.m, "moved-from");
            work(f.db, f.m, "moved-from used");
            work(c, mc, "moved used");
            break;
        }
        case 2:
        {
            t.op("copy assign");
            rt c;
            typename F::model mc;
            other(c, mc);
            c = f.db;
            mc = f.m;
            work(f.db, f.m, "source after assign");
            f.full(t, c, mc, "assigned");
            work(c, mc, "assigned used");
            f.full(t, f.db, f.m, "source");
            break;
        }
        case 3:
        {
            t.op("move assign");
            rt c;
            typename F::model mc;
            other(c, mc);
            c = std::move(f.db);
            mc = f.m;
            f.m.clear();
            f.full(t, c, mc, "move-assigned");
            f.full(t, f.db, f.m, "moved-from");
            work(f.db, f.m, "moved-from used");
            work(c, mc, "move-assigned used");
            break;
        }
        case 4:
        {
            t.op("swap");
            rt c;
            typename F::model mc;
            other(c, mc);
            c.swap(f.db);
            std::swap(mc, f.m);
            f.full(t, c, mc, "swapped");
            f.full(t, f.db, f.m, "swapped 2");
            work(f.db, f.m, "swapped 2 used");
            work(c, mc, "swapped used");
            break;
        }
        default:
        {
            if (t.b())
            {
                t.op("self assign");
                rt& r = f.db;
                f.db = r;
                f.full(t, f.db, f.m, "self-assigned");
                work(f.db, f.m, "self-assigned used");
            }
            else
            {
                t.op("clear");
                f.db.clear();
                f.m.clear();
                f.full(t, f.db, f.m, "cleared");
                f.bulk = false;
                work(f.db, f.m, "cleared used");
            }
        }
    }
    t.hit();
}

using F1 = fixture<int, int, tr<2, 2, 5, true, 2>>;
using F2 = fixture<int, std::string, tr<2, 2, 5, false, 0>>;
using F3 = fixture<double, leaky, tr<3, 2, 4, true, 1>>;
using F4 = fixture<int, leaky, tr<1, 3, 7, true, 2>>;
using F5 = fixture<int, int, tr<2, 4, 9, true, 3>>;

#define PICK(c)                                                                                                        \
    [](tape& t) {                                                                                                      \
        switch (t.u(5))                                                                                                \
        {                                                                                                              \
            case 0: return c<F1>(t);                                                                                   \
            case 1: return c<F2>(t);                                                                                   \
            case 2: return c<F3>(t);                                                                                   \
            case 3: return c<F4>(t);                                                                                   \
            default: return c<F5>(t);                                                                                  \
        }                                                                                                              \
    }

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(
        argc, argv, {{"search", PICK(search_case)}, {"shape", PICK(shape_case)}, {"copy", PICK(copy_case)}});
}
