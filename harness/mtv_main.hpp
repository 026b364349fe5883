// Concrete stage for multi_type_vector: operation histories on one or two containers against plain arrays.
#include "mtv.hpp"
#include <optional>

namespace {
using namespace mv;

enum opk
{
    o_set,
    o_setr,
    o_insert,
    o_push,
    o_push_empty,
    o_set_empty,
    o_erase,
    o_insert_empty,
    o_resize,
    o_clear,
    o_release,
    o_release_range,
    o_release_all,
    o_shrink,
    o_transfer,
    o_swapr,
    o_swap,
    o_copy,
    o_move,
    o_bad,
    o_n
};

template<typename C>
struct session
{
    using B = box<C>;
    using iter = typename C::iterator;
    static constexpr bool cow = info<C>::cow, nc = info<C>::nc;
    tape& t;
    B b[2];
    std::optional<iter> last[2];
    held h;
    int nk, style;

    static int max_len(tape& t)
    {
        return t.chance(1, 30) ? 100 : t.chance(1, 2) ? 12 : 30;
    }

    int rnd_kind(bool allow_empty)
    {
        static const int ks[] = {k_int, k_str, nc ? k_nobj : k_obj, k_bool};
        if (allow_empty && t.chance(1, 4))
            return k_empty;
        return ks[t.u(uint32_t(nk))];
    }
    int rnd_val()
    {
        return style ? t.i(0, 3) : t.i(0, 999);
    }

    session(tape& _t, int) : t(_t), nk(1), style(0) {}
    session(tape& _t) : t(_t), nk(t.i(1, 4)), style(t.i(0, 1))
    {
        for (int q = 0; q < 2; ++q)
        {
            int n = t.i(0, max_len(t));
            std::vector<el>& m = b[q].m;
            // initial content by push_back, runs of 1..4
            while (int(m.size()) < n)
            {
                int k = rnd_kind(true);
                for (int r = style ? 1 : t.i(1, 4); r > 0; --r)
                {
                    el e = fresh<C>(k, rnd_val());
                    if (k == k_empty)
                        b[q].c.push_back_empty();
                    else
                        with<C>(e, [&](auto v) { b[q].c.push_back(v); });
                    m.push_back(e);
                }
            }
            t.op("container ", q, " = ", m);
        }
    }

    void check_live(const char* what)
    {
        if (cow)
            return;
        std::set<const obj*> e;
        auto add = [&](const el& x) {
            if (x.p)
                HZ_CHECK(e.insert((const obj*)x.p).second, "model error");
        };
        for (auto& bb : b)
            for (auto& x : bb.m)
                add(x);
        for (auto& x : h.objs)
            add(x);
        const auto& l = obj::live();
        for (auto* p : e)
            HZ_CHECK(l.count(p), what << ": an object still owned was destroyed");
        HZ_CHECK(l.size() == e.size(), what << ": " << l.size() << " objects alive, expected " << e.size());
    }

    std::optional<iter> hint(int q)
    {
        if (t.b())
            return {};
        if (last[q] && (cow || t.b()))
        {
            auto r = last[q];
            return r;
        }
        if constexpr (!cow)
        {
            auto it = b[q].c.begin();
            for (uint32_t n = t.u(uint32_t(b[q].c.block_size() + 1)); n > 0; --n)
                ++it;
            return it;
        }
        return {};
    }

    std::vector<el> rnd_range(int maxn)
    {
        std::vector<el> r;
        int k = rnd_kind(false);
        for (int n = t.chance(1, 8) ? 0 : t.i(1, std::max(1, maxn)); n > 0; --n)
            r.push_back(fresh<C>(k, rnd_val()));
        return r;
    }

    // calls f(begin, end) with iterators over the values
    template<typename F>
    void with_range(const std::vector<el>& r, F f)
    {
        el z;
        z.k = k_int;
        with<C>(r.empty() ? z : r[0], [&](auto v0) {
            using T = decltype(v0);
            std::vector<T> a;
            std::deque<T> d;
            std::vector<T> rev;
            for (auto& e : r)
                with<C>(e, [&](auto v) {
                    if constexpr (std::is_same_v<decltype(v), T>)
                        a.push_back(v), d.push_back(v);
                });
            if constexpr (!std::is_same_v<T, bool>)
                if (t.b())
                    return f(a.data(), a.data() + a.size());
            f(d.cbegin(), d.cend());
        });
    }

    void forget(int q)
    {
        last[q].reset();
    }

    void mutate(int q, int op)
    {
        B& x = b[q];
        auto& m = x.m;
        std::size_t n = m.size();
        auto hp = hint(q);
        const char* hs = hp ? " with hint " : " ";
        std::size_t hb = hp ? (*hp)->__private_data.block_index : 0;
        bool had = bool(hp);
        forget(q);
        switch (op)
        {
            case o_set:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n));
                el e = fresh<C>(rnd_kind(false), rnd_val());
                t.op("c", q, ".set(", p, ", ", e, ")", hs, hb, " on ", m);
                m[p] = e;
                with<C>(e, [&](auto v) {
                    iter it = had ? x.c.set(*hp, p, v) : x.c.set(p, v);
                    x.check_ret(it, p, false, "set");
                    last[q] = it;
                });
                t.hit();
                break;
            }
            case o_setr:
            {
                std::size_t p = t.u(uint32_t(n + 1));
                auto r = rnd_range(int(std::min<std::size_t>(n - p, 8)));
                if (p + r.size() > n)
                {
                    for (auto& e : r)
                        h.add(e);
                    return;
                }
                t.op("c", q, ".set(", p, ", ", r, ")", hs, hb, " on ", m);
                std::copy(r.begin(), r.end(), m.begin() + p);
                with_range(r, [&](auto i, auto j) {
                    iter it = had ? x.c.set(*hp, p, i, j) : x.c.set(p, i, j);
                    x.check_ret(it, p, r.empty(), "set range");
                    last[q] = it;
                });
                t.hit();
                break;
            }
            case o_insert:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n));
                auto r = rnd_range(8);
                t.op("c", q, ".insert(", p, ", ", r, ")", hs, hb, " on ", m);
                m.insert(m.begin() + p, r.begin(), r.end());
                with_range(r, [&](auto i, auto j) {
                    iter it = had ? x.c.insert(*hp, p, i, j) : x.c.insert(p, i, j);
                    x.check_ret(it, p, r.empty(), "insert");
                    last[q] = it;
                });
                t.hit();
                break;
            }
            case o_push:
            {
                el e = fresh<C>(rnd_kind(false), rnd_val());
                bool em = t.b();
                t.op("c", q, em ? ".emplace_back(" : ".push_back(", e, ") on ", m);
                m.push_back(e);
                with<C>(e, [&](auto v) {
                    using T = decltype(v);
                    auto v2 = v;
                    iter it = em ? x.c.template emplace_back<T>(v) : t.b() ? x.c.push_back(v) : x.c.push_back(std::move(v2));
                    x.check_ret(it, n, false, "push_back");
                    last[q] = it;
                });
                t.hit();
                break;
            }
            case o_push_empty:
            {
                t.op("c", q, ".push_back_empty() on ", m);
                m.push_back({});
                iter it = x.c.push_back_empty();
                x.check_ret(it, n, false, "push_back_empty");
                last[q] = it;
                break;
            }
            case o_set_empty:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n)), e = p + t.u(uint32_t(std::min<std::size_t>(n - p, t.b() ? 3 : 40)));
                t.op("c", q, ".set_empty(", p, ", ", e, ")", hs, hb, " on ", m);
                std::fill(m.begin() + p, m.begin() + e + 1, el());
                iter it = had ? x.c.set_empty(*hp, p, e) : x.c.set_empty(p, e);
                x.check_ret(it, p, false, "set_empty");
                last[q] = it;
                t.hit();
                break;
            }
            case o_erase:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n)), e = p + t.u(uint32_t(std::min<std::size_t>(n - p, t.b() ? 3 : 40)));
                t.op("c", q, ".erase(", p, ", ", e, ") on ", m);
                m.erase(m.begin() + p, m.begin() + e + 1);
                x.c.erase(p, e);
                t.hit();
                break;
            }
            case o_insert_empty:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n)), len = t.u(6);
                t.op("c", q, ".insert_empty(", p, ", ", len, ")", hs, hb, " on ", m);
                m.insert(m.begin() + p, len, el());
                iter it = had ? x.c.insert_empty(*hp, p, len) : x.c.insert_empty(p, len);
                x.check_ret(it, p, len == 0, "insert_empty");
                last[q] = it;
                t.hit();
                break;
            }
            case o_resize:
            {
                std::size_t k = t.chance(1, 8) ? 0 : t.b() ? t.u(uint32_t(n + 1)) : n + t.u(5);
                t.op("c", q, ".resize(", k, ") on ", m);
                m.resize(k);
                x.c.resize(k);
                t.hit();
                break;
            }
            case o_clear:
                t.op("c", q, ".clear()");
                m.clear();
                x.c.clear();
                break;
            case o_shrink:
                t.op("c", q, ".shrink_to_fit()");
                x.c.shrink_to_fit();
                break;
            case o_release:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n));
                if (m[p].k == k_empty)
                    return;
                t.op("c", q, ".release(", p, ")", hs, hb, " on ", m);
                if constexpr (cow)
                {
                    x.c.detach();
                    hp.reset();
                    had = false;
                }
                el e = m[p];
                m[p] = el();
                with<C>(e, [&](auto v) {
                    using T = decltype(v);
                    T w{};
                    if (!had && t.b())
                        w = x.c.template release<T>(p);
                    else
                    {
                        iter it = had ? x.c.release(*hp, p, w) : x.c.release(p, w);
                        x.check_ret(it, p, false, "release");
                        last[q] = it;
                    }
                    if constexpr (std::is_pointer_v<T>)
                    {
                        HZ_CHECK(obj::live().count(w), "release: the released object was destroyed");
                        HZ_CHECK(w->v == e.v && (cow || w == v), "release gave another object");
                        e.p = w;
                        h.add(e);
                    }
                    else
                        HZ_CHECK(w == v, "release gave another value");
                });
                t.hit();
                break;
            }
            case o_release_range:
            case o_release_all:
            {
                if (!n)
                    return;
                std::size_t p = t.u(uint32_t(n)), e = p + t.u(uint32_t(std::min<std::size_t>(n - p, t.b() ? 3 : 40)));
                if (op == o_release_all)
                    p = 0, e = n - 1;
                t.op("c", q, op == o_release_all ? ".release(" : ".release_range(", p, ", ", e, ")", hs, hb, " on ", m);
                if constexpr (cow)
                {
                    x.c.detach();
                    hp.reset();
                    had = false;
                }
                for (std::size_t i = p; i <= e; ++i)
                {
                    if (m[i].p)
                    {
                        m[i].p = read(x.c, i).p;
                        h.add(m[i]);
                    }
                    m[i] = el();
                }
                if (op == o_release_all)
                {
                    m.clear();
                    x.c.release();
                }
                else
                {
                    iter it = had ? x.c.release_range(*hp, p, e) : x.c.release_range(p, e);
                    x.check_ret(it, p, false, "release_range");
                    last[q] = it;
                }
                t.hit();
                break;
            }
            case o_transfer:
            {
                B& y = b[1 - q];
                std::size_t k = y.m.size();
                if (!n || !k)
                    return;
                std::size_t len = 1 + t.u(uint32_t(std::min({n, k, std::size_t(t.b() ? 4 : 40)})));
                std::size_t p = t.u(uint32_t(n - len + 1)), d = t.u(uint32_t(k - len + 1));
                t.op("c", q, ".transfer(", p, ", ", p + len - 1, ", c", 1 - q, ", ", d, ")", hs, hb, " on ", m, " to ", y.m);
                for (std::size_t i = 0; i < len; ++i)
                {
                    y.m[d + i] = m[p + i];
                    m[p + i] = el();
                }
                forget(1 - q);
                iter it = had ? x.c.transfer(*hp, p, p + len - 1, y.c, d) : x.c.transfer(p, p + len - 1, y.c, d);
                x.check_ret(it, p, false, "transfer");
                last[q] = it;
                t.hit();
                break;
            }
            case o_swapr:
            {
                B& y = b[1 - q];
                std::size_t k = y.m.size();
                if (!n || !k)
                    return;
                std::size_t len = 1 + t.u(uint32_t(std::min({n, k, std::size_t(t.b() ? 4 : 40)})));
                std::size_t p = t.u(uint32_t(n - len + 1)), d = t.u(uint32_t(k - len + 1));
                t.op("c", q, ".swap(", p, ", ", p + len - 1, ", c", 1 - q, ", ", d, ") on ", m, " and ", y.m);
                std::swap_ranges(m.begin() + p, m.begin() + p + len, y.m.begin() + d);
                forget(1 - q);
                x.c.swap(p, p + len - 1, y.c, d);
                t.hit();
                break;
            }
            case o_swap:
                t.op("c0.swap(c1)");
                x.c.swap(b[1 - q].c);
                m.swap(b[1 - q].m);
                forget(1 - q);
                t.hit();
                break;
            case o_move:
                move_op(q);
                break;
            case o_copy:
                copy_op(q);
                break;
            case o_bad:
                bad_op(q);
                break;
        }
    }

    // identity of the objects of a copy: new ones
    void adopt(B& y, const std::vector<el>& src)
    {
        std::set<const void*> s;
        for (auto& e : src)
            s.insert(e.p);
        for (std::size_t i = 0; i < y.m.size() && i < y.c.size(); ++i)
            if (y.m[i].p)
            {
                y.m[i].p = read(y.c, i).p;
                if (!cow)
                    HZ_CHECK(!s.count(y.m[i].p), "copy: element " << i << " shares its object with the source");
            }
    }

    bool has_obj(const std::vector<el>& m, int k)
    {
        for (auto& e : m)
            if (e.k == k)
                return true;
        return false;
    }

    void check_equal(const C& a, const C& c, const std::vector<el>& ma, const std::vector<el>& mc, const char* what)
    {
        // copyable managed blocks compare by address
        if (has_obj(ma, k_obj) || has_obj(mc, k_obj))
            return;
        bool e = ma.size() == mc.size();
        for (std::size_t i = 0; e && i < ma.size(); ++i)
            e = ma[i].same(mc[i]);
        HZ_CHECK((a == c) == e, what << ": operator== on " << ma << " and " << mc);
        HZ_CHECK((c == a) == e, what << ": operator== on " << mc << " and " << ma);
        HZ_CHECK((a != c) == !e, what << ": operator!= on " << ma << " and " << mc);
    }

    void copy_op(int q)
    {
        B &x = b[q], &y = b[1 - q];
        forget(1 - q);
        int how = t.i(0, 5);
        bool blocked = nc && has_obj(x.m, k_nobj);
        t.op("copy of c", q, " to c", 1 - q, " in way ", how, ": ", x.m);
        bool threw = false;
        try
        {
            switch (how)
            {
                case 0:
                    y.c = x.c;
                    break;
                case 1:
                {
                    C tmp(x.c);
                    y.c.swap(tmp);
                    break;
                }
                case 2:
                    y.c = x.c.clone();
                    blocked = false;
                    break;
                case 3:
                {
                    events ev;
                    C tmp([&] {
                        if constexpr (requires(events e) { x.c.clone(std::move(e)); })
                            return x.c.clone(std::move(ev));
                        else
                            return x.c.clone();
                    }());
                    y.c.swap(tmp);
                    blocked = false;
                    break;
                }
                case 4:
                {
                    C& self = x.c;
                    x.c = self;
                    adopt2(x);
                    break;
                }
                default:
                {
                    C tmp = x.c.clone();
                    blocked = false;
                    C tmp2(std::move(tmp));
                    y.c = std::move(tmp2);
                }
            }
        }
        catch (const mtv::element_block_error&)
        {
            threw = true;
        }
        HZ_CHECK(threw == blocked, "copy: " << (threw ? "refused" : "not refused"));
        if (!threw && how != 4)
        {
            y.m = x.m;
            adopt(y, x.m);
            check_equal(x.c, y.c, x.m, y.m, "copy");
        }
        t.hit();
    }
    void adopt2(B& x)
    {
        for (std::size_t i = 0; i < x.m.size() && i < x.c.size(); ++i)
            if (x.m[i].p)
                x.m[i].p = read(x.c, i).p;
    }

    void move_op(int q)
    {
        B &x = b[q], &y = b[1 - q];
        forget(1 - q);
        bool ctor = t.b();
        t.op("move of c", q, " to c", 1 - q, ctor ? " by constructor: " : " by assignment: ", x.m);
        if (ctor)
        {
            C tmp(std::move(x.c));
            tmp.swap(y.c);
        }
        else
            y.c = std::move(x.c);
        y.m = x.m;
        x.m.clear();
        t.hit();
    }

    template<typename F>
    void must_throw(const char* what, F f)
    {
        bool threw = false;
        try
        {
            f();
        }
        catch (const std::out_of_range&)
        {
            threw = true;
        }
        catch (const mdds::invalid_arg_error&)
        {
            threw = true;
        }
        HZ_CHECK(threw, what << ": an invalid position was accepted");
    }

    void bad_op(int q)
    {
        B& x = b[q];
        std::size_t n = x.m.size();
        C& c = x.c;
        const C& cc = x.c;
        std::size_t p = n + t.u(3);
        std::vector<int32_t> v(1 + t.u(4), 7);
        int which = t.i(0, 17);
        std::size_t s = n ? t.u(uint32_t(n)) : 0;
        t.op("invalid call ", which, " on c", q, " position ", p, " start ", s, " count ", v.size(), " on ", x.m);
        auto hp = hint(q);
        int32_t out = 5;
        switch (which)
        {
            case 0:
                must_throw("get", [&] { cc.template get<int32_t>(p); });
                break;
            case 1:
                must_throw("get_type", [&] { cc.get_type(p); });
                break;
            case 2:
                must_throw("is_empty", [&] { cc.is_empty(p); });
                break;
            case 3:
                must_throw("set", [&] { hp ? c.set(*hp, p, int32_t(3)) : c.set(p, int32_t(3)); });
                break;
            case 4:
                must_throw("set range", [&] { std::size_t a = n + 1 > v.size() ? n + 1 - v.size() : 0; hp ? c.set(*hp, a + t.u(3), v.begin(), v.end()) : c.set(a + t.u(3), v.begin(), v.end()); });
                break;
            case 5:
                must_throw("insert", [&] { hp ? c.insert(*hp, p, v.begin(), v.end()) : c.insert(p, v.begin(), v.end()); });
                break;
            case 6:
                must_throw("set_empty", [&] { hp ? c.set_empty(*hp, s, p) : c.set_empty(s, p); });
                break;
            case 7:
                must_throw("set_empty", [&] { c.set_empty(p, p + 1); });
                break;
            case 8:
                must_throw("erase", [&] { c.erase(s, p); });
                break;
            case 9:
                must_throw("erase", [&] { c.erase(p, p + 1); });
                break;
            case 10:
                must_throw("insert_empty", [&] { hp ? c.insert_empty(*hp, p, 2) : c.insert_empty(p, 2); });
                break;
            case 11:
                must_throw("release", [&] { hp ? (void)c.release(*hp, p, out) : t.b() ? (void)c.release(p, out) : (void)c.template release<int32_t>(p); });
                break;
            case 12:
                must_throw("release_range", [&] { hp ? c.release_range(*hp, s, p) : c.release_range(s, p); });
                break;
            case 13:
                must_throw("transfer", [&] { hp ? c.transfer(*hp, s, p, b[1 - q].c, 0) : c.transfer(s, p, b[1 - q].c, 0); });
                break;
            case 14:
                if (n)
                    must_throw("transfer", [&] { c.transfer(s, n - 1, b[1 - q].c, b[1 - q].m.size() + 1 > n - s ? b[1 - q].m.size() + 1 - (n - s) : 0); });
                break;
            case 15:
                must_throw("position", [&] { cc.position(n + 1 + t.u(3)); });
                break;
            case 16:
                must_throw("swap range", [&] { c.swap(s, p, b[1 - q].c, 0); });
                break;
            case 17:
                if (n)
                    must_throw("swap range", [&] { c.swap(s, n - 1, b[1 - q].c, b[1 - q].m.size() + 1 > n - s ? b[1 - q].m.size() + 1 - (n - s) : 0); });
                break;
        }
        HZ_CHECK(out == 5, "release: value written though the position is invalid");
        t.hit();
    }

    void run(const std::vector<int>& w, bool pos)
    {
        int sum = 0;
        for (int x : w)
            sum += x;
        for (int n = t.i(1, 14); n > 0; --n)
        {
            int r = int(t.u(uint32_t(sum))), op = 0;
            while (r >= w[op])
                r -= w[op++];
            int q = t.i(0, 1);
            mutate(q, op);
            b[0].check("c0");
            b[1].check("c1");
            check_live("objects");
            if (pos)
            {
                b[0].check_positions(t, "c0");
                b[1].check_positions(t, "c1");
                check_equal(b[0].c, b[1].c, b[0].m, b[1].m, "comparison");
            }
        }
    }
};

// constructors
template<typename C>
void ctor_case(tape& t)
{
    using S = session<C>;
    (void)sizeof(S);
    box<C> x;
    int n = t.i(0, 9);
    switch (t.u(3))
    {
        case 0:
        {
            t.op("empty of size ", n);
            C c(n);
            x.m.resize(n);
            x.c.swap(c);
            break;
        }
        case 1:
        {
            el e = fresh<C>(t.b() ? k_int : k_str, t.i(0, 9));
            t.op(n, " copies of ", e);
            with<C>(e, [&](auto v) {
                C c(n, v);
                x.c.swap(c);
            });
            x.m.assign(n, e);
            break;
        }
        default:
        {
            std::vector<int32_t> v;
            for (int i = 0; i < n; ++i)
            {
                v.push_back(t.i(0, 99));
                el e;
                e.k = k_int;
                e.v = v.back();
                x.m.push_back(e);
            }
            t.op("from range ", x.m);
            C c(n, v.begin(), v.end());
            x.c.swap(c);
            bool threw = false;
            try
            {
                C d(n + 1, v.begin(), v.end());
            }
            catch (const mdds::invalid_arg_error&)
            {
                threw = true;
            }
            HZ_CHECK(threw, "a range of another length was accepted");
        }
    }
    x.check("constructed");
    t.hit();
}

using mtv::lu_factor_t;

template<typename F>
void pick(tape& t, F f)
{
    return f.template operator()<MV_CONTAINER>();
}

void go(tape& t, std::vector<int> w, bool pos)
{
    pick(t, [&]<typename C>() {
        session<C> s(t);
        s.run(w, pos);
    });
}
//                       set setr ins push pe  se  er  ie  rs  cl  rl  rr  ra  sh  tr  sw  sws cp  mv  bad
void c_write(tape& t)
{
    if (t.chance(1, 40))
        return pick(t, [&]<typename C>() { ctor_case<C>(t); });
    go(t, {8, 8, 8, 4, 1, 2, 1, 1, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0}, false);
}
void c_edit(tape& t)
{
    go(t, {2, 2, 1, 1, 2, 8, 8, 8, 4, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0}, false);
}
void c_move(tape& t)
{
    go(t, {1, 2, 1, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 12, 12, 1, 0, 0, 0}, false);
}
void c_shape(tape& t)
{
    go(t, {3, 3, 2, 1, 1, 2, 2, 2, 1, 1, 1, 1, 0, 1, 2, 2, 1, 1, 1, 0}, true);
}
void c_own(tape& t)
{
    go(t, {3, 3, 2, 1, 1, 3, 3, 1, 2, 1, 5, 5, 1, 1, 3, 3, 1, 1, 1, 0}, false);
}
// two containers that differ in at most one small respect
template<typename C>
void near_case(tape& t)
{
    struct run { int k, n, v; };
    std::vector<run> r;
    int prev = -1;
    for (int n = t.i(1, 6); n > 0; --n)
    {
        static const int ks[] = {k_empty, k_int, k_str, k_bool};
        int k = ks[t.u(4)];
        if (k == prev)
            k = k == k_empty ? k_int : k_empty;
        r.push_back({k, t.i(1, 4), t.i(0, 9)});
        prev = k;
    }
    auto r2 = r;
    int a = t.i(0, int(r.size()) - 1), b = t.i(0, int(r.size()) - 1), how = t.i(0, 4);
    if (how == 1 && r2[a].n > 1)
        r2[a].n--, r2[b].n++; // same total size, same kinds, other run lengths
    else if (how == 2)
        r2[a].v = (r2[a].v + 1) % 10;
    else if (how == 3)
        r2[a].n++;
    else if (how == 4)
        r2[a].k = r2[a].k == k_int ? k_str : k_int;
    box<C> x, y;
    auto build = [&](box<C>& d, const std::vector<run>& rs) {
        for (auto& q : rs)
            for (int i = 0; i < q.n; ++i)
            {
                el e = fresh<C>(q.k, q.v + (q.k == k_bool ? 0 : i));
                if (q.k == k_empty)
                    d.c.push_back_empty();
                else
                    with<C>(e, [&](auto v) { d.c.push_back(v); });
                d.m.push_back(e);
            }
    };
    build(x, r);
    build(y, r2);
    t.op("compare ", x.m, " with ", y.m);
    session<C> s(t, 0);
    s.check_equal(x.c, y.c, x.m, y.m, "comparison");
    s.check_equal(x.c, x.c, x.m, x.m, "comparison with itself");
    t.hit();
}

void c_copy(tape& t)
{
    if (t.chance(1, 6))
        return pick(t, [&]<typename C>() { near_case<C>(t); });
    go(t, {3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 8, 4, 0}, true);
}
void c_bad(tape& t)
{
    go(t, {1, 1, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 12}, false);
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(
        argc, argv,
        {{"write", c_write}, {"edit", c_edit}, {"move", c_move}, {"shape", c_shape}, {"own", c_own}, {"copy", c_copy}, {"bad", c_bad}});
}
