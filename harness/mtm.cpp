// Concrete stage for multi_type_matrix against a column-major array of tagged cells.
#include "common.hpp"
#include <variant>
#include <mdds/multi_type_matrix.hpp>

using hz::fail;
using hz::tape;

namespace {

struct wide_traits
{
    typedef mdds::mtv::int64_element_block integer_element_block;
    typedef mdds::mtv::string_element_block string_element_block;
};

template<typename T>
struct fixture
{
    using mx = mdds::multi_type_matrix<T>;
    using I = typename mx::integer_type;
    using cell = std::variant<std::monostate, double, bool, I, std::string>;
    using pos_t = typename mx::position_type;
    using cpos_t = typename mx::const_position_type;
    using sp = typename mx::size_pair_type;
    using node = typename mx::element_block_node_type;
    struct model
    {
        std::size_t r = 0, c = 0;
        std::vector<cell> v;
        cell& at(std::size_t i, std::size_t j)
        {
            return v.at(j * r + i);
        }
        const cell& at(std::size_t i, std::size_t j) const
        {
            return v.at(j * r + i);
        }
        bool operator==(const model&) const = default;
    };

    static std::string str(const cell& x)
    {
        std::ostringstream os;
        switch (x.index())
        {
            case 0: os << "-"; break;
            case 1: os << std::get<1>(x) << "d"; break;
            case 2: os << (std::get<2>(x) ? "true" : "false"); break;
            case 3: os << std::get<3>(x) << "i"; break;
            default: os << '"' << std::get<4>(x) << '"';
        }
        return os.str();
    }
    static std::string str(const std::vector<cell>& v)
    {
        std::string s;
        for (auto& x : v)
            s += " " + str(x);
        return s;
    }
    static cell gen(tape& t, uint32_t kind)
    {
        switch (kind)
        {
            case 0: return cell();
            case 1: return cell(t.i(-6, 6) / 2.0);
            case 2: return cell(t.b());
            case 3: return cell(I(t.i(-5, 5)));
            default: return cell(std::string(t.u(20) == 0 ? 30 : t.u(4), char('a' + t.u(4))));
        }
    }
    static mdds::mtm::element_t type(const cell& x)
    {
        switch (x.index())
        {
            case 0: return mdds::mtm::element_empty;
            case 1: return mdds::mtm::element_numeric;
            case 2: return mdds::mtm::element_boolean;
            case 3: return mdds::mtm::element_integer;
            default: return mdds::mtm::element_string;
        }
    }
    static double num(const cell& x)
    {
        switch (x.index())
        {
            case 1: return std::get<1>(x);
            case 2: return std::get<2>(x);
            case 3: return double(std::get<3>(x));
            default: return 0;
        }
    }
    template<typename P>
    static cell read(const mx& m, const P& pos)
    {
        switch (m.get_type(pos))
        {
            case mdds::mtm::element_empty: return cell();
            case mdds::mtm::element_numeric: return cell(m.get_numeric(pos));
            case mdds::mtm::element_boolean: return cell(m.get_boolean(pos));
            case mdds::mtm::element_integer: return cell(m.get_integer(pos));
            case mdds::mtm::element_string: return cell(std::string(m.get_string(pos)));
            default: fail("unknown type");
        }
    }
    static void append(std::vector<cell>& out, const node& n)
    {
        switch (n.type)
        {
            case mdds::mtm::element_empty:
                for (std::size_t i = 0; i < n.size; ++i)
                    out.push_back(cell());
                break;
            case mdds::mtm::element_numeric:
                for (auto it = n.template begin<typename mx::numeric_block_type>(), e = n.template end<typename mx::numeric_block_type>(); it != e; ++it)
                    out.push_back(cell(double(*it)));
                break;
            case mdds::mtm::element_boolean:
                for (auto it = n.template begin<typename mx::boolean_block_type>(), e = n.template end<typename mx::boolean_block_type>(); it != e; ++it)
                    out.push_back(cell(bool(*it)));
                break;
            case mdds::mtm::element_integer:
                for (auto it = n.template begin<typename mx::integer_block_type>(), e = n.template end<typename mx::integer_block_type>(); it != e; ++it)
                    out.push_back(cell(I(*it)));
                break;
            default:
                for (auto it = n.template begin<typename mx::string_block_type>(), e = n.template end<typename mx::string_block_type>(); it != e; ++it)
                    out.push_back(cell(std::string(*it)));
        }
    }

    static void check(tape& t, mx& m, const model& w, const char* what)
    {
        const mx& c = m;
        sp s = m.size();
        if (s.row != w.r || s.column != w.c)
            fail(what, ": size ", s.row, "x", s.column, " expected ", w.r, "x", w.c);
        if (m.empty() != w.v.empty())
            fail(what, ": empty() is ", m.empty());
        bool numeric = !w.v.empty();
        for (auto& x : w.v)
            if (x.index() == 0 || x.index() == 4)
                numeric = false;
        if (m.numeric() != numeric)
            fail(what, ": numeric() is ", m.numeric());
        std::size_t n = w.v.size();
        cpos_t p, hint;
        if (n)
            p = c.position(0, 0), hint = p;
        for (std::size_t k = 0; k < n; ++k)
        {
            std::size_t i = k % w.r, j = k / w.r;
            if (m.get_type(i, j) != type(w.v[k]))
                fail(what, ": type at (", i, ",", j, ") is ", m.get_type(i, j), " expected ", str(w.v[k]));
            cell g = read(m, c.position(i, j));
            if (g != w.v[k])
                fail(what, ": (", i, ",", j, ") is ", str(g), " expected ", str(w.v[k]));
            if (m.get_numeric(i, j) != num(w.v[k]) || m.get_boolean(i, j) != bool(num(w.v[k])) || m.get_integer(i, j) != I(num(w.v[k])))
                fail(what, ": numeric read of (", i, ",", j, ") is ", m.get_numeric(i, j), " expected ", str(w.v[k]));
            if (w.v[k].index() == 4)
            {
                if (m.get_string(i, j) != std::get<4>(w.v[k]) || m.template get<std::string>(i, j) != std::get<4>(w.v[k]))
                    fail(what, ": string read of (", i, ",", j, ")");
            }
            else
            {
                bool thrown = false;
                try
                {
                    m.get_string(i, j);
                }
                catch (const mdds::general_error&)
                {
                    thrown = true;
                }
                if (!thrown)
                    fail(what, ": get_string of a non-string does not throw");
            }
            // walk by positions
            if (!(p == c.position(i, j)))
                fail(what, ": next_position does not lead to (", i, ",", j, ")");
            sp mp = c.matrix_position(p);
            if (mp.row != i || mp.column != j)
                fail(what, ": matrix_position gives ", mp.row, ",", mp.column, " expected ", i, ",", j);
            std::size_t q = t.verbose() || k % 3 ? (k * 7 + 3) % n : k;
            hint = c.position(hint, q % w.r, q / w.r);
            if (!(hint == c.position(q % w.r, q / w.r)))
                fail(what, ": position with a hint");
            pos_t mpz = m.position(i, j);
            if (read(m, mpz) != w.v[k])
                fail(what, ": mutable position");
            p = mx::next_position(p);
        }
        if (n && !(p == c.end_position()))
            fail(what, ": next_position does not end at end_position");
        std::vector<cell> got;
        m.walk([&](const node& nd) { append(got, nd); });
        if (got != w.v)
            fail(what, ": walk gives", str(got), " expected", str(w.v));
    }

    mx m;
    model w;
    static void make(tape& t, mx& m, model& w, std::size_t maxn = 6)
    {
        w.r = t.i(1, int(maxn));
        w.c = t.i(1, int(maxn));
        switch (t.u(4))
        {
            case 0:
            {
                t.op("matrix ", w.r, "x", w.c);
                m = mx(w.r, w.c);
                w.v.assign(w.r * w.c, cell());
                break;
            }
            case 1:
            {
                cell x = gen(t, 1 + t.u(4));
                t.op("matrix ", w.r, "x", w.c, " of ", str(x));
                std::visit([&](const auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        m = mx(w.r, w.c, v);
                }, x);
                w.v.assign(w.r * w.c, x);
                break;
            }
            default:
            {
                uint32_t k = 1 + t.u(4);
                w.v.clear();
                for (std::size_t i = 0; i < w.r * w.c; ++i)
                    w.v.push_back(gen(t, k));
                t.op("matrix ", w.r, "x", w.c, " from", str(w.v));
                arr(w.v, [&](const auto& a) { m = mx(w.r, w.c, a.begin(), a.end()); });
            }
        }
        int n = t.i(0, 10);
        for (int i = 0; i < n; ++i)
            put(t, m, w);
    }
    // call f with a typed array holding v (all of one type)
    template<typename F>
    static void arr(const std::vector<cell>& v, F f)
    {
        switch (v.empty() ? 1 : v[0].index())
        {
            case 1: return arr1<double>(v, f);
            case 2: return arr1<bool>(v, f);
            case 3: return arr1<I>(v, f);
            default: return arr1<std::string>(v, f);
        }
    }
    template<typename X, typename F>
    static void arr1(const std::vector<cell>& v, F f)
    {
        std::vector<X> a;
        for (auto& x : v)
            a.push_back(std::get<X>(x));
        f(a);
    }

    // every way of writing
    static void put(tape& t, mx& m, model& w)
    {
        if (w.v.empty())
            return;
        std::size_t i = t.u(uint32_t(w.r)), j = t.u(uint32_t(w.c)), k = j * w.r + i;
        auto back = [&](const pos_t& p) {
            sp s = m.matrix_position(p);
            if (s.row != i || s.column != j)
                fail("the returned position is (", s.row, ",", s.column, ")");
            if (read(m, p) != w.v[k])
                fail("the returned position does not refer to the element written");
        };
        auto where = [&]() {
            if (t.b())
                return m.position(i, j);
            return m.position(m.position(t.u(uint32_t(w.r)), t.u(uint32_t(w.c))), i, j);
        };
        switch (t.u(9))
        {
            case 0:
            case 1:
            {
                cell x = gen(t, 1 + t.u(4));
                t.op("set (", i, ",", j, ") ", str(x));
                w.v[k] = x;
                std::visit([&](const auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        m.set(i, j, v);
                }, x);
                break;
            }
            case 2:
            {
                cell x = gen(t, 1 + t.u(4));
                t.op("set position (", i, ",", j, ") ", str(x));
                w.v[k] = x;
                std::visit([&](const auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        back(m.set(where(), v));
                }, x);
                break;
            }
            case 3:
            {
                t.op("set_empty (", i, ",", j, ")");
                w.v[k] = cell();
                if (t.b())
                    m.set_empty(i, j);
                else
                    back(m.set_empty(where()));
                break;
            }
            case 4:
            {
                std::size_t n = 1 + t.u(uint32_t(w.v.size() - k));
                t.op("set_empty (", i, ",", j, ") length ", n);
                m.set_empty(i, j, n);
                std::fill(w.v.begin() + k, w.v.begin() + k + n, cell());
                break;
            }
            case 5:
            {
                uint32_t kind = 1 + t.u(4);
                std::size_t n = 1 + t.u(uint32_t(w.v.size() - k));
                std::vector<cell> a;
                for (std::size_t q = 0; q < n; ++q)
                    a.push_back(gen(t, kind));
                t.op("set (", i, ",", j, ") range", str(a));
                std::copy(a.begin(), a.end(), w.v.begin() + k);
                arr(a, [&](const auto& z) {
                    if (t.b())
                        m.set(i, j, z.begin(), z.end());
                    else
                        back(m.set(where(), z.begin(), z.end()));
                });
                break;
            }
            case 6:
            {
                uint32_t kind = 1 + t.u(4);
                std::size_t n = 1 + t.u(uint32_t(w.r + 2));
                std::vector<cell> a;
                for (std::size_t q = 0; q < n; ++q)
                    a.push_back(gen(t, kind));
                t.op("set_column ", j, str(a));
                for (std::size_t q = 0; q < n && q < w.r; ++q)
                    w.at(q, j) = a[q];
                arr(a, [&](const auto& z) { m.set_column(j, z.begin(), z.end()); });
                break;
            }
            case 7:
                t.op("set_column_empty ", j);
                m.set_column_empty(j);
                for (std::size_t q = 0; q < w.r; ++q)
                    w.at(q, j) = cell();
                break;
            default:
                t.op("set_row_empty ", i);
                m.set_row_empty(i);
                for (std::size_t q = 0; q < w.c; ++q)
                    w.at(i, q) = cell();
        }
    }

    static model resized(const model& w, std::size_t r, std::size_t c, const cell& fill)
    {
        model z;
        if (!r || !c)
            return z;
        z.r = r;
        z.c = c;
        z.v.assign(r * c, fill);
        for (std::size_t i = 0; i < std::min(r, w.r); ++i)
            for (std::size_t j = 0; j < std::min(c, w.c); ++j)
                z.at(i, j) = w.at(i, j);
        return z;
    }

    static void access_case(tape& t)
    {
        fixture f;
        make(t, f.m, f.w);
        check(t, f.m, f.w, "built");
        int n = t.i(0, 8);
        for (int i = 0; i < n; ++i)
        {
            put(t, f.m, f.w);
            check(t, f.m, f.w, "after a write");
        }
        t.hit();
    }

    static void reshape(tape& t, mx& m, model& w)
    {
        switch (t.u(9))
        {
            case 0:
            {
                t.op("transpose");
                model z;
                z.r = w.c;
                z.c = w.r;
                z.v.resize(w.v.size());
                for (std::size_t i = 0; i < w.r; ++i)
                    for (std::size_t j = 0; j < w.c; ++j)
                        z.at(j, i) = w.at(i, j);
                if (&m.transpose() != &m)
                    fail("transpose does not return the matrix");
                w = z;
                break;
            }
            case 1:
            {
                std::size_t r = t.u(8), c = t.u(8);
                t.op("resize ", r, "x", c);
                m.resize(r, c);
                w = resized(w, r, c, cell());
                break;
            }
            case 2:
            {
                std::size_t r = t.u(8), c = t.u(8);
                cell x = gen(t, 1 + t.u(4));
                t.op("resize ", r, "x", c, " with ", str(x));
                std::visit([&](const auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        m.resize(r, c, v);
                }, x);
                w = resized(w, r, c, x);
                break;
            }
            case 3:
            case 4:
            {
                fixture g;
                if (t.chance(7, 8))
                    make(t, g.m, g.w, 7);
                t.op("copy from ", g.w.r, "x", g.w.c, " into ", w.r, "x", w.c);
                m.copy(g.m);
                for (std::size_t i = 0; i < std::min(w.r, g.w.r); ++i)
                    for (std::size_t j = 0; j < std::min(w.c, g.w.c); ++j)
                        w.at(i, j) = g.w.at(i, j);
                check(t, g.m, g.w, "source of copy");
                break;
            }
            case 5:
            {
                if (w.v.empty())
                    break;
                std::size_t r = 1 + t.u(uint32_t(w.r)), c = 1 + t.u(uint32_t(w.c));
                std::vector<cell> a;
                uint32_t kind = 1 + t.u(4);
                for (std::size_t q = 0; q < r * c; ++q)
                    a.push_back(gen(t, kind));
                t.op("copy array ", r, "x", c, str(a));
                arr(a, [&](const auto& z) { m.copy(r, c, z.begin(), z.end()); });
                for (std::size_t q = 0; q < r * c; ++q)
                    w.at(q % r, q / r) = a[q];
                break;
            }
            case 6:
                if (t.chance(1, 3))
                {
                    t.op("clear");
                    m.clear();
                    w = model();
                    break;
                }
                if (t.b())
                {
                    t.op("copy from itself");
                    m.copy(m);
                }
                break;
            case 7:
            {
                fixture g;
                if (t.chance(7, 8))
                    make(t, g.m, g.w);
                t.op("swap");
                m.swap(g.m);
                std::swap(w, g.w);
                check(t, g.m, g.w, "swapped");
                break;
            }
            default:
            {
                if (t.b())
                {
                    t.op("copy construct");
                    mx c(m);
                    model wc = w;
                    if (!(c == m) || c != m)
                        fail("a copy does not compare equal");
                    put(t, m, w);
                    check(t, c, wc, "copy");
                    bool eq = w == wc;
                    if ((c == m) != eq)
                        fail("== gives ", c == m);
                    put(t, c, wc);
                    if (t.b())
                        m = c, w = wc;
                }
                else
                {
                    t.op("move");
                    mx c(std::move(m));
                    check(t, c, w, "moved");
                    m = std::move(c);
                }
            }
        }
    }

    static void reshape_case(tape& t)
    {
        fixture f;
        make(t, f.m, f.w);
        int n = t.i(1, 6);
        for (int i = 0; i < n; ++i)
        {
            reshape(t, f.m, f.w);
            check(t, f.m, f.w, "after an operation");
            if (t.b())
                put(t, f.m, f.w);
        }
        t.hit();
    }

    static void walk_case(tape& t)
    {
        fixture f, g;
        make(t, f.m, f.w);
        make(t, g.m, g.w);
        if (t.b())
        {
            t.op("resize ", f.w.r, "x", f.w.c);
            g.m.resize(f.w.r, f.w.c);
            g.w = resized(g.w, f.w.r, f.w.c, cell());
        }
        for (int k = 0; k < 4; ++k)
        {
            bool two = t.b();
            std::size_t mr = two ? std::max(f.w.r, g.w.r) : f.w.r, mc = two ? std::max(f.w.c, g.w.c) : f.w.c;
            std::size_t r0 = t.u(uint32_t(mr)), c0 = t.u(uint32_t(mc)), r1 = t.u(uint32_t(mr + 1)), c1 = t.u(uint32_t(mc + 1));
            if (t.chance(3, 4))
            {
                if (r1 < r0)
                    std::swap(r0, r1);
                if (c1 < c0)
                    std::swap(c0, c1);
            }
            bool ok = r0 <= r1 && c0 <= c1 && r1 < f.w.r && c1 < f.w.c && (!two || (r1 < g.w.r && c1 < g.w.c));
            t.op("walk ", two ? "both " : "", r0, ",", c0, " - ", r1, ",", c1);
            std::vector<cell> a, b, wa, wb;
            bool thrown = false;
            try
            {
                if (two)
                    f.m.walk([&](const node& x, const node& y) {
                        append(a, x);
                        append(b, y);
                        if (x.size != y.size)
                            fail("parallel walk with different sizes");
                    }, g.m, sp(r0, c0), sp(r1, c1));
                else
                    f.m.walk([&](const node& x) { append(a, x); }, sp(r0, c0), sp(r1, c1));
            }
            catch (const mdds::size_error&)
            {
                thrown = true;
            }
            if (thrown == ok)
                fail("walk ", ok ? "rejects a valid range" : "accepts an invalid range");
            if (!ok)
                continue;
            for (std::size_t j = c0; j <= c1; ++j)
                for (std::size_t i = r0; i <= r1; ++i)
                {
                    wa.push_back(f.w.at(i, j));
                    if (two)
                        wb.push_back(g.w.at(i, j));
                }
            if (a != wa || b != wb)
                fail("walk gives", str(a), " |", str(b), " expected", str(wa), " |", str(wb));
        }
        bool same = f.w.r == g.w.r && f.w.c == g.w.c, thrown = false;
        std::vector<cell> a, b;
        t.op("walk all of both");
        try
        {
            f.m.walk([&](const node& x, const node& y) {
                append(a, x);
                append(b, y);
            }, g.m);
        }
        catch (const mdds::size_error&)
        {
            thrown = true;
        }
        if (thrown == same)
            fail("parallel walk ", same ? "rejects equal sizes" : "accepts different sizes");
        if (same && (a != f.w.v || b != g.w.v))
            fail("parallel walk gives", str(a), " |", str(b));
        if ((f.m == g.m) != (f.w == g.w))
            fail("== gives ", f.m == g.m);
        check(t, f.m, f.w, "end");
        t.hit();
    }

    template<typename F>
    static void expect_throw(const char* what, F f)
    {
        try
        {
            f();
        }
        catch (const std::exception&)
        {
            return;
        }
        fail(what, " does not throw");
    }

    static void bad_case(tape& t)
    {
        fixture f;
        make(t, f.m, f.w);
        for (int k = 0; k < 4; ++k)
        {
            std::size_t i = t.u(uint32_t(f.w.r)), j = f.w.c + t.u(3);
            uint32_t what = t.u(8);
            t.op("bad ", what, " (", i, ",", j, ")");
            std::vector<double> a(f.w.v.size() + 1 + t.u(3), 1.5);
            switch (what)
            {
                case 0: expect_throw("set", [&] { std::visit([&](const auto& v) {
                    if constexpr (!std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        f.m.set(i, j, v);
                    }, gen(t, 1 + t.u(4))); }); break;
                case 2: expect_throw("get_type", [&] { (void)f.m.get_type(i, j); }); break;
                case 3: expect_throw("set_empty", [&] { f.m.set_empty(i, j); }); break;
                case 4: expect_throw("set range", [&] { f.m.set(0, 0, a.begin(), a.end()); }); break;
                case 5: expect_throw("set_empty length 0", [&] { f.m.set_empty(0, 0, 0); }); break;
                case 6: expect_throw("set_column_empty", [&] { f.m.set_column_empty(j); }); break;
                default:
                    expect_throw("copy array", [&] {
                        if (t.b())
                            f.m.copy(f.w.r, f.w.c, a.begin(), a.end());
                        else
                            f.m.copy(f.w.r + 1, 1, a.begin(), a.begin() + f.w.r + 1);
                    });
            }
            check(t, f.m, f.w, "after a rejected call");
        }
        t.hit();
    }
};

using A = fixture<mdds::mtm::std_string_traits>;
using B = fixture<wide_traits>;
template<void (*X)(tape&), void (*Y)(tape&)>
void pick(tape& t)
{
    t.chance(3, 4) ? X(t) : Y(t);
}

} // namespace

int main(int argc, char** argv)
{
    return hz::main_impl(
        argc, argv,
        {{"access", pick<A::access_case, B::access_case>},
         {"reshape", pick<A::reshape_case, B::reshape_case>},
         {"walk", pick<A::walk_case, B::walk_case>},
         {"bad", pick<A::bad_case, B::bad_case>}});
}
